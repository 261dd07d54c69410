package tilemesh

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
)

// hills is a rough floor of 20 x 20.
func hills(k int) string {
	var b strings.Builder
	for z := 0; z <= 20; z++ {
		for x := 0; x <= 20; x++ {
			fmt.Fprintf(&b, "v %d %v %d\n", x, float32((x*7+z*11+x*z*k)%5)/4, z)
		}
	}
	for z := 0; z < 20; z++ {
		for x := 0; x < 20; x++ {
			i := z*21 + x + 1
			fmt.Fprintf(&b, "f %d %d %d %d\n", i, i+21, i+22, i+1)
		}
	}
	return b.String()
}

func load(t *testing.T, tm *TileMesh, obj string) {
	if err := tm.LoadGeometry(strings.NewReader(obj)); err != nil {
		t.Fatal(err)
	}
}

func data(t *testing.T, m *detour.NavMesh) []byte {
	var buf bytes.Buffer
	if err := m.ToWriter(&buf); err != nil {
		t.Fatal(err)
	}
	return buf.Bytes()
}

func build(t *testing.T, tm *TileMesh) []byte {
	m, ok := tm.Build()
	if !ok {
		t.Fatal("build failed")
	}
	return data(t, m)
}

func fresh() *TileMesh { return New(recast.NewBuildContext(false)) }
