package solomesh

import (
	"fmt"
	"strings"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/gogeo/f32/d3"
)

// scene is a floor from (0, 0, 0) to (x, 0, z), and a slab from y0 up over a part of it.
func scene(x, z, x0, z0, x1, z1, y0 float32) string {
	var b strings.Builder
	fmt.Fprintf(&b, "v 0 0 0\nv 0 0 %v\nv %v 0 %v\nv %v 0 0\nf 1 2 3 4\n", z, x, z, x)
	y1 := y0 + 2
	fmt.Fprintf(&b, "v %v %v %v\nv %v %v %v\nv %v %v %v\nv %v %v %v\n", x0, y0, z0, x0, y0, z1, x1, y0, z1, x1, y0, z0)
	fmt.Fprintf(&b, "v %v %v %v\nv %v %v %v\nv %v %v %v\nv %v %v %v\n", x0, y1, z0, x0, y1, z1, x1, y1, z1, x1, y1, z0)
	b.WriteString("f 8 7 6 5\nf 9 10 11 12\nf 5 6 10 9\nf 6 7 11 10\nf 7 8 12 11\nf 8 5 9 12\n")
	return b.String()
}

type builder interface {
	Build() (*detour.NavMesh, bool)
}

// at: is there a polygon right at this place?
func at(t *testing.T, m *detour.NavMesh, x, y, z float32) bool {
	_, q := detour.NewNavMeshQuery(m, 256)
	f := detour.NewStandardQueryFilter()
	p := d3.NewVec3XYZ(x, y, z)
	_, ref, pt := q.FindNearestPoly(p, d3.NewVec3XYZ(0.05, 0.5, 0.05), f)
	return ref != 0 && pt.Dist(p) < 0.5
}

func build(t *testing.T, s recast.BuildSettings, obj string) *detour.NavMesh {
	b := New(recast.NewBuildContext(false))
	b.SetSettings(s)
	if err := b.LoadGeometry(strings.NewReader(obj)); err != nil {
		t.Fatal(err)
	}
	m, ok := b.Build()
	if !ok {
		t.Fatal("build failed")
	}
	return m
}
