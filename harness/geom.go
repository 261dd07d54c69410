package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/arl/go-detour/recast"
)

// C32, C33: loading geometry and its spatial partition.

func init() {
	cmds["load"] = loadCmd
	cmds["chunks"] = chunksCmd
}

// number writes v/den as text in one of several ways.
func number(r *rng, v, den int) string {
	f := float64(v) / float64(den)
	if den != 8 {
		return strconv.FormatFloat(f, []byte("ef")[r.Intn(2)], -1, 64)
	}
	switch r.Intn(6) {
	case 0:
		return strconv.FormatFloat(f, 'f', 6, 64)
	case 1:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 2:
		return strconv.FormatFloat(f, 'f', 3, 64)
	case 3:
		if v >= 0 {
			return "+" + strconv.FormatFloat(f, 'f', -1, 64)
		}
	case 4:
		if v%8 == 0 {
			return fmt.Sprint(v / 8)
		}
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// objText makes lines of an OBJ file (as values) and its text.
func objText(r *rng, den int) (lines []M, text string) {
	lines = []M{}
	var b strings.Builder
	eol := "\n"
	if r.p(20) {
		eol = "\r\n"
	}
	nv := 0
	bad := r.p(20)
	mixed := r.p(40) // vertices between faces
	n := r.in(0, 40)
	size := []int{4, 30, 400, 100000}[r.Intn(4)]
	put := func(m M, s string) {
		lines = append(lines, m)
		b.WriteString(s + eol)
	}
	vertex := func() {
		c := []int{r.in(-size, size), r.in(-size, size), r.in(-size, size)}
		if nv == 0 && r.p(30) { // everything on one side of the origin
			c = []int{3 * size, -3 * size, 3 * size}
		}
		s := "v " + number(r, c[0], den) + " " + number(r, c[1], den) + " " + number(r, c[2], den)
		if r.p(10) {
			s += " 1.0"
		}
		put(M{"k": "v", "c": c}, s)
		nv++
	}
	face := func() {
		k := r.in(3, 6)
		if r.p(10) {
			k = r.in(7, 40)
		}
		if r.p(10) {
			k = r.Intn(3)
		}
		idx := []int{}
		s := "f"
		for j := 0; j < k; j++ {
			v := r.in(1, imax(nv, 1))
			if nv > 5 && r.p(50) {
				v = r.in(nv-4, nv)
			}
			if bad && r.p(4) {
				v = []int{0, -1, nv + 1, nv + 2, -nv, 1 << 30}[r.Intn(6)]
			}
			idx = append(idx, v)
			s += " " + fmt.Sprint(v)
			switch r.Intn(8) {
			case 0:
				s += fmt.Sprintf("/%d/%d", r.in(1, 9), r.in(1, 9))
			case 1:
				s += fmt.Sprintf("//%d", r.in(1, 9))
			case 2:
				s += " "
			}
		}
		put(M{"k": "f", "i": idx}, s)
	}
	if !mixed {
		for j := 0; j < n; j++ {
			vertex()
		}
	}
	m := r.in(0, 40)
	for j := 0; j < m; j++ {
		switch {
		case mixed && r.p(60):
			vertex()
		case r.p(15):
			put(M{"k": "other"}, []string{"", "# v 1 2 3", "g mesh", "vn 0 1 0", "vt 0.5 0.5", "s off", "usemtl x", "o f"}[r.Intn(8)])
		case bad && r.p(4):
			put(M{"k": "bad"}, []string{"v 1 x 3", "f 1 y 2", "v 1 2 3 4 5", "v 1 2 3,5", "f 1.5 2 1", "v 1e 2 3"}[r.Intn(6)])
		default:
			if nv > 0 {
				face()
			}
		}
	}
	text = b.String()
	if r.p(30) {
		text = strings.TrimSuffix(text, eol)
	}
	return lines, text
}

// brokenReader fails after some bytes.
type brokenReader struct {
	s string
}

func (b *brokenReader) Read(p []byte) (int, error) {
	if b.s == "" {
		return 0, fmt.Errorf("read error")
	}
	n := copy(p, b.s)
	b.s = b.s[n:]
	return n, nil
}

// ints gives den*v if these are integers.
func ints(v []float32, den int) []int {
	out := []int{}
	for _, f := range v {
		g := float64(f) * float64(den)
		if g != math.Trunc(g) || math.Abs(g) > 1e9 {
			g = 999999999
		}
		out = append(out, int(g))
	}
	return out
}

func milli(v []float32) []int {
	out := []int{}
	for _, f := range v {
		g := math.Round(float64(f) * 1000)
		if !(math.Abs(g) <= 2000) {
			g = 999999
		}
		out = append(out, int(g))
	}
	return out
}

func loadCmd(tr *Trace, r *rng, a *Args) {
	for i := 0; i < a.N; i++ {
		tr.Emit("Begin", nil)
		ig := &recast.InputGeom{}
		ml := recast.NewMeshLoaderOBJ()
		for k := r.in(1, 5); k > 0; k-- {
			den := []int{8, 8, 1, 1 << 16}[r.Intn(4)]
			lines, text := objText(r, den)
			e := M{"lines": lines, "via": "geom"}
			var rd interface {
				Read([]byte) (int, error)
			} = strings.NewReader(text)
			if r.p(5) {
				rd = &brokenReader{text}
				e["lines"] = append(lines, M{"k": "bad"})
			}
			loader := r.p(40)
			var err error
			if !tr.try("Load", func() {
				m := ml
				if loader {
					e["via"] = "loader"
					err = ml.Load(rd)
				} else {
					err = ig.LoadOBJMesh(rd)
					m = ig.Mesh()
				}
				e["err"] = err != nil
				if err != nil {
					return
				}
				e["verts"], e["nverts"] = ints(m.Verts(), den), m.VertCount()
				e["tris"], e["ntris"] = m.Tris(), m.TriCount()
				if m.Tris() == nil {
					e["tris"] = []int{}
				}
				e["normals"] = milli(m.Normals())
				e["scale"] = m.Scale() == 1
				if !loader {
					e["lo"], e["hi"] = ints(ig.MeshBoundsMin(), den), ints(ig.MeshBoundsMax(), den)
					e["nlo"], e["nhi"] = ints(ig.NavMeshBoundsMin(), den), ints(ig.NavMeshBoundsMax(), den)
				}
			}) {
				return
			}
			tr.Emit("Load", e)
		}
	}
}

// chunksCmd loads triangle soups and looks at the chunks.
func chunksCmd(tr *Trace, r *rng, a *Args) {
	for i := 0; i < a.N; i++ {
		n := []int{r.in(1, 30), r.in(200, 300), r.in(256, 258), r.in(500, 520), r.in(700, 1100), r.in(1000, 1400)}[r.Intn(6)]
		if a.Tier == "thorough" && r.p(10) {
			n = r.in(1400, 3000)
		}
		size := []int{1, 4, 60, 1000, 1000}[r.Intn(5)]
		lx, lz := size, size
		switch r.Intn(4) {
		case 0:
			lx = imax(1, size/20)
		case 1:
			lz = imax(1, size/20)
		}
		ox, oz := r.in(-500, 500), r.in(-500, 500)
		var b strings.Builder
		verts := [][2]int{}
		tris := [][3]int{}
		vert := func(x, z int) {
			verts = append(verts, [2]int{x, z})
			fmt.Fprintf(&b, "v %d %d %d\n", x, r.in(-50, 50), z)
		}
		dup := n < 300 && r.p(20)
		ext := []int{0, 2, 10, 200}[r.Intn(4)]
		for j := 0; j < n; j++ {
			x, z := ox+r.in(0, lx), oz+r.in(0, lz)
			e := ext
			if r.p(2) {
				e = size
			}
			k := len(verts)
			if dup && j > 0 && r.p(60) {
				tris = append(tris, tris[j-1])
				continue
			}
			vert(x, z)
			vert(x+r.in(-e, e), z+r.in(-e, e))
			vert(x+r.in(-e, e), z+r.in(-e, e))
			t := [3]int{k, k + 1, k + 2}
			if k > 9 && r.p(10) {
				t[1] = r.Intn(k)
			}
			q := r.Intn(3)
			tris = append(tris, [3]int{t[q], t[(q+1)%3], t[(q+2)%3]})
		}
		for _, t := range tris {
			fmt.Fprintf(&b, "f %d %d %d\n", t[0]+1, t[1]+1, t[2]+1)
		}
		ig := &recast.InputGeom{}
		tr.Emit("Begin", M{"verts": verts, "tris": tris})
		nodes := [][6]int{}
		ctris := [][]int32{}
		e := M{}
		flt := func(f float32) int {
			if g := float64(f); g == math.Trunc(g) && math.Abs(g) < 1e9 {
				return int(g)
			}
			return 999999999
		}
		if !tr.try("LoadOBJMesh", func() {
			if r.p(30) {
				ig.LoadOBJMesh(strings.NewReader("v 0 0 0\nv 0 0 1\nv 1 0 0\nf 1 2 3\n"))
			}
			e["err"] = ig.LoadOBJMesh(strings.NewReader(b.String())) != nil
			cm := ig.ChunkyMesh()
			for j := 0; j < int(cm.Nnodes); j++ {
				c := cm.Nodes[j]
				nodes = append(nodes, [6]int{flt(c.BMin[0]), flt(c.BMin[1]), flt(c.BMax[0]), flt(c.BMax[1]), int(c.I), int(c.N)})
			}
			for j := 0; j < int(cm.Ntris); j++ {
				ctris = append(ctris, cm.Tris[3*j:3*j+3])
			}
			e["max"] = cm.MaxTrisPerChunk
		}) {
			return
		}
		e["nodes"], e["ctris"] = nodes, ctris
		tr.Emit("Chunks", e)
		cm := ig.ChunkyMesh()
		for k := 0; k < 25; k++ {
			x0, z0 := ox+r.in(-3, lx+3), oz+r.in(-3, lz+3)
			w, h := r.in(0, imax(2, lx/4)), r.in(0, imax(2, lz/4))
			if r.p(20) {
				w, h = 0, 0
			}
			if r.p(40) { // at the very border of a chunk
				c := nodes[r.Intn(len(nodes))]
				x0, z0 = c[2*r.Intn(2)], c[1+2*r.Intn(2)]
				x0, z0 = x0+r.in(-1, 1), z0+r.in(-1, 1)
				if r.p(50) {
					x0, z0 = x0-w, z0-h
				}
			}
			room := 512
			if r.p(15) {
				room = r.Intn(len(nodes) + 1)
			}
			ids := make([]int32, room)
			cnt := 0
			if !tr.try("ChunksOverlappingRect", func() {
				cnt = cm.ChunksOverlappingRect([2]float32{float32(x0), float32(z0)}, [2]float32{float32(x0 + w), float32(z0 + h)}, ids)
				ids = ids[:cnt]
			}) {
				return
			}
			tr.Emit("Rect", M{"q": [4]int{x0, z0, x0 + w, z0 + h}, "room": room, "ids": ids})
		}
	}
}
