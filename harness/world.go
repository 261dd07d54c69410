package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
	"github.com/arl/gogeo/f32/d3"
)

// C37: navigation meshes of terrain made of level blocks.

func init() { cmds["world"] = worldCmd }

const (
	wcs = 0.5
	wch = 0.25
)

// world is columns of slabs: ground of some level, or none, and a bridge.
// Heights are in voxels, of what is solid: ground [0, top), bridge [lo, top).
type world struct {
	xs, zs []int // borders of the blocks, in cells
	blocks [][][2]int
	fine   int  // if not 0, tops are also covered by small pieces: many chunks
	vast   bool // only by very small pieces
	h, c   int  // agent height and climb in voxels
	r      int  // radius in cells
}

func cut(r *rng, n int) []int {
	b := []int{0}
	for b[len(b)-1] < n {
		w := r.in(9, 20)
		if r.p(30) {
			w = r.in(3, 7)
		}
		w += b[len(b)-1]
		if n-w < 3 {
			w = n
		}
		b = append(b, w)
	}
	return b
}

func newWorld(r *rng) *world {
	w := &world{xs: cut(r, r.in(24, 56)), zs: cut(r, r.in(24, 44))}
	const L = 6
	w.h = r.in(5, 10)
	w.c = imin(w.h, []int{1, 2, L - 1, L, L + 1, 2*L - 1, 2 * L}[r.Intn(7)])
	w.r = []int{2, 2, 2, 3, 4, 5}[r.Intn(6)]
	if r.p(45) {
		w.fine = r.in(1, 4)
	}
	bridge := 1 + r.in(1, 4)*L
	holes, flat, bridges := r.Intn(35), r.in(20, 90), r.Intn(50)
	top := 1 + r.in(0, 2)*L
	for i := 0; i < (len(w.xs)-1)*(len(w.zs)-1); i++ {
		var b [][2]int
		t := 0
		if !r.p(holes) {
			t = top
			if !r.p(flat) {
				t = 1 + r.in(0, 3)*L
			}
			b = append(b, [2]int{0, t})
		}
		lo := bridge - 3
		// tiles are joined at up to twice the climb
		apart := t == 0 || lo-t < w.h || bridge-t > 2*w.c+1 || r.p(30)
		if r.p(bridges) && lo-t >= 2 && lo-t != w.h && apart {
			b = append(b, [2]int{lo, bridge})
		}
		w.blocks = append(w.blocks, b)
	}
	return w
}

// obj: the top of a slab is one voxel below the top of the voxels it makes
// solid.
func (w *world) obj() string {
	o := &objw{}
	nx := len(w.xs) - 1
	// the field covers all blocks
	fmt.Fprintf(&o.b, "v 0 0 0\nv %v 0 %v\n", float32(w.xs[nx])*wcs, float32(w.zs[len(w.zs)-1])*wcs)
	o.n = 2
	const in = wcs / 8 // keeps walls in the cells of their block
	for i, b := range w.blocks {
		x0, x1 := float32(w.xs[i%nx])*wcs+in, float32(w.xs[i%nx+1])*wcs-in
		z0, z1 := float32(w.zs[i/nx])*wcs+in, float32(w.zs[i/nx+1])*wcs-in
		for _, s := range b {
			y0, y1 := float32(s[0])*wch, float32(s[1]-1)*wch
			if y1 > y0 && w.vast {
				o.walls(x0, y0, z0, x1, y1, z1)
			} else if y1 > y0 {
				o.box(x0, y0, z0, x1, y1, z1)
			} else if !w.vast {
				o.quad([3]float32{x0, y1, z0}, [3]float32{x0, y1, z1}, [3]float32{x1, y1, z1}, [3]float32{x1, y1, z0})
			}
			d := float32(w.fine) * wcs
			if w.vast {
				d /= 7
			}
			for x := x0; w.fine > 0 && x < x1; x += d {
				for z := z0; z < z1; z += d {
					u, v := fmin(x+d, x1), fmin(z+d, z1)
					o.quad([3]float32{x, y1, z}, [3]float32{x, y1, v}, [3]float32{u, y1, v}, [3]float32{u, y1, z})
				}
			}
		}
	}
	return o.b.String()
}

func (w *world) settings(r *rng, tile bool) recast.BuildSettings {
	s := solomesh.DefaultSettings()
	if tile {
		s = tilemesh.DefaultSettings()
		s.TileSize = float32(r.in(10, 40))
	}
	if w.vast {
		s.TileSize = 64
	}
	s.CellSize, s.CellHeight = wcs, wch
	// radius and height are rounded up, the climb down
	s.AgentHeight = (float32(w.h) - float32(r.in(0, 3))/4) * wch
	s.AgentMaxClimb = (float32(w.c) + float32(r.in(0, 3))/4) * wch
	s.AgentRadius = (float32(w.r) - float32(r.in(0, 3))/4) * wcs
	s.RegionMinSize = 0
	s.RegionMergeSize = float32(r.in(0, 1) * r.in(1, 20))
	s.EdgeMaxLen = float32(r.in(0, 1) * r.in(2, 12))
	s.EdgeMaxError = float32(r.in(0, 5)) / 4
	s.VertsPerPoly = float32(r.in(3, 6))
	s.DetailSampleDist = 2
	s.DetailSampleMaxError = 1
	return s
}

func (w *world) at(v []int, n int) int {
	for i := 1; i < len(v); i++ {
		if n < v[i] {
			return i - 1
		}
	}
	return len(v) - 2
}

func (w *world) size(i int) int {
	nx := len(w.xs) - 1
	return imin(w.xs[i%nx+1]-w.xs[i%nx], w.zs[i/nx+1]-w.zs[i/nx])
}

type place struct{ x, z, y int }

// somewhere: mostly in the middle of blocks.
func (w *world) somewhere(r *rng) (ps []place) {
	nx := len(w.xs) - 1
	wd, ht := w.xs[nx], w.zs[len(w.zs)-1]
	for k := 0; k < 14; k++ {
		i := r.Intn(len(w.blocks))
		if r.p(60) { // the widest of some
			for n := 0; n < 4; n++ {
				if j := r.Intn(len(w.blocks)); w.size(j) > w.size(i) && len(w.blocks[j]) > 0 {
					i = j
				}
			}
		}
		x := (w.xs[i%nx] + w.xs[i%nx+1]) / 2
		z := (w.zs[i/nx] + w.zs[i/nx+1]) / 2
		if r.p(30) {
			x, z = r.Intn(wd), r.Intn(ht)
			i = w.at(w.zs, z)*nx + w.at(w.xs, x)
		}
		y := []int{1, 1, 1, 7, 13, 19}[r.Intn(6)] // 1: inside of what is higher
		if n := len(w.blocks[i]); n > 0 && r.p(75) {
			y = w.blocks[i][r.Intn(n)][1]
		}
		ps = append(ps, place{x, z, y})
	}
	return ps
}

// everywhere: all floors of all blocks.
func (w *world) everywhere() (ps []place) {
	nx := len(w.xs) - 1
	for i, b := range w.blocks {
		x := (w.xs[i%nx] + w.xs[i%nx+1]) / 2
		z := (w.zs[i/nx] + w.zs[i/nx+1]) / 2
		for _, s := range b {
			ps = append(ps, place{x, z, s[1]})
		}
		if len(b) == 0 {
			ps = append(ps, place{x, z, 7})
		}
	}
	return ps
}

func (w *world) trace(tr *Trace, r *rng, ps []place) {
	nx := len(w.xs) - 1
	xb, zb := []int{}, []int{}
	for x := 0; x < w.xs[nx]; x++ {
		xb = append(xb, w.at(w.xs, x)+1)
	}
	for z := 0; z < w.zs[len(w.zs)-1]; z++ {
		zb = append(zb, w.at(w.zs, z)+1)
	}
	blocks := [][][2]int{}
	any := false
	for _, b := range w.blocks {
		if b == nil {
			b = [][2]int{}
		}
		any = any || len(b) > 0
		blocks = append(blocks, b)
	}
	if !any {
		return
	}
	pl := [][]int{}
	for _, p := range ps {
		pl = append(pl, []int{p.x, p.z, p.y})
	}
	tr.Emit("Begin", M{"xb": xb, "zb": zb, "nx": nx, "blocks": blocks, "h": w.h, "c": w.c, "r": w.r, "places": pl})
	obj := w.obj()
	for _, kind := range []string{"solo", "tile"} {
		var m *detour.NavMesh
		ok := false
		ve := float32(3)
		refs := make([]detour.PolyRef, len(ps))
		pts := make([]d3.Vec3, len(ps))
		st := w.settings(r, kind == "tile")
		if !tr.try("Build", func() {
			b := newBuilder(kind, recast.NewBuildContext(false))
			b.SetSettings(st)
			if err := b.LoadGeometry(strings.NewReader(obj)); err != nil {
				die(err)
			}
			m, ok = b.Build()
			if !ok {
				return
			}
			_, q := detour.NewNavMeshQuery(m, 2048)
			f := detour.NewStandardQueryFilter()
			f.SetIncludeFlags(0xffff)
			on := []bool{}
			paths := [][]bool{}
			for i, p := range ps {
				c := d3.NewVec3XYZ((float32(p.x)+0.5)*wcs, float32(p.y)*wch, (float32(p.z)+0.5)*wcs)
				_, refs[i], pts[i] = q.FindNearestPoly(c, d3.NewVec3XYZ(wcs/4, ve*wch, wcs/4), f)
				if refs[i] != 0 {
					// polygons are chosen by their bounds
					d := pts[i].Sub(c)
					if abs32(d[0]) > wcs/4 || abs32(d[2]) > wcs/4 || abs32(d[1]) > ve*wch {
						refs[i] = 0
					}
				}
				on = append(on, refs[i] != 0)
			}
			for i := range ps {
				row := make([]bool, len(ps))
				for j := range ps {
					if refs[i] != 0 && refs[j] != 0 {
						path := make([]detour.PolyRef, 512)
						n, s := q.FindPath(refs[i], refs[j], pts[i], pts[j], f, path)
						row[j] = detour.StatusSucceed(s) && n > 0 && path[n-1] == refs[j] && !detour.StatusDetail(s, detour.PartialResult)
					}
				}
				paths = append(paths, row)
			}
			e := M{"kind": kind, "ok": ok, "on": on, "paths": paths}
			if kind == "tile" {
				// the tiles of the places, and of the polygons found there
				e["size"] = int(st.TileSize)
				at, of := [][2]int{}, [][2]int{}
				for i, p := range ps {
					x, y := b.(tileB).TilePos(d3.NewVec3XYZ((float32(p.x)+0.5)*wcs, float32(p.y)*wch, (float32(p.z)+0.5)*wcs))
					at = append(at, [2]int{int(x), int(y)})
					f := [2]int{-1, -1}
					if refs[i] != 0 {
						var t *detour.MeshTile
						var pl *detour.Poly
						m.TileAndPolyByRefUnsafe(refs[i], &t, &pl)
						f = [2]int{int(t.Header.X), int(t.Header.Y)}
					}
					of = append(of, f)
				}
				e["at"], e["of"] = at, of
			}
			tr.Emit("Mesh", e)
		}) {
			return
		}
		if !ok {
			tr.Emit("Mesh", M{"kind": kind, "ok": ok, "on": []bool{}, "paths": [][]bool{}})
		}
	}
}

func fmin(a, b float32) float32 {
	if a < b {
		return a
	}
	return b
}

func abs32(f float32) float32 {
	if f < 0 {
		return -f
	}
	return f
}

func worldCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		for _, ln := range schedLines(a) {
			var v []json.RawMessage
			w := &world{h: 7, r: r.in(2, 3)}
			nx := 0
			if json.Unmarshal(ln, &v) != nil || json.Unmarshal(v[0], &nx) != nil || json.Unmarshal(v[1], &w.c) != nil || json.Unmarshal(v[2], &w.blocks) != nil {
				die(fmt.Errorf("world: %s", ln))
			}
			b := 2*(w.r+4) + 1 + r.in(0, 2) // level around the middle
			for x := 0; x <= nx; x++ {
				w.xs = append(w.xs, x*b)
			}
			for z := 0; z <= len(w.blocks)/nx; z++ {
				w.zs = append(w.zs, z*b)
			}
			w.trace(tr, r, w.everywhere())
		}
		return
	}
	for i := 0; i < a.N; i++ {
		w := newWorld(r)
		if a.Opt == "vast" {
			for w.xs[len(w.xs)-1]*w.zs[len(w.zs)-1] < 1800 {
				w = newWorld(r)
			}
			w.vast, w.fine = true, 1
		}
		w.trace(tr, r, w.somewhere(r))
	}
}
