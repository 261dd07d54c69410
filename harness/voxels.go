package main

import (
	"encoding/json"

	"github.com/arl/go-detour/recast"
	"github.com/arl/gogeo/f32/d3"
)

// C23: rasterization.

func init() { cmds["raster"] = rasterCmd }

// vfield describes a field of voxels; geometry is given in lattice steps of
// 1/q cell from its corner.
type vfield struct {
	w, h, rows, q int
	cs, ch        float32
	org           [3]float32
	exact         bool
}

func randField(r *rng, w, h, rows, q int) *vfield {
	f := &vfield{w: w, h: h, rows: rows, q: q, cs: 1, ch: 1, exact: true}
	if r.p(70) {
		f.cs = []float32{0.25, 0.5, 1, 2}[r.Intn(4)]
		f.ch = []float32{0.25, 0.5, 1, 2}[r.Intn(4)]
	}
	if r.p(20) {
		f.exact = false
		f.cs = []float32{0.3, 0.15, 0.7, 1.1}[r.Intn(4)]
		f.ch = []float32{0.2, 0.3, 0.1, 1.3}[r.Intn(4)]
	}
	if r.p(60) {
		for i := range f.org {
			f.org[i] = float32(r.in(-40, 40)) / 4
		}
	}
	return f
}

func (f *vfield) pt(x, y, z int) d3.Vec3 {
	k := 1 / float32(f.q)
	return d3.NewVec3XYZ(f.org[0]+float32(x)*k*f.cs, f.org[1]+float32(y)*k*f.ch, f.org[2]+float32(z)*k*f.cs)
}

func (f *vfield) heightfield() *recast.Heightfield {
	a, b := f.pt(0, 0, 0), f.pt(f.w*f.q, f.rows*f.q, f.h*f.q)
	return recast.NewHeightfield(int32(f.w), int32(f.h), a, b, f.cs, f.ch)
}

// vtri is a triangle: nine lattice coordinates and an area.
type vtri [10]int

func (f *vfield) verts(t vtri) []float32 {
	var v []float32
	for i := 0; i < 3; i++ {
		v = append(v, f.pt(t[3*i], t[3*i+1], t[3*i+2])...)
	}
	return v
}

// rasterize adds triangles through one of the three functions.
func (f *vfield) rasterize(r *rng, ctx *recast.BuildContext, hf *recast.Heightfield, tris []vtri, areas []uint8, thr int32) bool {
	switch r.Intn(3) {
	case 0:
		for i, t := range tris {
			v := f.verts(t)
			if !recast.RasterizeTriangle(ctx, v[0:3], v[3:6], v[6:9], areas[i], hf, thr) {
				return false
			}
		}
		return true
	case 1:
		var v []float32
		for _, t := range tris {
			v = append(v, f.verts(t)...)
		}
		return recast.RasterizeTriangles2(ctx, v, areas, int32(len(tris)), hf, thr)
	}
	var v []float32
	var idx []int32
	at := map[[3]int]int32{}
	for _, t := range tris {
		tv := f.verts(t)
		for i := 0; i < 3; i++ {
			k := [3]int{t[3*i], t[3*i+1], t[3*i+2]}
			n, ok := at[k]
			if !ok {
				n = int32(len(at))
				at[k] = n
				v = append(v, tv[3*i:3*i+3]...)
			}
			idx = append(idx, n)
		}
	}
	return recast.RasterizeTriangles(ctx, v, int32(len(at)), idx, areas, int32(len(tris)), hf, thr)
}

// shown is what a compact heightfield shows of the columns: floor, clearance
// and area of every walkable span.
func shown(ctx *recast.BuildContext, hf *recast.Heightfield) [][][3]int {
	var chf recast.CompactHeightfield
	recast.BuildCompactHeightfield(ctx, 3, 0, hf, &chf)
	return shownc(&chf)
}

func shownc(chf *recast.CompactHeightfield) [][][3]int {
	cols := make([][][3]int, len(chf.Cells))
	for i, c := range chf.Cells {
		cols[i] = [][3]int{}
		for k := c.Index; k < c.Index+uint32(c.Count); k++ {
			s := chf.Spans[k]
			cols[i] = append(cols[i], [3]int{int(s.Y), int(s.H), int(chf.Areas[k])})
		}
	}
	return cols
}

// rasterCase rasterizes tris in the given order and records the result.
func (f *vfield) rasterCase(tr *Trace, r *rng, tris []vtri, thr int) bool {
	ctx := recast.NewBuildContext(r.p(50))
	var a, c [][][3]int
	ok := true
	if !tr.try("Rasterize", func() {
		hf := f.heightfield()
		areas := make([]uint8, len(tris))
		for i, t := range tris {
			areas[i] = uint8(t[9])
		}
		ok = f.rasterize(r, ctx, hf, tris, areas, int32(thr))
		a = shown(ctx, hf)

		// the twin: walkable all over, with a solid floor
		W, H := f.w*f.q, f.h*f.q
		floor := []vtri{{0, 0, 0, 0, 0, H, W, 0, H, 63}, {0, 0, 0, W, 0, H, W, 0, 0, 63}}
		all := append([]vtri{}, tris...)
		if r.p(50) {
			all = append(all, floor...)
		} else {
			all = append(floor, all...)
		}
		for i := range all {
			if i >= len(areas) {
				areas = append(areas, 63)
			}
			areas[i] = 63
		}
		hf = f.heightfield()
		ok = ok && f.rasterize(r, ctx, hf, all, areas, int32(thr))
		c = shown(ctx, hf)
	}) {
		return false
	}
	tr.Emit("Raster", M{"w": f.w, "h": f.h, "rows": f.rows, "q": f.q, "exact": f.exact, "thr": thr, "tris": tris, "ok": ok, "a": a, "c": c})
	return true
}

// sliver is a triangle within cell x, z that covers rows lo..hi-1 there.
func sliver(q, x, z, lo, hi, area int) vtri {
	return vtri{x*q + 1, lo * q, z*q + 1, x*q + q/2, hi * q, z*q + q - 1, x*q + q - 1, lo * q, z*q + 1, area}
}

func rasterCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		// every cell of a field plays the insertions of one schedule
		var all [][][]int
		for _, ln := range schedLines(a) {
			var ops [][]int
			if err := json.Unmarshal(ln, &ops); err != nil {
				die(err)
			}
			all = append(all, ops)
		}
		for len(all) > 0 {
			n := imin(len(all), 16)
			f := randField(r, 4, 4, 8, 4)
			f.cs, f.ch, f.exact = 1, 0.5, true
			var tris []vtri
			off := r.Intn(3)
			for k := 0; k < 3; k++ {
				for i, ops := range all[:n] {
					if k < len(ops) {
						o := ops[k]
						tris = append(tris, sliver(4, i%4, i/4, o[0]+off, o[1]+off, []int{0, 5, 63}[o[2]]))
					}
				}
			}
			all = all[n:]
			tr.Emit("Begin", nil)
			if !f.rasterCase(tr, r, tris, 1) {
				return
			}
		}
		return
	}
	if a.Shard == 0 {
		// many spans
		f := randField(r, 34, 34, 30, 2)
		W := 68
		tris := []vtri{
			{0, 9, 0, 0, 9, W, W, 9, W, 63}, {0, 9, 0, W, 9, W, W, 9, 0, 63},
			{0, 21, 0, 0, 21, W, W, 21, W, 63}, {0, 21, 0, W, 21, W, W, 21, 0, 0},
			{0, 2, 0, W, 55, 10, W, 31, W, 5}, {0, 35, 0, 0, 35, W, W, 39, W, 63},
		}
		r.Shuffle(len(tris), func(i, j int) { tris[i], tris[j] = tris[j], tris[i] })
		tr.Emit("Begin", nil)
		if !f.rasterCase(tr, r, tris, 1) {
			return
		}
	}
	for i := 0; i < a.N; i++ {
		q := []int{2, 3, 4}[r.Intn(3)]
		f := randField(r, r.in(1, 5), r.in(1, 5), r.in(4, 40), q)
		if q == 3 {
			f.exact = false
		}
		var tris []vtri
		n := r.in(1, 6)
		lo := 0
		if r.p(60) {
			lo = -2 * q
		}
		areas := []int{0, 63, 63, 1, 5}
		for k := 0; k < n; k++ {
			var t vtri
			px, pz := func() int { return r.in(lo, f.w*q-lo) }, func() int { return r.in(lo, f.h*q-lo) }
			py := func() int { return r.in(lo, f.rows*q-lo) }
			if r.p(20) {
				// a small one
				x, z, y := px(), pz(), py()
				px, pz = func() int { return x + r.in(-q, q) }, func() int { return z + r.in(-q, q) }
				py = func() int { return y + r.in(-2*q, 2*q) }
			}
			for c := 0; c < 3; c++ {
				t[3*c], t[3*c+1], t[3*c+2] = px(), py(), pz()
			}
			switch r.Intn(5) {
			case 0: // flat
				t[4], t[7] = t[1], t[1]
			case 1: // nearly flat
				t[4], t[7] = t[1]+r.in(-q, q), t[1]+r.in(-q, q)
			case 2: // wall
				switch r.Intn(3) {
				case 0:
					t[3], t[6] = t[0], t[0]
				case 1:
					t[5], t[8] = t[2], t[2]
				default:
					t[6], t[8] = t[0], t[2]
				}
			}
			t[9] = areas[r.Intn(len(areas))]
			tris = append(tris, t)
			if k > 0 && r.p(25) { // share an edge with the last one
				copy(tris[k][:6], tris[k-1][3:9])
			}
		}
		tr.Emit("Begin", nil)
		thr := r.in(0, 3)
		for k := 0; k < 2; k++ {
			if !f.rasterCase(tr, r, tris, thr) {
				break
			}
			r.Shuffle(len(tris), func(i, j int) { tris[i], tris[j] = tris[j], tris[i] })
		}
	}
}
