package main

import (
	"encoding/json"
	"math"
	"sort"

	"github.com/arl/go-detour/recast"
)

// C28: partitioning into regions. Also the landscapes of C29 - C31.

func init() { cmds["regions"] = regionsCmd }

// landscape makes fields with patches of areas, walls, holes, ridges, floors
// above each other and ramps that wind around.
func landscape(r *rng, w, h int) [][]vspan {
	cols := make([][]vspan, w*h)
	lvl := make([]int, w*h)
	ar := make([]int, w*h)
	for i := range lvl {
		lvl[i], ar[i] = 3, 1
	}
	rect := func(fn func(i int)) {
		x0, z0 := r.Intn(w), r.Intn(h)
		x1, z1 := imin(w-1, x0+r.Intn(imax(1, w/2))), imin(h-1, z0+r.Intn(imax(1, h/2)))
		for z := z0; z <= z1; z++ {
			for x := x0; x <= x1; x++ {
				fn(x + z*w)
			}
		}
	}
	kind := r.Intn(11)
	switch kind {
	case 0: // noise
		n := r.in(2, 4)
		for i := range ar {
			ar[i] = r.Intn(n)
		}
	case 1: // noise in height
		for i := range lvl {
			lvl[i] = r.in(2, 5)
		}
	case 2: // slopes with cliffs
		sx, sz := r.in(-1, 1), r.in(-1, 1)
		for i := range lvl {
			lvl[i] = 30 + sx*(i%w) + sz*(i/w)
		}
	}
	if kind != 0 {
		for n := r.in(0, 4); n > 0; n-- {
			a := r.in(1, 3)
			rect(func(i int) { ar[i] = a })
		}
		for n := r.in(0, 3); n > 0; n-- { // holes
			rect(func(i int) { ar[i] = 0 })
		}
		for n := r.in(0, 3); n > 0; n-- { // platforms
			d := r.in(-2, 4)
			rect(func(i int) { lvl[i] += d })
		}
		for n := r.in(0, 3); n > 0; n-- { // ridges that rise slowly along one axis and steeply along the other
			x0, z0, k := r.Intn(w), r.Intn(h), r.in(2, 8)
			vert := r.p(50)
			for j := -k; j <= k; j++ {
				x, z := x0+j, z0
				if vert {
					x, z = x0, z0+j
				}
				if x >= 0 && z >= 0 && x < w && z < h {
					lvl[x+z*w] += k - int(math.Abs(float64(j)))
				}
			}
		}
	}
	// areas of single cells
	if r.p(20) {
		for i := range ar {
			if r.p(10) {
				ar[i] = r.Intn(3)
			}
		}
	}
	for i := range cols {
		cols[i] = []vspan{}
		if lvl[i] < 1 {
			lvl[i] = 1
		}
		if r.p([]int{100, 98, 90}[kind%3]) {
			cols[i] = append(cols[i], vspan{lvl[i] - 1, lvl[i], ar[i]})
		}
	}
	switch {
	case kind == 3 || kind == 4 || r.p(20): // floors above
		base := 0
		for _, l := range lvl {
			base = imax(base, l)
		}
		for f := r.in(1, 2); f > 0; f-- {
			base += r.in(4, 6)
			b, hole := base, []int{0, 5, 20}[r.Intn(3)]
			for n := r.in(1, 3); n > 0; n-- {
				a := r.in(1, 2)
				rect(func(i int) {
					if q := cols[i]; !r.p(hole) && (len(q) == 0 || q[len(q)-1][1] < b-2) {
						cols[i] = append(q, vspan{b - 1, b, a})
					}
				})
			}
			// a ramp
			if r.p(60) {
				x0, z0 := r.Intn(w), r.Intn(h)
				for k := 0; k < 12 && x0+k < w && b-1-k > 0; k++ {
					i := x0 + k + z0*w
					cols[i] = []vspan{{0, b - k, 1}}
				}
			}
		}
	case kind >= 5 && kind <= 7: // a ramp that winds around, several turns
		cx, cz := w/2, h/2
		for i := range cols {
			cols[i] = []vspan{}
		}
		rad := r.in(2, imax(2, imin(w, h)/2-1))
		in := r.in(0, rad-1)
		per := 8 * rad
		turns := r.in(1, 4)
		rise := r.in(per/4, per) // per turn
		if rise < 5 {
			rise = 5
		}
		off := r.Float64()
		dirn := []float64{1, -1}[r.Intn(2)]
		for i := range cols {
			x, z := i%w-cx, i/w-cz
			d := imax(int(math.Abs(float64(x))), int(math.Abs(float64(z))))
			if d > rad || d < in {
				continue
			}
			t := math.Atan2(float64(z), float64(x))/(2*math.Pi)*dirn + off
			t -= math.Floor(t)
			for k := 0; k < turns; k++ {
				y := 2 + int((t+float64(k))*float64(rise))
				a := 1
				if kind == 6 && r.p(5) {
					a = 2
				}
				cols[i] = append(cols[i], vspan{y - 1, y, a})
			}
		}
	}
	if kind >= 9 {
		ribbon(r, w, h, cols)
	}
	for i := range cols {
		c := cols[i]
		sort.Slice(c, func(a, b int) bool { return c[a][0] < c[b][0] })
	}
	return cols
}

// ribbon is a path that rises and crosses over itself.
func ribbon(r *rng, w, h int, cols [][]vspan) {
	for i := range cols {
		cols[i] = []vspan{}
	}
	for n := r.in(1, 2); n > 0; n-- {
		x, z, y, d := r.Intn(w), r.Intn(h), 3, r.Intn(4)
		wide, up, turn, sgn := r.in(1, 2), []int{30, 50, 70}[r.Intn(3)], r.in(10, 40), r.in(0, 1)*2-1
		put := func(x, z int) {
			if x < 0 || z < 0 || x >= w || z >= h {
				return
			}
			i := x + z*w
			for _, s := range cols[i] {
				if s[1] > y-4 && s[1] < y+4 {
					return
				}
			}
			cols[i] = append(cols[i], vspan{y - 1, y, 1})
		}
		for k := r.in(10, 90); k > 0; k-- {
			put(x, z)
			if wide > 1 {
				put(x+int(recast.GetDirOffsetX(int32(d+1)&3)), z+int(recast.GetDirOffsetY(int32(d+1)&3)))
			}
			if r.p(turn) {
				d = (d + sgn + 4) & 3
				if r.p(20) {
					sgn = -sgn
				}
			}
			nx, nz := x+int(recast.GetDirOffsetX(int32(d))), z+int(recast.GetDirOffsetY(int32(d)))
			if nx < 0 || nz < 0 || nx >= w || nz >= h {
				d = (d + sgn + 4) & 3
				continue
			}
			x, z = nx, nz
			if r.p(up) {
				y++
			}
		}
	}
}

// compacted builds the compact heightfield of columns and what is recorded of it.
func compacted(tr *Trace, ctx *recast.BuildContext, f *vfield, cols [][]vspan, height, climb int) (chf *recast.CompactHeightfield, ok bool) {
	ok = tr.try("BuildCompactHeightfield", func() {
		hf := f.heightfield()
		for i, col := range cols {
			for _, s := range col {
				v := f.verts(sliver(4, i%f.w, i/f.w, s[0], s[1], s[2]))
				recast.RasterizeTriangle(ctx, v[0:3], v[3:6], v[6:9], uint8(s[2]), hf, 0)
			}
		}
		chf = &recast.CompactHeightfield{}
		recast.BuildCompactHeightfield(ctx, int32(height), int32(climb), hf, chf)
	})
	return chf, ok
}

func chfCells(c *recast.CompactHeightfield) [][][7]int {
	cells := make([][][7]int, len(c.Cells))
	for i, cell := range c.Cells {
		cells[i] = [][7]int{}
		for k := cell.Index; k < cell.Index+uint32(cell.Count); k++ {
			s := &c.Spans[k]
			x := [7]int{int(s.Y), int(s.H), int(c.Areas[k])}
			for d := int32(0); d < 4; d++ {
				x[3+d] = int(recast.GetCon(s, d))
			}
			cells[i] = append(cells[i], x)
		}
	}
	return cells
}

func chfRegs(c *recast.CompactHeightfield) [][]int {
	regs := make([][]int, len(c.Cells))
	for i, cell := range c.Cells {
		regs[i] = []int{}
		for k := cell.Index; k < cell.Index+uint32(cell.Count); k++ {
			regs[i] = append(regs[i], int(c.Spans[k].Reg))
		}
	}
	return regs
}

// partition builds regions and records them.
func partition(tr *Trace, ctx *recast.BuildContext, chf *recast.CompactHeightfield, border, min, merge int, emit bool) bool {
	before := chfCells(chf)
	good := false
	if !tr.try("BuildRegionsMonotone", func() {
		good = recast.BuildRegionsMonotone(ctx, chf, int32(border), int32(min), int32(merge))
	}) {
		return false
	}
	if emit {
		after := chfCells(chf)
		same := int(chf.BorderSize) == border
		for i := range before {
			for k := range before[i] {
				same = same && before[i][k] == after[i][k]
			}
		}
		tr.Emit("Regions", M{"border": border, "min": min, "merge": merge, "ok": good, "max": int(chf.MaxRegions), "reg": chfRegs(chf), "same": same})
	}
	return good
}

func plainField(w, h int) *vfield {
	return &vfield{w: w, h: h, rows: 400, q: 4, cs: 1, ch: 1, exact: true}
}

func regionsCmd(tr *Trace, r *rng, a *Args) {
	one := func(cols [][]vspan, w, h int) bool {
		f := plainField(w, h)
		ctx := recast.NewBuildContext(false)
		chf, ok := compacted(tr, ctx, f, cols, r.in(2, 3), []int{0, 1, 1, 1, 2}[r.Intn(5)])
		if !ok {
			return true
		}
		tr.Emit("Begin", M{"w": w, "h": h, "cells": chfCells(chf)})
		n := r.in(1, 2)
		for ; n > 0; n-- {
			border := []int{0, 0, 0, 1, 2, 3}[r.Intn(6)]
			if border > 0 && r.p(5) {
				border = r.in(1, imax(w, h)+1)
			}
			min, merge := []int{0, 1, 2, 4, 8, 20}[r.Intn(6)], []int{0, 1, 4, 10, 30, 400}[r.Intn(6)]
			chf.BorderSize = 0
			if !partition(tr, ctx, chf, border, min, merge, true) {
				break
			}
		}
		return true
	}
	if a.Sched != "" {
		for _, ln := range schedLines(a) {
			var g [][]int
			if err := json.Unmarshal(ln, &g); err != nil {
				die(err)
			}
			k := r.in(1, 2)
			h, w := len(g)*k, len(g[0])*k
			cols := make([][]vspan, w*h)
			for i := range cols {
				cols[i] = []vspan{{0, 2, g[i/w/k][i%w/k]}}
			}
			one(cols, w, h)
		}
	}
	for i := 0; i < a.N; i++ {
		w, h := r.in(1, 16), r.in(1, 16)
		if r.p(30) {
			w, h = r.in(8, 20), r.in(8, 20)
		}
		one(landscape(r, w, h), w, h)
	}
	if a.Opt == "many" && a.Shard == 0 {
		// a board of squares that are all regions of their own
		for _, n := range [][2]int{{100, 100}, {181, 181}, {182, 181}, {256, 256}, {300, 240}} {
			w, h := n[0], n[1]
			cols := make([][]vspan, w*h)
			for i := range cols {
				cols[i] = []vspan{{0, 2, 1 + (i%w+i/w)%2}}
			}
			f := plainField(w, h)
			ctx := recast.NewBuildContext(false)
			tr.Emit("Begin", M{"w": 1, "h": 1, "cells": [][]int{{}}})
			chf, ok := compacted(tr, ctx, f, cols, 2, 1)
			if !ok {
				return
			}
			good := false
			if !tr.try("BuildRegionsMonotone", func() { good = recast.BuildRegionsMonotone(ctx, chf, 0, 0, 0) }) {
				return
			}
			seen := map[uint16]bool{}
			for i := range chf.Spans {
				seen[chf.Spans[i].Reg] = true
			}
			tr.Emit("Many", M{"n": w * h, "ok": good, "distinct": len(seen)})
		}
	}
}
