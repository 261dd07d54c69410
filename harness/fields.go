package main

import (
	"encoding/json"
	"math"
	"sort"
	"strings"

	"github.com/arl/go-detour/recast"
)

// C24 - C27: filters, compact heightfields, erosion, marked areas.

func init() {
	cmds["fields"] = fieldsCmd
	cmds["volumes"] = volumesCmd
}

// span of solid voxels: rows lo..hi-1 and an area
type vspan [3]int

type fworld struct {
	tr   *Trace
	r    *rng
	f    *vfield
	cols [][]vspan
	ctx  *recast.BuildContext
	hf   *recast.Heightfield
	chf  *recast.CompactHeightfield
}

func newFWorld(tr *Trace, r *rng, w, h, rows int, cols [][]vspan) *fworld {
	f := &vfield{w: w, h: h, rows: rows, q: 4, cs: 1, ch: 1, exact: true}
	if r.p(50) {
		f.cs = []float32{0.25, 0.5, 1, 2}[r.Intn(4)]
		f.ch = []float32{0.25, 0.5, 1, 2}[r.Intn(4)]
		for i := range f.org {
			f.org[i] = float32(r.in(-40, 40)) / 4
		}
	}
	fw := &fworld{tr: tr, r: r, f: f, cols: cols, ctx: recast.NewBuildContext(true)}
	tr.Emit("Begin", M{"w": w, "h": h, "cols": cols})
	if !tr.try("RasterizeTriangle", func() {
		fw.hf = f.heightfield()
		for i, col := range cols {
			for _, s := range col {
				v := f.verts(sliver(4, i%w, i/w, s[0], s[1], s[2]))
				recast.RasterizeTriangle(fw.ctx, v[0:3], v[3:6], v[6:9], uint8(s[2]), fw.hf, 0)
			}
		}
	}) {
		return nil
	}
	return fw
}

func (fw *fworld) filter(kind string, height, climb int) bool {
	var show [][][3]int
	if !fw.tr.try("Filter", func() {
		switch kind {
		case "low":
			recast.FilterLowHangingWalkableObstacles(fw.ctx, int32(climb), fw.hf)
		case "ledge":
			recast.FilterLedgeSpans(fw.ctx, int32(height), int32(climb), fw.hf)
		case "ceiling":
			recast.FilterWalkableLowHeightSpans(fw.ctx, int32(height), fw.hf)
		}
		show = shown(fw.ctx, fw.hf)
	}) {
		return false
	}
	fw.tr.Emit("Filter", M{"kind": kind, "height": height, "climb": climb, "show": show})
	return true
}

func (fw *fworld) compact(height, climb int) bool {
	var e M
	if !fw.tr.try("BuildCompactHeightfield", func() {
		fw.chf = &recast.CompactHeightfield{}
		if fw.r.p(30) { // used before
			recast.BuildCompactHeightfield(fw.ctx, 1, 100, fw.hf, fw.chf)
			fw.chf.MaxRegions = 5
		}
		fw.ctx.ResetLog()
		recast.BuildCompactHeightfield(fw.ctx, int32(height), int32(climb), fw.hf, fw.chf)
		c := fw.chf
		errs := false
		for i := 0; i < fw.ctx.LogCount(); i++ {
			errs = errs || strings.HasPrefix(fw.ctx.LogText(int32(i)), "ERR")
		}
		want := fw.f.rows + height
		same := c.Cs == fw.f.cs && c.Ch == fw.f.ch && c.MaxRegions == 0 && c.BMin == fw.hf.BMin && c.BMax[0] == fw.hf.BMax[0] &&
			c.BMax[2] == fw.hf.BMax[2] && c.BMax[1] == fw.f.pt(0, want*fw.f.q, 0)[1]
		var index []int
		cells := make([][][7]int, len(c.Cells))
		for i, cell := range c.Cells {
			index = append(index, int(cell.Index))
			cells[i] = [][7]int{}
			for k := cell.Index; k < cell.Index+uint32(cell.Count); k++ {
				s := &c.Spans[k]
				x := [7]int{int(s.Y), int(s.H), int(c.Areas[k])}
				for d := int32(0); d < 4; d++ {
					x[3+d] = int(recast.GetCon(s, d))
				}
				same = same && s.Reg == 0
				cells[i] = append(cells[i], x)
			}
		}
		e = M{"w": c.Width, "h": c.Height, "n": c.SpanCount, "height": height, "climb": climb, "wh": c.WalkableHeight, "wc": c.WalkableClimb,
			"same": same && len(c.Spans) == int(c.SpanCount) && len(c.Areas) == int(c.SpanCount), "errors": errs, "cells": cells, "index": index}
	}) {
		return false
	}
	fw.tr.Emit("Compact", e)
	return true
}

// change runs fn on the compact heightfield and reports the areas and whether
// nothing else has changed.
func (fw *fworld) change(what string, fn func()) (areas [][]int, same, ok bool) {
	c := fw.chf
	spans := append([]recast.CompactSpan{}, c.Spans...)
	cells := append([]recast.CompactCell{}, c.Cells...)
	head := *c
	if !fw.tr.try(what, fn) {
		return
	}
	same = len(c.Areas) == len(head.Areas) && len(c.Spans) == len(spans) && c.SpanCount == head.SpanCount && c.BMin == head.BMin && c.BMax == head.BMax &&
		c.Width == head.Width && c.Height == head.Height
	for i := range spans {
		same = same && spans[i] == c.Spans[i]
	}
	areas = make([][]int, len(cells))
	for i, cell := range cells {
		same = same && cell == c.Cells[i]
		areas[i] = []int{}
		for k := cell.Index; k < cell.Index+uint32(cell.Count); k++ {
			areas[i] = append(areas[i], int(c.Areas[k]))
		}
	}
	return areas, same, true
}

func (fw *fworld) erode(radius int) bool {
	done := true
	areas, same, ok := fw.change("ErodeWalkableArea", func() { done = recast.ErodeWalkableArea(fw.ctx, int32(radius), fw.chf) })
	if !ok {
		return false
	}
	fw.tr.Emit("Erode", M{"radius": radius, "areas": areas, "same": same && done})
	return true
}

type volume struct {
	p          []int // x, z in quarters of a cell
	hmin, hmax int   // in quarters of a row
	area       int
}

// hull gives a convex polygon around random points.
func hull(r *rng, n, x0, x1, z0, z1 int) []int {
	type pt struct{ x, z int }
	var ps []pt
	for i := 0; i < n; i++ {
		ps = append(ps, pt{r.in(x0, x1), r.in(z0, z1)})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].x < ps[j].x || ps[i].x == ps[j].x && ps[i].z < ps[j].z })
	half := func(ps []pt) []pt {
		var q []pt
		for _, p := range ps {
			for len(q) >= 2 {
				a, b := q[len(q)-2], q[len(q)-1]
				if (b.x-a.x)*(p.z-a.z)-(p.x-a.x)*(b.z-a.z) > 0 {
					break
				}
				q = q[:len(q)-1]
			}
			q = append(q, p)
		}
		return q[:len(q)-1]
	}
	lo := half(ps)
	for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
		ps[i], ps[j] = ps[j], ps[i]
	}
	q := append(lo, half(ps)...)
	if len(q) > 12 {
		q = q[:12]
	}
	k := 0
	if len(q) > 0 {
		k = r.Intn(len(q))
	}
	back := r.p(50)
	var res []int
	for i := range q {
		p := q[(k+i)%len(q)]
		if back {
			p = q[(k+len(q)-i)%len(q)]
		}
		res = append(res, p.x, p.z)
	}
	return res
}

func (fw *fworld) randVolume() (v volume) {
	r, f := fw.r, fw.f
	for len(v.p) < 6 {
		n := r.in(3, 14)
		switch r.Intn(4) {
		case 0: // mostly outside
			ox, oz := r.in(-3, 3)*f.w*2, r.in(-3, 3)*f.h*2
			v.p = hull(r, n, ox, ox+4*f.w, oz, oz+4*f.h)
		case 1:
			v.p = hull(r, n, -20, 4*f.w+20, -20, 4*f.h+20)
		default:
			v.p = hull(r, n, 0, 4*f.w, 0, 4*f.h)
		}
	}
	// heights around some floor
	var ys []int
	for _, col := range fw.cols {
		for _, s := range col {
			ys = append(ys, 4*s[1])
		}
	}
	y := 0
	if len(ys) > 0 {
		y = ys[r.Intn(len(ys))]
	}
	v.hmin, v.hmax = y-r.in(-2, 12), y+r.in(-2, 12)
	if r.p(30) {
		v.hmin, v.hmax = -40, 4*f.rows+40
	}
	v.area = []int{0, 1, 7, 20, 63}[r.Intn(5)]
	return v
}

func (fw *fworld) worldVerts(v volume) []float32 {
	var res []float32
	for i := 0; i < len(v.p); i += 2 {
		// the heights of the vertices do not matter
		res = append(res, fw.f.pt(v.p[i], fw.r.in(-100, 100), v.p[i+1])...)
	}
	return res
}

func (fw *fworld) mark() bool {
	v := fw.randVolume()
	verts := fw.worldVerts(v)
	hmin, hmax := fw.f.pt(0, v.hmin, 0)[1], fw.f.pt(0, v.hmax, 0)[1]
	areas, same, ok := fw.change("MarkConvexPolyArea", func() {
		if fw.r.p(50) {
			// through an input geometry, as the builders do
			ig := &recast.InputGeom{}
			ig.AddConvexVolume(verts, hmin, hmax, uint8(v.area))
			vols := ig.ConvexVolumes()
			for i := int32(0); i < ig.ConvexVolumesCount(); i++ {
				recast.MarkConvexPolyArea(fw.ctx, vols[i].Verts[:], vols[i].NVerts, vols[i].HMin, vols[i].HMax, uint8(vols[i].Area), fw.chf)
			}
		} else {
			recast.MarkConvexPolyArea(fw.ctx, verts, int32(len(verts)/3), hmin, hmax, uint8(v.area), fw.chf)
		}
	})
	if !ok {
		return false
	}
	fw.tr.Emit("Mark", M{"p": v.p, "hmin": v.hmin, "hmax": v.hmax, "area": v.area, "areas": areas, "same": same})
	return true
}

// randCols makes a landscape: a floor that rises and falls, things on it and
// floors above it.
func randCols(r *rng, w, h, rows, base int) [][]vspan {
	cols := make([][]vspan, w*h)
	step, holes, rough := r.in(0, 3), []int{0, 3, 10, 30}[r.Intn(4)], r.p(30)
	lvl := r.in(1, 6)
	areas := []int{63, 63, 63, 63, 5, 0}
	if r.p(30) {
		areas = []int{63, 0}
	}
	for i := range cols {
		x, z := i%w, i/w
		y := lvl
		switch {
		case rough:
			y = r.in(1, 8)
		case x > 0 && z > 0:
			y = (height(cols[i-1], lvl, base) + height(cols[i-w], lvl, base)) / 2
			y += r.in(-step, step)
		case x > 0:
			y = height(cols[i-1], lvl, base) + r.in(-step, step)
		case z > 0:
			y = height(cols[i-w], lvl, base) + r.in(-step, step)
		}
		if y < 1 {
			y = 1
		}
		var col []vspan
		top := 0
		if !r.p(holes) {
			lo := r.in(imax(0, y-3), y-1)
			col = append(col, vspan{base + lo, base + y, areas[r.Intn(len(areas))]})
			top = y
		}
		for n := []int{0, 0, 1, 1, 2}[r.Intn(5)]; n > 0; n-- {
			lo := top + []int{1, 1, 2, 3, 4, 5, 6, 9}[r.Intn(8)]
			if r.p(1) {
				lo = top + r.in(240, 270)
			}
			hi := lo + r.in(1, 4)
			if base+hi > rows {
				break
			}
			col = append(col, vspan{base + lo, base + hi, areas[r.Intn(len(areas))]})
			top = hi
		}
		cols[i] = col
		if col == nil {
			cols[i] = []vspan{}
		}
	}
	return cols
}

func height(col []vspan, def, base int) int {
	if len(col) == 0 {
		return def
	}
	return imin(col[0][1]-base, 12)
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// plain makes a mostly level landscape with few obstacles, for wide distances.
func plain(r *rng, w, h int) [][]vspan {
	cols := make([][]vspan, w*h)
	holes := []int{0, 1, 2, 5}[r.Intn(4)]
	two := r.p(40)
	cut := r.in(1, w)
	for i := range cols {
		cols[i] = []vspan{}
		x := i % w
		if !r.p(holes) {
			a := 63
			if r.p(holes) {
				a = 0
			}
			cols[i] = append(cols[i], vspan{0, 2 + r.Intn(2), a})
		}
		if two && x >= cut && !r.p(holes) {
			cols[i] = append(cols[i], vspan{9, 10 + r.Intn(2), 63})
		}
	}
	// a ramp from the lower to the upper floor along one row
	if two && cut > 8 && r.p(70) {
		z := r.Intn(h)
		for k := 0; k < 8; k++ {
			i := cut - 1 - k + z*w
			cols[i] = []vspan{{0, 10 - k, 63}}
		}
	}
	return cols
}

func fieldsCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		for _, ln := range schedLines(a) {
			if a.Opt == "shapes" {
				var g [][]int
				if err := json.Unmarshal(ln, &g); err != nil {
					die(err)
				}
				// drawn with a border around, at twice the size, or as it is
				k := r.in(1, 2)
				h, w := len(g)*k, len(g[0])*k
				cols := make([][]vspan, w*h)
				for i := range cols {
					cols[i] = []vspan{{0, 2, 63 * g[i/w/k][i%w/k]}}
				}
				fw := newFWorld(tr, r, w, h, 20, cols)
				if fw == nil || !fw.compact(3, 1) || !fw.erode(r.in(1, 2*k)) {
					return
				}
				continue
			}
			var cols [][]vspan
			if err := json.Unmarshal(ln, &cols); err != nil {
				die(err)
			}
			for i := range cols {
				if cols[i] == nil {
					cols[i] = []vspan{}
				}
			}
			w, h := 2, 1
			if r.p(50) {
				w, h = 1, 2
			}
			fw := newFWorld(tr, r, w, h, 20, cols)
			if fw == nil {
				return
			}
			ok := fw.filter("none", 0, 0)
			if r.p(50) {
				ok = ok && fw.filter("low", 2, 1)
			}
			if r.p(50) {
				ok = ok && fw.filter("ceiling", 2, 1)
			}
			if !ok || !fw.compact(2, 1) {
				return
			}
		}
		return
	}
	if a.Opt == "erode" && a.Shard == 0 {
		bigErode(tr, r)
	}
	for i := 0; i < a.N; i++ {
		rows, base := 40, 0
		if r.p(10) {
			base = []int{1000, 32760, 65000, 65535 - 40}[r.Intn(4)]
		}
		rows = base + 40
		if r.p(5) && base == 0 {
			rows = 400
		}
		var cols [][]vspan
		var w, h int
		many := false
		switch {
		case a.Opt == "erode":
			w, h = r.in(6, 18), r.in(6, 18)
			cols = plain(r, w, h)
		case r.p(4) && a.Opt == "compact":
			// many layers
			many = r.p(70)
			w, h = 2, 1
			rows = 500
			cols = make([][]vspan, 2)
			for k := range cols {
				cols[k] = []vspan{}
				for y := r.in(0, 6); y < 480; y += r.in(5, 7) {
					cols[k] = append(cols[k], vspan{y, y + 1, 63})
				}
			}
			if r.p(50) { // about as many as can be named
				n := r.in(62, 65)
				for k := range cols {
					cols[k] = cols[k][:0]
					for y := 0; y < n; y++ {
						z := 6*y + r.Intn(2)
						cols[k] = append(cols[k], vspan{z, z + 1, 63})
					}
				}
			}
		default:
			w, h = r.in(1, 7), r.in(1, 7)
			cols = randCols(r, w, h, rows, base)
		}
		fw := newFWorld(tr, r, w, h, rows, cols)
		if fw == nil {
			return
		}
		height, climb := r.in(1, 6), r.in(0, 3)
		if r.p(10) {
			climb = r.in(0, 12)
		}
		if many {
			height, climb = r.in(1, 3), r.in(1, 2)
		}
		ok := fw.filter("none", 0, 0)
		if a.Opt != "erode" && !many {
			n := r.in(0, 3)
			if a.Opt == "filter" {
				n = r.in(2, 5)
			}
			for k := 0; ok && k < n; k++ {
				ok = fw.filter([]string{"low", "ledge", "ceiling"}[r.Intn(3)], height, climb)
				if r.p(30) {
					height, climb = r.in(1, 6), r.in(0, 3)
				}
			}
		}
		if a.Opt == "filter" {
			continue
		}
		ok = ok && fw.compact(height, climb)
		switch a.Opt {
		case "erode":
			for k := r.in(1, 3); ok && k > 0; k-- {
				ok = fw.erode(r.in(1, 5))
				if r.p(30) {
					ok = ok && fw.mark()
				}
			}
		case "mark":
			for k := r.in(2, 5); ok && k > 0; k-- {
				ok = fw.mark()
				if r.p(10) {
					ok = ok && fw.erode(1)
				}
			}
		}
	}
}

// bigErode erodes a level field with radii up to the largest.
func bigErode(tr *Trace, r *rng) {
	for _, n := range []int{r.in(3, 60), r.in(250, 270), 515} {
		w, h := n, n+r.in(0, 5)
		tr.Emit("Begin", nil)
		var radii []int
		for _, k := range []int{1, r.in(1, n/4+1), r.in(n/4, n/2+1), n / 2, 126, 127, 128, 254} {
			if k > 0 && k < 255 && k <= n {
				radii = append(radii, k)
			}
		}
		for _, radius := range radii {
			left := make([][3]int, h)
			if !tr.try("ErodeWalkableArea", func() {
				ctx := recast.NewBuildContext(false)
				chf := &recast.CompactHeightfield{}
				hf := recast.NewHeightfield(int32(w), int32(h), []float32{0, 0, 0}, []float32{float32(w), 10, float32(h)}, 1, 1)
				W, H := float32(w), float32(h)
				recast.RasterizeTriangles2(ctx, []float32{0, 1, 0, 0, 1, H, W, 1, H, 0, 1, 0, W, 1, H, W, 1, 0}, []uint8{63, 63}, 2, hf, 1)
				recast.BuildCompactHeightfield(ctx, 3, 1, hf, chf)
				recast.ErodeWalkableArea(ctx, int32(radius), chf)
				for i, c := range chf.Cells {
					x, z := i%w, i/w
					if x == 0 {
						left[z] = [3]int{0, -1, -1}
					}
					for k := c.Index; k < c.Index+uint32(c.Count); k++ {
						if chf.Areas[k] != 0 {
							if left[z][0] == 0 {
								left[z][1] = x
							}
							left[z][0]++
							left[z][2] = x
						}
					}
				}
			}) {
				return
			}
			tr.Emit("BigErode", M{"w": w, "h": h, "radius": radius, "left": left})
		}
	}
}

// volumesCmd adds and deletes convex volumes.
func volumesCmd(tr *Trace, r *rng, a *Args) {
	for i := 0; i < a.N; i++ {
		tr.Emit("Begin", nil)
		ig := &recast.InputGeom{}
		adds := 70
		ops := 40
		if i == 0 && a.Shard == 0 {
			adds, ops = 97, 300
		}
		for k := 0; k < ops; k++ {
			e := M{}
			ok := true
			switch {
			case r.p(2):
				e["op"] = "load"
				ok = tr.try("LoadOBJMesh", func() {
					ig.LoadOBJMesh(strings.NewReader("v 0 0 0\nv 0 0 1\nv 1 0 0\nf 1 2 3\n"))
				})
			case r.p(adds):
				n := r.in(3, 12)
				if r.p(3) {
					n = 13
				}
				var verts []float32
				p := []int{}
				for j := 0; j < 3*n; j++ {
					p = append(p, r.in(-99, 99))
					verts = append(verts, float32(p[j]))
				}
				lo, hi, area := r.in(-9, 9), r.in(0, 20), r.Intn(64)
				e["op"], e["v"] = "add", M{"p": p, "lo": lo, "hi": hi, "area": area}
				ok = tr.try("AddConvexVolume", func() { ig.AddConvexVolume(verts, float32(lo), float32(hi), uint8(area)) })
				for j := range verts { // stored, not shared
					verts[j] = float32(math.NaN())
				}
			default:
				n := int(ig.ConvexVolumesCount())
				if n == 0 {
					continue
				}
				j := r.Intn(n)
				e["op"], e["i"] = "del", j+1
				ok = tr.try("DeleteConvexVolume", func() { ig.DeleteConvexVolume(j) })
			}
			if !ok {
				return
			}
			vols := []M{}
			if !tr.try("ConvexVolumes", func() {
				for _, v := range ig.ConvexVolumes()[:ig.ConvexVolumesCount()] {
					p := []int{}
					for j := 0; j < int(v.NVerts)*3; j++ {
						p = append(p, int(v.Verts[j]))
					}
					vols = append(vols, M{"p": p, "lo": int(v.HMin), "hi": int(v.HMax), "area": v.Area})
				}
			}) {
				return
			}
			e["vols"] = vols
			tr.Emit("Volumes", e)
		}
	}
}
