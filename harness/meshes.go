package main

import (
	"encoding/json"
	"math"

	"github.com/arl/go-detour/recast"
)

// C29: contours, C30: polygon meshes, C31: detail meshes.

func init() { cmds["meshes"] = meshesCmd }

func quads32(v []int32, n int32) [][4]int {
	q := make([][4]int, n)
	for i := range q {
		for j := 0; j < 4; j++ {
			q[i][j] = int(v[i*4+j])
		}
	}
	return q
}

// contours builds the contours of the regions and records them.
func contours(tr *Trace, ctx *recast.BuildContext, chf *recast.CompactHeightfield, err4, maxEdge, flags int) (*recast.ContourSet, bool) {
	before, regs := chfCells(chf), chfRegs(chf)
	cset := &recast.ContourSet{}
	good := false
	if !tr.try("BuildContours", func() {
		good = recast.BuildContours(ctx, chf, float32(err4)/4, int32(maxEdge), cset, int32(flags))
	}) {
		return nil, false
	}
	conts := []M{}
	for i := int32(0); i < cset.NConts; i++ {
		c := &cset.Conts[i]
		conts = append(conts, M{"reg": int(c.Reg), "area": int(c.Area), "v": quads32(c.Verts, c.NVerts), "raw": quads32(c.RVerts, c.NRVerts)})
	}
	after, aregs := chfCells(chf), chfRegs(chf)
	same := true
	for i := range before {
		for k := range before[i] {
			same = same && before[i][k] == after[i][k] && regs[i][k] == aregs[i][k]
		}
	}
	b := float32(chf.BorderSize)
	head := cset.Cs == chf.Cs && cset.Ch == chf.Ch && cset.MaxError == float32(err4)/4 &&
		cset.BMin == [3]float32{chf.BMin[0] + b*chf.Cs, chf.BMin[1], chf.BMin[2] + b*chf.Cs} &&
		cset.BMax == [3]float32{chf.BMax[0] - b*chf.Cs, chf.BMax[1], chf.BMax[2] - b*chf.Cs}
	tr.Emit("Contours", M{"err": err4, "edge": maxEdge, "flags": flags, "ok": good, "same": same, "head": head,
		"w": int(cset.Width), "h": int(cset.Height), "border": int(cset.BorderSize), "conts": conts})
	return cset, good
}

// polymesh builds the polygon mesh of contours and records it.
func polymesh(tr *Trace, ctx *recast.BuildContext, cset *recast.ContourSet, nvp int) (*recast.PolyMesh, bool) {
	var pm *recast.PolyMesh
	good := false
	before, _ := json.Marshal(cset)
	if !tr.try("BuildPolyMesh", func() { pm, good = recast.BuildPolyMesh(ctx, cset, int32(nvp)) }) {
		return nil, false
	}
	if !good || pm == nil {
		tr.Emit("Mesh", M{"ok": false})
		return nil, false
	}
	verts, polys, nbs, regs, areas := [][3]int{}, [][]int{}, [][]int{}, []int{}, []int{}
	for i := int32(0); i < pm.NVerts; i++ {
		verts = append(verts, [3]int{int(pm.Verts[i*3]), int(pm.Verts[i*3+1]), int(pm.Verts[i*3+2])})
	}
	rest := true
	for i := int32(0); i < pm.NPolys; i++ {
		p, nb := []int{}, []int{}
		q := pm.Polys[int(i)*nvp*2:]
		for j := 0; j < nvp && q[j] != 0xffff; j++ {
			p, nb = append(p, int(q[j])), append(nb, int(q[nvp+j]))
		}
		for j := len(p); j < nvp; j++ {
			rest = rest && q[j] == 0xffff && q[nvp+j] == 0xffff
		}
		polys, nbs = append(polys, p), append(nbs, nb)
		regs, areas = append(regs, int(pm.Regs[i])), append(areas, int(pm.Areas[i]))
	}
	after, _ := json.Marshal(cset)
	head := pm.BMin == cset.BMin && pm.BMax == cset.BMax && pm.Cs == cset.Cs && pm.Ch == cset.Ch &&
		pm.BorderSize == cset.BorderSize && pm.MaxEdgeError == cset.MaxError && int(pm.Nvp) == nvp && len(pm.Flags) == int(pm.NPolys)
	tr.Emit("Mesh", M{"nvp": nvp, "ok": good, "head": head, "rest": rest, "same": string(before) == string(after), "verts": verts, "polys": polys, "nb": nbs, "regs": regs, "areas": areas})
	return pm, good
}

// detail builds the detail mesh of a polygon mesh and records it; dist and err are in quarters.
func detail(tr *Trace, ctx *recast.BuildContext, pm *recast.PolyMesh, chf *recast.CompactHeightfield, dist, err4 int) (*recast.PolyMeshDetail, bool) {
	var dm *recast.PolyMeshDetail
	good := false
	before, _ := json.Marshal([]interface{}{pm, chfCells(chf), chfRegs(chf)})
	if !tr.try("BuildPolyMeshDetail", func() {
		dm, good = recast.BuildPolyMeshDetail(ctx, pm, chf, float32(dist)/4*pm.Cs, float32(err4)/4*pm.Ch)
	}) {
		return nil, false
	}
	if !good || dm == nil {
		tr.Emit("Detail", M{"ok": false})
		return nil, false
	}
	after, _ := json.Marshal([]interface{}{pm, chfCells(chf), chfRegs(chf)})
	meshes, verts, tris := [][4]int{}, [][3]int{}, [][4]int{}
	for i := int32(0); i < dm.NMeshes; i++ {
		m := dm.Meshes[i*4:]
		meshes = append(meshes, [4]int{int(m[0]), int(m[1]), int(m[2]), int(m[3])})
	}
	at := func(v, o, u float32) int { return int(math.Floor(float64(v-o)/float64(u) + 0.5)) }
	for i := int32(0); i < dm.NVerts; i++ {
		v := dm.Verts[i*3:]
		verts = append(verts, [3]int{at(v[0], pm.BMin[0], pm.Cs/64), at(v[1], pm.BMin[1]+pm.Ch, pm.Ch), at(v[2], pm.BMin[2], pm.Cs/64)})
	}
	for i := int32(0); i < dm.NTris; i++ {
		t := dm.Tris[i*4:]
		tris = append(tris, [4]int{int(t[0]), int(t[1]), int(t[2]), int(t[3])})
	}
	tr.Emit("Detail", M{"dist": dist, "err": err4, "ok": good, "same": string(before) == string(after), "meshes": meshes, "verts": verts, "tris": tris})
	return dm, good
}

func meshesCmd(tr *Trace, r *rng, a *Args) {
	vast := false
	one := func(cols [][]vspan, w, h int) {
		f := plainField(w, h)
		ctx := recast.NewBuildContext(false)
		height, climb := r.in(3, 4), []int{0, 1, 1, 1, 2}[r.Intn(5)]
		if vast {
			climb = 2
		}
		chf, ok := compacted(tr, ctx, f, cols, height, climb)
		if !ok {
			return
		}
		tr.Emit("Begin", M{"w": w, "h": h, "cells": chfCells(chf)})
		border := []int{0, 0, 0, 1, 2, 3}[r.Intn(6)]
		if a.Opt == "tile" {
			border = r.in(1, 3)
		}
		if vast {
			border = 0
		}
		min, merge := []int{0, 1, 2, 4}[r.Intn(4)], []int{0, 1, 4, 10, 30, 400}[r.Intn(6)]
		if !partition(tr, ctx, chf, border, min, merge, true) {
			return
		}
		for n := r.in(1, 3); n > 0; n-- {
			if a.Opt == "detail" {
				n = 1
			}
			err4, edge, flags := []int{0, 0, 0, 1, 4, 5, 6, 8, 12}[r.Intn(9)], []int{0, 0, 1, 2, 5, 12}[r.Intn(6)], r.in(0, 3)
			if vast {
				err4, edge = 8, 0
			}
			cset, ok := contours(tr, ctx, chf, err4, edge, flags)
			if !ok {
				return
			}
			for k := r.in(1, 2); k > 0; k-- {
				nvp := []int{3, 4, 5, 6, 6, 6, 8, 12}[r.Intn(8)]
				pm, ok := polymesh(tr, ctx, cset, nvp)
				if !ok {
					return
				}
				if a.Opt == "detail" {
					dist := []int{0, 2, 3, 4, 4, 6, 8, 8, 12, 24}[r.Intn(10)]
					err4 := []int{0, 0, 1, 2, 4, 4, 8}[r.Intn(7)]
					if vast {
						dist, err4 = []int{2, 2, 3, 4}[r.Intn(4)], 0
					}
					if _, ok := detail(tr, ctx, pm, chf, dist, err4); !ok {
						return
					}
				}
			}
		}
	}
	if a.Sched != "" {
		for _, ln := range schedLines(a) {
			var prof []int
			if json.Unmarshal(ln, &prof) == nil { // heights along a line, with obstacles
				w, h := len(prof), r.in(3, 9)
				if r.p(50) {
					w, h = h, w
				}
				cols := make([][]vspan, w*h)
				for i := range cols {
					k := i % w
					if len(prof) != w || (len(prof) == h && r.p(50)) {
						k = i / w
					}
					cols[i] = []vspan{{0, 3 + prof[k%len(prof)], 1}}
				}
				for n := r.in(0, 3); n > 0; n-- {
					cols[r.Intn(len(cols))][0][2] = 0
				}
				one(cols, w, h)
				continue
			}
			var g [][]int
			if err := json.Unmarshal(ln, &g); err != nil {
				die(err)
			}
			k := r.in(1, 2)
			h, w := len(g)*k, len(g[0])*k
			cols := make([][]vspan, w*h)
			for i := range cols {
				cols[i] = []vspan{{0, 2, g[i/w/k][i%w/k]}}
			}
			one(cols, w, h)
		}
	}
	if a.Opt == "slits" { // hills in rows: steps at one side, inside of a region
		for i := 0; i < a.N; i++ {
			w, h := r.in(8, 14), r.in(8, 24)
			cols := make([][]vspan, w*h)
			for k := range cols {
				cols[k] = []vspan{{0, 3, 1}}
			}
			for z := 1; z < h; z += r.in(2, 3) {
				k := r.in(1, (w-1)/2)
				x := r.in(k, w-1-k)
				for j := -k; j <= k; j++ {
					cols[x+j+z*w][0][1] += k - imax(j, -j)
				}
			}
			one(cols, w, h)
		}
		return
	}
	if a.Opt == "vast" { // one big polygon on rough ground: the limits of detail meshes
		a.Opt = "detail"
		for i := 0; i < a.N; i++ {
			w, h := r.in(17, 22), r.in(17, 22)
			cols := make([][]vspan, w*h)
			u, v, t := r.in(1, 9), r.in(1, 9), r.in(0, 9)
			chance := r.p(40)
			for k := range cols {
				y := (k%w*u + k/w*v + (k%w)*(k/w)*t) % 3
				if chance {
					y = r.in(0, 2)
				}
				cols[k] = []vspan{{0, 3 + y, 1}}
			}
			vast = true
			one(cols, w, h)
			vast = false
		}
		return
	}
	if a.Opt == "tile" { // regions of two areas that touch the border of the tile
		for i := 0; i < a.N; i++ {
			w, h := r.in(9, 14), r.in(9, 14)
			cols := make([][]vspan, w*h)
			at, turn, y := r.in(2, 11), r.p(50), r.in(2, 3)
			for k := range cols {
				ar := 1
				if turn && k%w >= at || !turn && k/w >= at {
					ar = 2
				}
				cols[k] = []vspan{{0, y, ar}}
			}
			for n := r.in(2, 8); n > 0; n-- {
				x, z, u, v := r.Intn(w), r.Intn(h), r.in(1, 2), r.in(1, 3)
				for k := range cols {
					if k%w >= x && k%w < x+u && k/w >= z && k/w < z+v {
						cols[k][0][2] = 0
					}
				}
			}
			one(cols, w, h)
		}
		return
	}
	for i := 0; i < a.N; i++ {
		w, h := r.in(1, 12), r.in(1, 12)
		if r.p(30) {
			w, h = r.in(8, 18), r.in(8, 18)
		}
		if r.p(25) { // two areas with a winding border
			one(winding(r, w, h), w, h)
			continue
		}
		one(landscape(r, w, h), w, h)
	}
}

func winding(r *rng, w, h int) [][]vspan {
	cols := make([][]vspan, w*h)
	turn := r.p(50)
	n, m := h, w
	if turn {
		n, m = w, h
	}
	b, step := r.in(0, m), r.in(1, 3)
	for k := 0; k < n; k++ {
		for j := 0; j < m; j++ {
			i := j + k*w
			if turn {
				i = k + j*w
			}
			ar := 1
			if j < b {
				ar = 2
			}
			cols[i] = []vspan{{0, 3, ar}}
		}
		b = imax(0, imin(m, b+r.in(-step, step)))
	}
	return cols
}
