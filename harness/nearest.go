package main

import (
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

// C10 and part of C19: nearest polygons and closest points.

func init() { cmds["nearest"] = nearestCmd }

// A qworld is a mesh for queries. Positions are in sixteenths of cells along x
// and z and 1/128 cells along y; heights of cells are chU of the latter.
type qworld struct {
	*linkWorld
	chU int
	q   *detour.NavMeshQuery
}

func (w *GWorld) chUnits() int { return int(math.Round(float64(w.Ch) / float64(w.Cs) * 128)) }

func (w *GWorld) qpos(c [3]int) d3.Vec3 {
	return d3.Vec3{w.Orig[0] + float32(c[0])*w.Cs/16, w.Orig[1] + float32(c[1])*w.Cs/128, w.Orig[2] + float32(c[2])*w.Cs/16}
}

// fine gives a position in 1/128 cells.
func (w *GWorld) fine(p d3.Vec3) []int {
	if len(p) < 3 {
		return []int{0, 0, 0}
	}
	o := make([]int, 3)
	for i := range o {
		v := (float64(p[i]) - float64(w.Orig[i])) / float64(w.Cs) * 128
		if math.IsNaN(v) || math.Abs(v) > 1e6 {
			o[i] = 99999999
			continue
		}
		o[i] = int(math.Round(v))
	}
	return o
}

// centre is the extra detail vertex of polygon k: x and z in sixteenths, y in
// 1/128 cells.
func (w *GWorld) centre(t *GTile, k int) (m [3]int) {
	q := t.Polys[k]
	for _, v := range q.V {
		p := t.Verts[v]
		m[0] += 16 * (t.X*w.N + p[0])
		m[1] += w.chUnits() * p[1]
		m[2] += 16 * (t.Y*w.N + p[2])
	}
	for i := range m {
		m[i] = int(math.Round(float64(m[i]) / float64(len(q.V))))
	}
	m[1] += t.DetailY[k] * w.chUnits()
	return m
}

// tris lists the detail triangles of a tile's polygons: corners <<x, y, z>>
// with x and z in sixteenths, y in 1/128 cells.
func (w *GWorld) tris(t *GTile) [][][3][3]int {
	ch := w.chUnits()
	res := [][][3][3]int{}
	for k, q := range t.Polys {
		var c [][3]int
		for _, v := range q.V {
			p := t.Verts[v]
			c = append(c, [3]int{16 * (t.X*w.N + p[0]), ch * p[1], 16 * (t.Y*w.N + p[2])})
		}
		n := len(c)
		out := [][3][3]int{}
		if t.Detail == 2 {
			m := w.centre(t, k)
			for e := 0; e < n; e++ {
				out = append(out, [3][3]int{c[e], c[(e+1)%n], m})
			}
		} else {
			for e := 2; e < n; e++ {
				out = append(out, [3][3]int{c[0], c[e-1], c[e]})
			}
		}
		res = append(res, out)
	}
	return res
}

// qdesc describes a tile with its surface.
func (w *GWorld) qdesc(t *GTile) M {
	d := w.desc(t)
	tr := w.tris(t)
	for k, p := range d["polys"].([]M) {
		p["tris"] = tr[k]
	}
	ch := w.chUnits()
	d["ymin"], d["ymax"] = ch*t.BMinY, ch*t.BMaxY
	return d
}

// newQWorld compiles the tiles of w and makes an empty mesh for them.
func newQWorld(tr *Trace, r *rng, w *GWorld, extra M) *qworld {
	lw := &linkWorld{tr: tr, r: r, w: w, m: &detour.NavMesh{}, byID: map[uint32]int{}}
	descs := []M{}
	if !tr.try("CreateNavMeshData", func() {
		for k, t := range w.Tiles {
			t.User = uint32(1000 + k)
			lw.byID[t.User] = k
			d, err := mkData(w, t)
			if err != nil {
				panic(err)
			}
			lw.data = append(lw.data, d)
			descs = append(descs, w.qdesc(t))
		}
	}) {
		return nil
	}
	lw.refs = make([]detour.TileRef, len(w.Tiles))
	lw.old = make([]detour.TileRef, len(w.Tiles))
	m := M{"tiles": descs, "N": w.N, "ch": w.chUnits(), "climb": w.Climb10 * w.chUnits() / 10, "climb10": w.Climb10}
	for k, v := range extra {
		m[k] = v
	}
	tr.Emit("Begin", m)
	if st := lw.m.Init(w.navParams()); detour.StatusFailed(st) {
		tr.Emit("Setup", M{"op": "Init"})
		return nil
	}
	qw := &qworld{linkWorld: lw, chU: w.chUnits()}
	return qw
}

func (qw *qworld) newQuery(nodes int32) bool {
	var st detour.Status
	if !qw.tr.try("NewNavMeshQuery", func() { st, qw.q = detour.NewNavMeshQuery(qw.m, nodes) }) {
		return false
	}
	if detour.StatusFailed(st) {
		qw.tr.Emit("Setup", M{"op": "NewNavMeshQuery"})
		return false
	}
	return true
}

// poly gives the reference of polygon p (0-based) of tile k (0-based).
func (qw *qworld) poly(k, p int) detour.PolyRef {
	t := qw.m.TileByRef(qw.refs[k])
	if t == nil {
		return 0
	}
	return detour.PolyRef(qw.refs[k]) | detour.PolyRef(p)
}

func stName(st detour.Status) string {
	switch {
	case detour.StatusFailed(st):
		return "failed"
	case detour.StatusInProgress(st):
		return "progress"
	case detour.StatusSucceed(st):
		return "ok"
	}
	return "none"
}

// somewhere picks a position on or around the mesh.
func (qw *qworld) somewhere(r *rng) [3]int {
	w := qw.w
	t := w.Tiles[r.Intn(len(w.Tiles))]
	var c [3]int
	if r.p(75) {
		p := t.Polys[r.Intn(len(t.Polys))]
		// a random mix of corners
		s := 0
		for _, v := range p.V {
			k := r.in(0, 3)
			s += k
			x := t.Verts[v]
			c[0] += k * 16 * (t.X*w.N + x[0])
			c[1] += k * qw.chU * x[1]
			c[2] += k * 16 * (t.Y*w.N + x[2])
		}
		if s == 0 {
			return qw.somewhere(r)
		}
		for i := range c {
			c[i] /= s
		}
		if r.p(50) {
			c[0] += r.in(-48, 48)
			c[2] += r.in(-48, 48)
		}
		if r.p(60) {
			c[1] += r.in(-4*qw.chU, 4*qw.chU)
		}
	} else {
		c = [3]int{16*t.X*w.N + r.in(-16*w.N, 32*w.N), r.in(t.BMinY-3, t.BMaxY+3) * qw.chU, 16*t.Y*w.N + r.in(-16*w.N, 32*w.N)}
	}
	return c
}

func queryWorld(r *rng, o genOpt, pos [][3]int) *GWorld {
	w := &GWorld{Cs: []float32{0.25, 0.5, 1, 0.3, 2}[r.Intn(5)],
		Orig: [3]float32{float32(r.in(-64, 64)), float32(r.in(-8, 8)), float32(r.in(-64, 64))},
		N:    16, Climb10: []int{13, 18, 28}[r.Intn(3)], MaxTiles: 16, MaxPolys: 128, ConnRadius: 1}
	w.Ch = w.Cs / []float32{1, 2, 4}[r.Intn(3)]
	for _, p := range pos {
		oo := o
		oo.BaseY = o.BaseY + r.in(0, 1) + p[2]*r.in(6, 12)
		t := genTile(r, w, p[0], p[1], p[2], oo)
		t.BV = r.p(60)
		t.Detail = r.in(0, 2)
	}
	return w
}

func tilePositions(r *rng, max, span, layerPct int) [][3]int {
	var pos [][3]int
	seen := map[[3]int]bool{}
	for n := r.in(1, max); len(pos) < n; {
		p := [3]int{r.in(-span, span), r.in(-span, span), 0}
		if r.p(layerPct) {
			p[2] = 1
		}
		if !seen[p] {
			seen[p] = true
			pos = append(pos, p)
		}
	}
	return pos
}

func (qw *qworld) filter(r *rng) (*detour.StandardQueryFilter, int, int) {
	f := detour.NewStandardQueryFilter()
	inc, exc := 0xffff, 0
	if r.p(40) {
		inc = []int{1, 2, 3, 6, 0x10, 0x8000, 0xffff, 0}[r.Intn(8)]
		exc = []int{0, 0, 1, 4, 8, 0x8000}[r.Intn(6)]
		f.SetIncludeFlags(uint16(inc))
		f.SetExcludeFlags(uint16(exc))
	}
	return f, inc, exc
}

func nearestCmd(tr *Trace, r *rng, a *Args) {
	for i := 0; i < a.N; i++ {
		o := genOpt{MinGap: 3, MaxGap: 8, HolePct: r.in(0, 50), DominoPct: 15, TriPct: 30, WallPct: 10, BaseY: 6,
			MaxH: []int{0, 2, 4, 8}[r.Intn(4)], FlagSet: []int{1, 1, 2, 3, 4, 5, 0, 0x10, 0x8000, 0xffff}, AreaMax: 5}
		if r.p(30) {
			o.Jitter, o.MinGap, o.MaxGap = true, 4, 8
		}
		nt := 6
		if r.p(15) { // more polygons than are processed at once
			o.Jitter, o.MinGap, o.MaxGap, o.HolePct, nt = false, 2, 3, 10, 2
		}
		pos := tilePositions(r, nt, 1, 25)
		if r.p(20) { // many layers
			pos = pos[:1]
			pos[0][2] = 0
			for l := r.in(2, 12); l > 0; l-- {
				pos = append(pos, [3]int{pos[0][0] + r.Intn(2)*r.Intn(2), pos[0][1], len(pos)})
			}
			o.MinGap, o.MaxGap, o.HolePct = 4, 16, 0
		}
		qw := newQWorld(tr, r, queryWorld(r, o, pos), nil)
		if qw == nil {
			return
		}
		if !qw.newQuery(64) {
			return
		}
		ok := true
		for k := range qw.w.Tiles {
			if r.p(85) {
				ok = ok && qw.add(k, false)
			}
		}
		for j := 0; ok && j < 60; j++ {
			switch {
			case r.p(3):
				k := r.Intn(len(qw.w.Tiles))
				if qw.refs[k] != 0 {
					ok = qw.remove(k)
				} else {
					ok = qw.add(k, r.p(50))
				}
			case r.p(5):
				ok = qw.setFlags(r)
			case r.p(25):
				ok = qw.closest(r)
			default:
				ok = qw.nearest(r)
			}
		}
	}
	if a.Shard == 0 && a.Opt == "" {
		inTile(tr, newRng(1, "intile"))
	}
}

func (qw *qworld) somePoly(r *rng) (k, p int, ref detour.PolyRef) {
	for try := 0; try < 20; try++ {
		k = r.Intn(len(qw.w.Tiles))
		if qw.refs[k] != 0 {
			p = r.Intn(len(qw.w.Tiles[k].Polys))
			return k, p, qw.poly(k, p)
		}
	}
	return -1, -1, 0
}

func (qw *qworld) setFlags(r *rng) bool {
	k, p, ref := qw.somePoly(r)
	if k < 0 {
		return true
	}
	f := []int{0, 1, 2, 4, 0x8001, 0xffff}[r.Intn(6)]
	var t *detour.MeshTile
	var q *detour.Poly
	if detour.StatusFailed(qw.m.TileAndPolyByRef(ref, &t, &q)) {
		qw.tr.Emit("Setup", M{"op": "TileAndPolyByRef"})
		return false
	}
	q.Flags = uint16(f)
	qw.tr.Emit("SetFlags", M{"p": [2]int{k + 1, p + 1}, "f": f})
	return true
}

func (qw *qworld) nearest(r *rng) bool {
	c := qw.somewhere(r)
	ext := [3]int{r.in(0, 8), r.in(0, 8), r.in(0, 8)}
	sc := []int{16, 64, 128, 512}[r.Intn(4)]
	for i := range ext {
		ext[i] = ext[i]*sc + 3
	}
	if r.p(35) { // a small box at a corner of a polygon
		t := qw.w.Tiles[r.Intn(len(qw.w.Tiles))]
		p := t.Polys[r.Intn(len(t.Polys))]
		for i := 0; i < 4 && len(p.V) < 5; i++ {
			p = t.Polys[r.Intn(len(t.Polys))]
		}
		v := t.Verts[p.V[r.Intn(len(p.V))]]
		c = [3]int{16*(t.X*qw.w.N+v[0]) + r.in(-6, 6), qw.chU*v[1] + r.in(-9, 9), 16*(t.Y*qw.w.N+v[2]) + r.in(-6, 6)}
		for i := range ext {
			ext[i] = r.in(3, 60)
		}
	}
	f, inc, exc := qw.filter(r)
	var st detour.Status
	var ref detour.PolyRef
	var pt d3.Vec3
	cp := qw.w.qpos(c)
	ex := d3.Vec3{float32(ext[0]) * qw.w.Cs / 128, float32(ext[1]) * qw.w.Cs / 128, float32(ext[2]) * qw.w.Cs / 128}
	if !qw.tr.try("FindNearestPoly", func() { st, ref, pt = qw.q.FindNearestPoly(cp, ex, f) }) {
		return false
	}
	k, p := -1, -1
	if ref == 0 {
		k, p = 0, 0
	} else if kk, pp := qw.resolve(ref); kk > 0 {
		k, p = kk, pp
	}
	qw.tr.Emit("Nearest", M{"c": c, "ext": ext, "inc": inc, "exc": exc, "st": stName(st), "ref": [2]int{k, p}, "pt": qw.w.fine(pt)})
	return true
}

func (qw *qworld) closest(r *rng) bool {
	k, p, ref := qw.somePoly(r)
	if k < 0 {
		return true
	}
	c := qw.somewhere(r)
	if r.p(60) {
		t := qw.w.Tiles[k]
		v := t.Verts[t.Polys[p].V[r.Intn(len(t.Polys[p].V))]]
		c = [3]int{16*(t.X*qw.w.N+v[0]) + r.in(-80, 80), qw.chU * v[1], 16*(t.Y*qw.w.N+v[2]) + r.in(-80, 80)}
	}
	cp := qw.w.qpos(c)
	pt := d3.NewVec3()
	var st detour.Status
	over := false
	if r.p(60) {
		if !qw.tr.try("ClosestPointOnPoly", func() { st = qw.q.ClosestPointOnPoly(ref, cp, pt, &over) }) {
			return false
		}
		qw.tr.Emit("Closest", M{"p": [2]int{k + 1, p + 1}, "c": c, "st": stName(st), "pt": qw.w.fine(pt), "over": over})
		return true
	}
	if !qw.tr.try("ClosestPointOnPolyBoundary", func() { st = qw.q.ClosestPointOnPolyBoundary(ref, cp, pt) }) {
		return false
	}
	qw.tr.Emit("Boundary", M{"p": [2]int{k + 1, p + 1}, "c": c, "st": stName(st), "pt": qw.w.fine(pt)})
	return true
}

// inTile asks NavMesh.FindNearestPolyInTile, which is known to ignore one of
// the polygons it finds, for one fixed position.
func inTile(tr *Trace, r *rng) {
	w := &GWorld{Cs: 1, Ch: 1, N: 16, Climb10: 18, MaxTiles: 4, MaxPolys: 16, ConnRadius: 1}
	t := &GTile{X: 0, Y: 0, User: 1000, Verts: [][3]int{{2, 4, 2}, {2, 4, 6}, {6, 4, 6}, {6, 4, 2}},
		Polys: []GPoly{{V: []int{0, 1, 2, 3}, Nei: []int{-1, -1, -1, -1}, Flags: 1}}, BV: true, BMaxY: 12, DetailY: []int{0}}
	w.Tiles = []*GTile{t}
	qw := newQWorld(tr, r, w, nil)
	if qw == nil || !qw.newQuery(64) || !qw.add(0, false) {
		return
	}
	c := [3]int{64, 512, 64}
	ext := [3]int{128, 128, 128}
	var ref detour.PolyRef
	pt := d3.NewVec3()
	msg := tr.guard("FindNearestPolyInTile", func() {
		ref = qw.m.FindNearestPolyInTile(qw.m.TileByRef(qw.refs[0]), qw.w.qpos(c), d3.Vec3{1, 1, 1}, pt)
	})
	k, p := 0, 0
	if ref != 0 {
		k, p = qw.resolve(ref)
	}
	st := "ok"
	if msg != "" {
		st = "panic"
	}
	tr.Emit("Nearest", M{"case": "FindNearestPolyInTile", "c": c, "ext": ext, "inc": 0xffff, "exc": 0, "st": st, "ref": [2]int{k, p}, "pt": qw.w.fine(pt)})
}
