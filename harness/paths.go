package main

import (
	"bufio"
	"encoding/json"
	"math"
	"os"
	"sort"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

// C11-C15, C19: path searches.

func init() { cmds["paths"] = pathsCmd }

// A pworld is a mesh for path searches. Every polygon reference ever seen has
// a number and a weight.
type pworld struct {
	*qworld
	ids    map[detour.PolyRef]int
	refOf  []detour.PolyRef // by number
	weight map[detour.PolyRef]int
	cur    []node1 // polygons now in the mesh
	edges  [][2]int
	shapes bool // record the corners of polygons
	busy   bool // a sliced search is in progress
	flat   bool // one layer: rays cannot change to another floor
}

type node1 struct {
	id, k, p int
	ref      detour.PolyRef
	f, area  int
	off      bool
}

// A costFilter has costs that depend only on the polygon.
type costFilter struct {
	inc, exc uint16
	w        map[detour.PolyRef]int
	ids      map[detour.PolyRef]int // if costs depend on the polygon that is entered as well
}

// factor of the cost of a polygon when leaving it for another one
func factor(x, y int) int { return 1 + (31*x+17*y+(x*y)%7)%5 }

func (f *costFilter) PassFilter(ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	return poly.Flags&f.inc != 0 && poly.Flags&f.exc == 0
}

func (f *costFilter) Cost(pa, pb d3.Vec3, prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly,
	curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly,
	nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	if f.ids != nil && nextRef != 0 {
		return float32(f.w[curRef] * factor(f.ids[curRef], f.ids[nextRef]))
	}
	return float32(f.w[curRef])
}

func polyVerts(t *detour.MeshTile, p *detour.Poly) []d3.Vec3 {
	var vs []d3.Vec3
	n := int(p.VertCount)
	for i := 0; i < n && i < len(p.Verts); i++ {
		j := 3 * int(p.Verts[i])
		vs = append(vs, d3.Vec3{t.Verts[j], t.Verts[j+1], t.Verts[j+2]})
	}
	return vs
}

// corners gives the corners of a polygon, in 1/128 cells, if they are wanted.
func (pw *pworld) corners(t *detour.MeshTile, p *detour.Poly) [][]int {
	res := [][]int{}
	if pw.shapes {
		for _, v := range polyVerts(t, p) {
			res = append(res, pw.w.fine(v))
		}
	}
	return res
}

// graph emits the polygons and connections of the mesh.
func (pw *pworld) graph() bool {
	w := pw.w
	var e M
	if !pw.tr.try("graph", func() {
		pw.cur, pw.edges = nil, nil
		ns := []M{}
		type where struct {
			t *detour.MeshTile
			p *detour.Poly
			i int
		}
		at := map[detour.PolyRef]where{}
		for i := range pw.m.Tiles {
			t := &pw.m.Tiles[i]
			if t.Header == nil {
				continue
			}
			k := pw.byID[t.Header.UserID]
			for p := range t.Polys {
				q := &t.Polys[p]
				ref := detour.PolyRef(pw.m.TileRef(t)) | detour.PolyRef(p)
				id, ok := pw.ids[ref]
				if !ok {
					id = len(pw.refOf)
					pw.ids[ref] = id
					pw.refOf = append(pw.refOf, ref)
				}
				if _, ok := pw.weight[ref]; !ok {
					d := 0.0
					vs := polyVerts(t, q)
					for a := range vs {
						for b := range vs {
							d = math.Max(d, float64(vs[a].Dist(vs[b])))
						}
					}
					d += 2*float64(w.climb()) + 1 + 8*float64(w.Cs)
					pw.weight[ref] = int(math.Ceil(d)) * []int{1, 1, 2, 3, 5}[pw.r.Intn(5)]
				}
				at[ref] = where{t, q, p}
				off := q.Type() == 1
				pw.cur = append(pw.cur, node1{id: id, k: k, p: p, ref: ref, f: int(q.Flags), area: int(q.Area()), off: off})
				ns = append(ns, M{"id": id, "f": int(q.Flags), "a": int(q.Area()), "w": pw.weight[ref], "off": off, "k": k + 1, "v": pw.corners(t, q)})
			}
		}
		es := [][]int{}
		for ref, x := range at {
			ls, _ := linksOf(x.t, x.i)
			for _, l := range ls {
				y, ok := at[l.Ref]
				if !ok {
					continue
				}
				v := polyVerts(x.t, x.p)
				var a, b d3.Vec3
				b0, b1 := 0, 255
				switch {
				case x.p.Type() == 1:
					a = v[l.E]
					b = a
				case y.p.Type() == 1:
					ms, _ := linksOf(y.t, y.i)
					for _, m := range ms {
						if m.Ref == ref {
							a = polyVerts(y.t, y.p)[m.E]
							break
						}
					}
					if a == nil {
						continue // one way, the other way round
					}
					b = a
				default:
					a, b = v[l.E], v[(l.E+1)%len(v)]
					if l.S != 0xff {
						b0, b1 = l.B0, l.B1
					}
				}
				fa, fb := w.fine(a), w.fine(b)
				es = append(es, []int{pw.ids[ref], pw.ids[l.Ref], fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], b0, b1, l.E + 1})
				pw.edges = append(pw.edges, [2]int{pw.ids[ref], pw.ids[l.Ref]})
			}
		}
		sort.Slice(es, func(i, j int) bool {
			for k := range es[i] {
				if es[i][k] != es[j][k] {
					return es[i][k] < es[j][k]
				}
			}
			return false
		})
		e = M{"n": ns, "e": es}
	}) {
		return false
	}
	pw.tr.Emit("Graph", e)
	return true
}

func (pw *pworld) pids(path []detour.PolyRef) []int {
	res := []int{}
	for _, p := range path {
		id, ok := pw.ids[p]
		if !ok {
			id = 0
		}
		res = append(res, id)
	}
	return res
}

func flagsOf(st detour.Status) M {
	return M{"st": stName(st), "part": hasDetail(st, detour.PartialResult), "short": hasDetail(st, detour.BufferTooSmall),
		"oon": hasDetail(st, detour.OutOfNodes), "inv": hasDetail(st, detour.InvalidParam)}
}

type pquery struct {
	from, to node1
	sp, ep   [3]int // positions
	inc, exc int
	filter   detour.QueryFilter
	weighted bool
	pair     bool
	opt      uint32
}

// inside gives a position inside a polygon.
func (pw *pworld) inside(r *rng, n node1) [3]int {
	var t *detour.MeshTile
	var p *detour.Poly
	if detour.StatusFailed(pw.m.TileAndPolyByRef(n.ref, &t, &p)) {
		return [3]int{}
	}
	var c [3]float64
	s := 0.0
	for _, v := range polyVerts(t, p) {
		k := float64(r.in(0, 3))
		s += k
		for i := range c {
			c[i] += k * float64(v[i])
		}
	}
	if s == 0 {
		return pw.inside(r, n)
	}
	f := pw.w.fine(d3.Vec3{float32(c[0] / s), float32(c[1] / s), float32(c[2] / s)})
	return [3]int{int(math.Round(float64(f[0]) / 8)), f[1], int(math.Round(float64(f[2]) / 8))}
}

func (pw *pworld) pickPoly(r *rng, offPct int) (node1, bool) {
	for try := 0; try < 50 && len(pw.cur) > 0; try++ {
		n := pw.cur[r.Intn(len(pw.cur))]
		if !n.off || r.p(offPct) {
			return n, true
		}
	}
	return node1{}, false
}

func (pw *pworld) query1(r *rng, weighted bool) (q pquery, ok bool) {
	if q.from, ok = pw.pickPoly(r, 10); !ok {
		return
	}
	if q.to, ok = pw.pickPoly(r, 10); !ok {
		return
	}
	q.sp, q.ep = pw.inside(r, q.from), pw.inside(r, q.to)
	f, inc, exc := pw.filter(r)
	q.inc, q.exc = inc, exc
	if r.p(30) {
		for k := 0; k < 6; k++ {
			f.SetAreaCost(int32(k), float32(r.in(1, 6)))
		}
	}
	q.filter = f
	if weighted {
		q.weighted = true
		c := &costFilter{uint16(inc), uint16(exc), pw.weight, nil}
		if r.p(60) {
			c.ids, q.pair = pw.ids, true
		}
		q.filter = c
	}
	return q, true
}

func (pw *pworld) args(q pquery) M {
	m := M{"from": q.from.id, "to": q.to.id, "inc": q.inc, "exc": q.exc,
		"sp": [3]int{8 * q.sp[0], q.sp[1], 8 * q.sp[2]}, "ep": [3]int{8 * q.ep[0], q.ep[1], 8 * q.ep[2]}, "w": q.weighted, "pair": q.pair, "opt": int(q.opt)}
	return m
}

// dists gives cheapest costs from the start to all polygons, without the
// polygon itself: a certificate.
func (pw *pworld) dists(q pquery) [][2]int {
	fl := map[int]int{}
	for _, n := range pw.cur {
		fl[n.id] = n.f
	}
	adj := map[int][]int{}
	for _, e := range pw.edges {
		if fl[e[1]]&q.inc != 0 && fl[e[1]]&q.exc == 0 {
			adj[e[0]] = append(adj[e[0]], e[1])
		}
	}
	d := map[int]int{q.from.id: 0}
	todo := []int{q.from.id}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for _, y := range adj[x] {
			c := pw.weight[pw.refOf[x]]
			if q.pair {
				c *= factor(x, y)
			}
			c += d[x]
			if o, ok := d[y]; !ok || c < o {
				d[y] = c
				todo = append(todo, y)
			}
		}
	}
	res := [][2]int{}
	for id, c := range d {
		res = append(res, [2]int{id, c})
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

const sentinel = detour.PolyRef(0xfffffffd)

// result describes a path of n polygons in a buffer of cap polygons.
func (pw *pworld) result(buf []detour.PolyRef, cp, n int, st detour.Status) M {
	m := flagsOf(st)
	clean := true
	for _, x := range buf[cp:] {
		clean = clean && x == sentinel
	}
	m["clean"] = clean
	m["n"] = n
	if n < 0 || n > cp {
		n = 0
	}
	m["path"] = pw.pids(buf[:n])
	m["cap"] = cp
	return m
}

func buffer(cp int) []detour.PolyRef {
	b := make([]detour.PolyRef, cp+4)
	for i := range b {
		b[i] = sentinel
	}
	return b
}

// find runs FindPath with a buffer of cp polygons.
func (pw *pworld) find(nq *detour.NavMeshQuery, q pquery, cp int) (M, bool) {
	b := buffer(cp)
	var n int
	var st detour.Status
	sp, ep := pw.w.qpos(q.sp), pw.w.qpos(q.ep)
	if !pw.tr.try("FindPath", func() { n, st = nq.FindPath(q.from.ref, q.to.ref, sp, ep, q.filter, b[:cp]) }) {
		return nil, false
	}
	m := pw.result(b, cp, n, st)
	m["total"] = -1
	return m, true
}

// sliced runs a sliced search in one call; maxPath is the result space.
func (pw *pworld) sliced(nq *detour.NavMeshQuery, q pquery, cp int) (M, bool) {
	b := buffer(cp)
	var n, total int
	var st detour.Status
	sp, ep := pw.w.qpos(q.sp), pw.w.qpos(q.ep)
	if !pw.tr.try("sliced path search", func() {
		st = nq.InitSlicedFindPath(q.from.ref, q.to.ref, sp, ep, q.filter, q.opt)
		if detour.StatusInProgress(st) {
			st = nq.UpdateSlicedFindPath(1<<30, &total)
		}
		if pw.r.p(50) {
			n, st = nq.FinalizeSlicedFindPath(b[:cp], cp)
		} else { // the slice may be longer than what is to be used
			n, st = nq.FinalizeSlicedFindPath(b, cp)
		}
	}) {
		return nil, false
	}
	m := pw.result(b, cp, n, st)
	m["total"] = total
	return m, true
}

func (pw *pworld) emitPath(how string, q pquery, full, short M, nodes int) {
	m := pw.args(q)
	m["how"] = how
	m["full"] = full
	if short != nil {
		m["res"] = short
	}
	m["nodes"] = nodes
	if q.weighted {
		m["d"] = pw.dists(q)
	}
	pw.tr.Emit("Path", m)
}

// path runs a query with ample space, and with little space if cp > 0.
func (pw *pworld) path(r *rng, nq *detour.NavMeshQuery, nodes int, q pquery, limit bool) bool {
	how := "find"
	run := pw.find
	if r.p(40) && !q.pair { // a sliced search never goes back to a polygon next to the parent
		how, run = "sliced", pw.sliced
	}
	full, ok := run(nq, q, 600)
	if !ok {
		return false
	}
	if limit { // how many nodes the search takes when there are enough
		keep := pw.q
		many, ok := pw.mkQuery(4*len(pw.cur) + 600)
		if !ok {
			return false
		}
		m, ok := run(many, q, 600)
		if !ok {
			return false
		}
		full["need"], full["ample"] = int(many.NodePool().NodeCount()), m["path"]
		pw.q = keep
	}
	var short M
	if limit {
		n := len(full["path"].([]int))
		cp := r.in(1, n+1)
		if r.p(20) {
			cp = n
		}
		if cp < 1 {
			cp = 1
		}
		if short, ok = run(nq, q, cp); !ok {
			return false
		}
	}
	pw.emitPath(how, q, full, short, nodes)
	return true
}

func pathWorld(r *rng, o genOpt, maxTiles, span, layers, noff int) *GWorld {
	w := queryWorld(r, o, tilePositions(r, maxTiles, span, layers))
	w.MaxPolys = 256
	if noff > 0 {
		offs := genOff(r, w, noff)
		for _, t := range w.Tiles {
			t.Off = offs
		}
	}
	return w
}

func newPWorld(tr *Trace, r *rng, w *GWorld) *pworld {
	qw := newQWorld(tr, r, w, nil)
	if qw == nil {
		return nil
	}
	pw := &pworld{qworld: qw, ids: map[detour.PolyRef]int{}, refOf: []detour.PolyRef{0}, weight: map[detour.PolyRef]int{}, flat: true}
	for _, t := range w.Tiles {
		if t.L != 0 {
			pw.flat = false
		}
	}
	return pw
}

func (pw *pworld) fill(pct int) bool {
	for k := range pw.w.Tiles {
		if pw.r.p(pct) && !pw.add(k, false) {
			return false
		}
	}
	return pw.graph()
}

func (pw *pworld) mkQuery(n int) (*detour.NavMeshQuery, bool) {
	if !pw.newQuery(int32(n)) {
		return nil, false
	}
	return pw.q, true
}

func (pw *pworld) change(r *rng) bool {
	k := r.Intn(len(pw.w.Tiles))
	switch {
	case r.p(40):
		return pw.setFlags(r) && pw.graph()
	case pw.refs[k] != 0:
		return pw.remove(k) && pw.graph()
	default:
		return pw.add(k, r.p(50)) && pw.graph()
	}
}

func genPathWorld(tr *Trace, r *rng, layers int, strict bool) *pworld {
	o := genOpt{MinGap: 3, MaxGap: 8, HolePct: []int{0, 10, 25, 40}[r.Intn(4)], DominoPct: 20, TriPct: 30, WallPct: 15, BaseY: 6,
		MaxH: []int{0, 1, 2}[r.Intn(3)], FlagSet: []int{1, 1, 1, 3, 3, 2, 5, 0, 0x11, 0x8000, 0xffff}, AreaMax: 5}
	if r.p(30) {
		o.Jitter, o.MinGap, o.MaxGap = true, 4, 8
	}
	if r.p(50) {
		o.FlagSet = []int{1}
	}
	if r.p(15) {
		o.MinGap, o.MaxGap, o.Jitter = 2, 4, false
	}
	if strict {
		o.DominoPct = 0
	}
	if strict || o.Jitter {
		o.Merge = []int{0, 40, 80}[r.Intn(3)]
	}
	noff := 0
	if r.p(50) {
		noff = r.in(1, 8)
	}
	return newPWorld(tr, r, pathWorld(r, o, 7, 1, layers, noff))
}

func pathsCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		pathsSched(tr, r, a)
		return
	}
	for i := 0; i < a.N; i++ {
		layers := 25
		if r.p(50) {
			layers = 0
		}
		pw := genPathWorld(tr, r, layers, false)
		if pw == nil || !pw.fill(90) {
			return
		}
		var ok bool
		switch a.Opt {
		case "sliced":
			ok = pw.runSliced(r, false)
		case "change":
			ok = pw.runSliced(r, true)
		default:
			ok = pw.runPaths(r, a.Opt)
		}
		if !ok {
			continue
		}
	}
}

func (pw *pworld) runPaths(r *rng, opt string) bool {
	nodes := 4*len(pw.cur) + 600
	nq, ok := pw.mkQuery(nodes)
	if !ok {
		return false
	}
	for j := 0; j < 30; j++ {
		if r.p(8) && !pw.change(r) {
			return false
		}
		if opt == "limits" && r.p(60) {
			nodes = []int{1, 2, 3, 4, 5, 6, 7, 9, 16, 31, 64}[r.Intn(11)]
			if r.p(50) {
				nodes = r.in(1, len(pw.cur)+2)
			}
			if nq, ok = pw.mkQuery(nodes); !ok {
				return false
			}
		}
		if opt == "filter" {
			if !pw.filterOps(r, nq) {
				return false
			}
		}
		q, ok := pw.query1(r, opt == "cost" || r.p(20))
		if !ok {
			return true
		}
		if !pw.path(r, nq, nodes, q, opt == "limits") {
			return false
		}
	}
	return true
}

// filterOps checks references under a filter and looks for nearest polygons.
func (pw *pworld) filterOps(r *rng, nq *detour.NavMeshQuery) bool {
	n, ok := pw.pickPoly(r, 50)
	if !ok {
		return true
	}
	f, inc, exc := pw.filter(r)
	ref, id := n.ref, n.id
	if r.p(20) { // any reference seen so far
		id = r.Intn(len(pw.refOf))
		ref = pw.refOf[id]
	}
	var v, pass bool
	known := false
	if !pw.tr.try("IsValidPolyRef", func() {
		v = nq.IsValidPolyRef(ref, f)
		var t *detour.MeshTile
		var p *detour.Poly
		if !detour.StatusFailed(pw.m.TileAndPolyByRef(ref, &t, &p)) {
			known = true
			pass = f.PassFilter(ref, t, p)
		}
	}) {
		return false
	}
	pw.tr.Emit("Valid", M{"id": id, "inc": inc, "exc": exc, "v": v, "known": known, "pass": pass,
		"ginc": int(f.IncludeFlags()), "gexc": int(f.ExcludeFlags())})

	// nearest polygon around a polygon
	c := pw.inside(r, n)
	ext := float32(r.in(1, 64)) * pw.w.Cs / 8
	var st detour.Status
	var near detour.PolyRef
	if !pw.tr.try("FindNearestPoly", func() { st, near, _ = nq.FindNearestPoly(pw.w.qpos(c), d3.Vec3{ext, ext, ext}, f) }) {
		return false
	}
	pw.tr.Emit("Near", M{"st": stName(st), "ref": pw.pids([]detour.PolyRef{near})[0], "none": near == 0, "inc": inc, "exc": exc})

	// a ray from it
	m, ok := pw.pickPoly(r, 0)
	if !ok || n.off {
		return true
	}
	e := pw.inside(r, m)
	var hit detour.RaycastHit
	hit.Path = make([]detour.PolyRef, 300)
	hit.MaxPath = 300
	hit.HitNormal = d3.NewVec3()
	if !pw.tr.try("Raycast", func() { st = nq.Raycast(n.ref, pw.w.qpos(c), pw.w.qpos(e), f, 0, &hit, 0) }) {
		return false
	}
	pw.tr.Emit("Ray", M{"st": stName(st), "from": n.id, "path": pw.pids(hit.Path[:hit.PathCount]), "inc": inc, "exc": exc})

	// costs of areas in two filters
	f1, f2 := detour.NewStandardQueryFilter(), detour.NewStandardQueryFilter()
	sets := [][3]int{}
	for i := r.in(0, 5); i >= 0; i-- {
		s := [3]int{r.in(1, 2), r.Intn(64), r.in(1, 9)}
		sets = append(sets, s)
		if s[0] == 1 {
			f1.SetAreaCost(int32(s[1]), float32(s[2]))
		} else {
			f2.SetAreaCost(int32(s[1]), float32(s[2]))
		}
	}
	got := [2][]int{}
	for i := 0; i < 64; i++ {
		got[0] = append(got[0], int(math.Round(float64(f1.AreaCost(int32(i))*16))))
		got[1] = append(got[1], int(math.Round(float64(f2.AreaCost(int32(i))*16))))
	}
	// what moving four units through the polygon costs
	cost := [2]int{}
	if !pw.tr.try("Cost", func() {
		var t *detour.MeshTile
		var p *detour.Poly
		pw.m.TileAndPolyByRef(n.ref, &t, &p)
		a, b := d3.Vec3{1, 2, 3}, d3.Vec3{1, 2, 7}
		cost[0] = int(math.Round(float64(f1.Cost(a, b, 0, nil, nil, n.ref, t, p, 0, nil, nil) * 16)))
		cost[1] = int(math.Round(float64(f2.Cost(a, b, 0, nil, nil, n.ref, t, p, 0, nil, nil) * 16)))
	}) {
		return false
	}
	pw.tr.Emit("AreaCosts", M{"sets": sets, "got": got, "id": n.id, "cost": cost})
	return true
}

// other runs a query that may be made while a sliced search is in progress.
func (pw *pworld) other(r *rng, nq *detour.NavMeshQuery) bool {
	n, ok := pw.pickPoly(r, 0)
	m, ok2 := pw.pickPoly(r, 0)
	if !ok || !ok2 {
		return true
	}
	f, _, _ := pw.filter(r)
	a, b := pw.w.qpos(pw.inside(r, n)), pw.w.qpos(pw.inside(r, m))
	return pw.tr.try("other query", func() {
		switch r.Intn(6) {
		case 0:
			nq.FindNearestPoly(a, d3.Vec3{3, 3, 3}, f)
		case 1:
			var hit detour.RaycastHit
			hit.Path = make([]detour.PolyRef, 8)
			hit.MaxPath = 8
			hit.HitNormal = d3.NewVec3()
			nq.Raycast(n.ref, a, b, f, detour.RaycastUseCosts, &hit, 0)
		case 2:
			var over bool
			nq.ClosestPointOnPoly(n.ref, b, d3.NewVec3(), &over)
		case 3:
			nq.IsValidPolyRef(n.ref, f)
		case 4:
			nq.ClosestPointOnPolyBoundary(n.ref, b, d3.NewVec3())
		case 5:
			vs := make([]d3.Vec3, 8)
			for i := range vs {
				vs[i] = d3.NewVec3()
			}
			nq.FindStraightPath(a, b, []detour.PolyRef{n.ref}, vs, make([]uint8, 8), make([]detour.PolyRef, 8), 0)
		}
	})
}

// a sliced search as a sequence of calls
type slicing struct {
	*pworld
	nq    *detour.NavMeshQuery
	nodes int
	q     pquery
	old   []int // corridor of an earlier search
}

func (s *slicing) init(q pquery, ref M) bool {
	var st detour.Status
	sp, ep := s.w.qpos(q.sp), s.w.qpos(q.ep)
	if !s.tr.try("InitSlicedFindPath", func() { st = s.nq.InitSlicedFindPath(q.from.ref, q.to.ref, sp, ep, q.filter, q.opt) }) {
		return false
	}
	m := s.args(q)
	for k, v := range flagsOf(st) {
		m[k] = v
	}
	if ref != nil {
		m["ref"] = ref
	}
	m["nodes"] = s.nodes
	m["flat"] = s.flat
	s.tr.Emit("SInit", m)
	s.q = q
	return true
}

func (s *slicing) update(max int) (detour.Status, bool) {
	var st detour.Status
	done := -7
	nilDone := s.r.p(10)
	if !s.tr.try("UpdateSlicedFindPath", func() {
		if nilDone {
			st = s.nq.UpdateSlicedFindPath(max, nil)
		} else {
			st = s.nq.UpdateSlicedFindPath(max, &done)
		}
	}) {
		return 0, false
	}
	if nilDone {
		done = -9
	}
	m := flagsOf(st)
	m["max"], m["done"] = max, done
	s.tr.Emit("SUpd", m)
	return st, true
}

func (s *slicing) fin(cp int) bool {
	b := buffer(cp)
	var n int
	var st detour.Status
	if !s.tr.try("FinalizeSlicedFindPath", func() { n, st = s.nq.FinalizeSlicedFindPath(b[:cp], cp) }) {
		return false
	}
	s.tr.Emit("SFin", s.result(b, cp, n, st))
	return true
}

func (s *slicing) finPart(existing []int, cp int) bool {
	b := buffer(cp)
	var n int
	var st detour.Status
	ex := make([]detour.PolyRef, len(existing))
	vis := make([]bool, len(existing))
	for i, id := range existing {
		ex[i] = s.refOf[id]
	}
	if !s.tr.try("FinalizeSlicedFindPathPartial", func() {
		for i := range ex {
			vis[i] = s.nq.NodePool().FindNode(ex[i], 0) != nil
		}
		n, st = s.nq.FinalizeSlicedFindPathPartial(ex, len(ex), b[:cp], cp)
	}) {
		return false
	}
	m := s.result(b, cp, n, st)
	m["ex"], m["vis"] = existing, vis
	s.tr.Emit("SFinP", m)
	return true
}

func (pw *pworld) newSlicing(nodes int) (*slicing, bool) {
	nq, ok := pw.mkQuery(nodes)
	if !ok {
		return nil, false
	}
	return &slicing{pworld: pw, nq: nq, nodes: nodes}, true
}

func (pw *pworld) runSliced(r *rng, change bool) bool {
	nodes := 4*len(pw.cur) + 600
	if r.p(25) && !change {
		nodes = r.in(1, len(pw.cur)+2)
	}
	s, ok := pw.newSlicing(nodes)
	if !ok {
		return false
	}
	for j := 0; j < 12; j++ {
		q, ok := pw.query1(r, r.p(40))
		if !ok {
			break
		}
		if r.p(40) {
			q.opt = detour.FindPathAnyAngle
		}
		cp := 600
		if r.p(10) && !change {
			cp = r.in(1, 12)
		}
		var ref M
		if !change {
			keep := pw.q
			nq, ok := pw.mkQuery(nodes)
			if !ok {
				return false
			}
			pw.q = keep
			if ref, ok = pw.sliced(nq, q, cp); !ok {
				return false
			}
		}
		if r.p(8) { // an unusable reference
			old := q.to
			q.to.ref, q.to.id = detour.PolyRef(0), 0
			if r.p(50) {
				q.to = old
				q.from.ref, q.from.id = detour.PolyRef(0), 0
			}
			ref = nil
		}
		if !s.init(q, ref) {
			return false
		}
		slice := []int{1, 1, 2, 3, 7, 20}[r.Intn(6)]
		n := 0
		if r.p(20) {
			n = 1000
		}
		for ; n < 60; n++ {
			k := slice
			if r.p(20) {
				k = r.in(0, 5)
			}
			st, ok := s.update(k)
			if !ok {
				return false
			}
			if !detour.StatusInProgress(st) && r.p(70) {
				break
			}
			if r.p(20) && !pw.other(r, s.nq) {
				return false
			}
			if change && r.p(12) && !pw.change(r) {
				return false
			}
			if r.p(3) {
				break
			}
		}
		if change && r.p(25) && !pw.change(r) {
			return false
		}
		switch {
		case r.p(8): // abandoned
		case r.p(30) && len(s.old) > 0:
			ok = s.finPart(s.old, cp)
		default:
			ok = s.fin(cp)
			if ok && ref != nil {
				s.old = ref["path"].([]int)
			}
		}
		if !ok {
			return false
		}
		if r.p(15) && !s.fin(cp) {
			return false
		}
		if r.p(10) {
			if _, ok := s.update(r.in(0, 4)); !ok {
				return false
			}
		}
		if change { // the same query object still answers
			if r.p(30) && !pw.change(r) {
				return false
			}
			if q, ok := pw.query1(r, r.p(50)); ok && !pw.path(r, s.nq, nodes, q, false) {
				return false
			}
		}
	}
	return true
}

func schedLines(a *Args) [][]byte {
	f, err := os.Open(a.Sched)
	if err != nil {
		die(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	i := 0
	var lines [][]byte
	for sc.Scan() {
		i++
		if i%a.Shards == a.Shard {
			lines = append(lines, append([]byte{}, sc.Bytes()...))
		}
	}
	return lines
}

func pathsSched(tr *Trace, r *rng, a *Args) {
	lines := schedLines(a)
	if a.Opt == "graphs" {
		for _, ln := range lines {
			var g [][]int
			if err := json.Unmarshal(ln, &g); err != nil {
				die(err)
			}
			digraph(tr, r, g)
		}
		return
	}
	// operation sequences on a sliced search
	for len(lines) > 0 {
		pw := genPathWorld(tr, r, 0, false)
		if pw == nil || !pw.fill(100) {
			return
		}
		nodes := 4*len(pw.cur) + 1000
		s, ok := pw.newSlicing(nodes)
		if !ok {
			return
		}
		for n := 0; n < 12 && len(lines) > 0; n++ {
			var ops []string
			if err := json.Unmarshal(lines[0], &ops); err != nil {
				die(err)
			}
			lines = lines[1:]
			if !s.play(r, ops) {
				break
			}
		}
	}
}

// play runs a sequence of operations on one search.
func (s *slicing) play(r *rng, ops []string) bool {
	ok := true
	for _, op := range ops {
		if len(s.cur) == 0 {
			for k := range s.w.Tiles {
				if s.refs[k] == 0 {
					ok = ok && s.add(k, false)
				}
			}
			ok = ok && s.graph()
		}
		if !ok {
			return false
		}
		switch op {
		case "init", "bad":
			q, got := s.query1(r, r.p(50))
			if !got {
				return true
			}
			if r.p(30) {
				q.opt = detour.FindPathAnyAngle
			}
			if op == "bad" {
				q.to.ref, q.to.id = 0, 0
			}
			ok = s.init(q, nil)
		case "step":
			_, ok = s.update(1)
		case "run":
			_, ok = s.update(1 << 20)
		case "zero":
			_, ok = s.update(0)
		case "other":
			ok = s.other(r, s.nq)
		case "fin":
			ok = s.fin(600)
		case "part":
			ids := []int{}
			for i := 0; i < 3; i++ {
				if n, got := s.pickPoly(r, 10); got {
					ids = append(ids, n.id)
				}
			}
			ok = s.finPart(ids, 600)
		case "rmgoal", "rmstart", "rmother":
			k := r.Intn(len(s.w.Tiles))
			if op == "rmgoal" {
				k = s.q.to.k
			} else if op == "rmstart" {
				k = s.q.from.k
			}
			if s.refs[k] != 0 {
				ok = s.remove(k) && s.graph()
			}
		case "restore", "fresh":
			for k := range s.w.Tiles {
				if s.refs[k] == 0 && ok {
					ok = s.add(k, op == "restore")
				}
			}
			ok = ok && s.graph()
		case "find":
			if q, got := s.query1(r, r.p(50)); got {
				ok = s.path(r, s.nq, s.nodes, q, false)
			}
		default:
			die(os.ErrInvalid)
		}
	}
	return ok
}

// digraph makes polygons and one-way connections from a directed graph:
// g[0] = factors of the weights, g[1:] = edges.
func digraph(tr *Trace, r *rng, g [][]int) {
	n := len(g[0])
	w := &GWorld{Cs: 1, Ch: 1, N: 64, Climb10: 13, MaxTiles: 2, MaxPolys: 64, ConnRadius: 1}
	t := &GTile{X: 0, Y: 0, User: 1000, BV: r.p(50), BMaxY: 12}
	ctr := make([][3]int, n)
	perm := r.Perm(9)
	for i := 0; i < n; i++ {
		x, z := 4+20*(perm[i]%3), 4+20*(perm[i]/3)
		b := len(t.Verts)
		t.Verts = append(t.Verts, [3]int{x, 4, z}, [3]int{x, 4, z + 8}, [3]int{x + 8, 4, z + 8}, [3]int{x + 8, 4, z})
		t.Polys = append(t.Polys, GPoly{V: []int{b, b + 1, b + 2, b + 3}, Nei: []int{-1, -1, -1, -1}, Flags: 1})
		t.DetailY = append(t.DetailY, 0)
		ctr[i] = [3]int{4 * (x + 4), 16, 4 * (z + 4)}
	}
	es := g[1:]
	for _, k := range r.Perm(len(es)) {
		a, b := ctr[es[k][0]-1], ctr[es[k][1]-1]
		for i := 0; i < 3; i += 2 {
			a[i] += r.in(-12, 12)
			b[i] += r.in(-12, 12)
		}
		t.Off = append(t.Off, GOff{A: a, B: b, Rad4: 4, Flags: 1, User: uint32(900000 + k)})
	}
	w.Tiles = []*GTile{t}
	qw := newQWorld(tr, r, w, nil)
	if qw == nil || !qw.add(0, false) {
		return
	}
	pw := &pworld{qworld: qw, ids: map[detour.PolyRef]int{}, refOf: []detour.PolyRef{0}, weight: map[detour.PolyRef]int{}, flat: true}
	for p := 0; p < n; p++ {
		pw.weight[qw.poly(0, p)] = 30 * g[0][p]
	}
	for p := range es {
		pw.weight[qw.poly(0, n+p)] = 100
	}
	if !pw.graph() {
		return
	}
	nodes := 4*len(pw.cur) + 8
	if r.p(30) {
		nodes = r.in(2, len(pw.cur))
	}
	nq, ok := pw.mkQuery(nodes)
	if !ok {
		return
	}
	byP := map[int]node1{}
	for _, x := range pw.cur {
		byP[x.p] = x
	}
	q := pquery{from: byP[0], to: byP[n-1], inc: 0xffff, filter: &costFilter{0xffff, 0, pw.weight, nil}, weighted: true}
	if r.p(60) {
		q.filter, q.pair = &costFilter{0xffff, 0, pw.weight, pw.ids}, true
	}
	q.sp, q.ep = pw.inside(r, q.from), pw.inside(r, q.to)
	for _, how := range []string{"find", "sliced"} {
		if how == "sliced" && q.pair {
			continue
		}
		run := pw.find
		if how == "sliced" {
			run = pw.sliced
		}
		full, ok := run(nq, q, 100)
		if !ok {
			return
		}
		pw.emitPath(how, q, full, nil, nodes)
	}
}
