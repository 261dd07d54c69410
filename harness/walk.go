package main

import (
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

// C16-C18: straight paths and rays.

func init() { cmds["walk"] = walkCmd }

func walkCmd(tr *Trace, r *rng, a *Args) {
	for i := 0; i < a.N; i++ {
		layers := 25
		if r.p(60) {
			layers = 0
		}
		pw := genPathWorld(tr, r, layers, a.Opt == "ray")
		if pw == nil {
			return
		}
		pw.shapes = true
		if !pw.fill(95) {
			continue
		}
		nq, ok := pw.mkQuery(4*len(pw.cur) + 600)
		if !ok {
			continue
		}
		for j := 0; j < 40; j++ {
			if r.p(5) && !pw.change(r) {
				break
			}
			if a.Opt == "ray" {
				ok = pw.ray(r, nq)
			} else {
				ok = pw.straight(r, nq, a.Opt == "options")
			}
			if !ok {
				break
			}
		}
	}
}

func (pw *pworld) byNumber() map[int]node1 {
	m := map[int]node1{}
	for _, n := range pw.cur {
		m[n.id] = n
	}
	return m
}

// corridor picks a corridor of connected polygons without repetition.
func (pw *pworld) corridor(r *rng, nq *detour.NavMeshQuery) ([]detour.PolyRef, bool) {
	from, ok := pw.pickPoly(r, 10)
	to, ok2 := pw.pickPoly(r, 10)
	if !ok || !ok2 {
		return nil, true
	}
	if r.p(40) { // a cheapest one
		var path = make([]detour.PolyRef, 60)
		var n int
		var st detour.Status
		f := detour.NewStandardQueryFilter()
		a, b := pw.w.qpos(pw.inside(r, from)), pw.w.qpos(pw.inside(r, to))
		if !pw.tr.try("FindPath", func() { n, st = nq.FindPath(from.ref, to.ref, a, b, f, path) }) {
			return nil, false
		}
		if detour.StatusFailed(st) {
			return nil, true
		}
		return path[:n], true
	}
	adj := map[int][]int{}
	for _, e := range pw.edges {
		adj[e[0]] = append(adj[e[0]], e[1])
	}
	seen := map[int]bool{from.id: true}
	cur := from.id
	path := []detour.PolyRef{from.ref}
	for max := r.in(1, 14); len(path) < max; {
		var next []int
		for _, x := range adj[cur] {
			if !seen[x] {
				next = append(next, x)
			}
		}
		if len(next) == 0 {
			break
		}
		cur = next[r.Intn(len(next))]
		seen[cur] = true
		path = append(path, pw.refOf[cur])
	}
	return path, true
}

// around gives a position in, at a corner of, or near a polygon.
func (pw *pworld) around(r *rng, ref detour.PolyRef) [3]int {
	id := pw.ids[ref]
	n := node1{id: id, ref: ref}
	c := pw.inside(r, n)
	switch {
	case r.p(12):
		return pw.somewhere(r)
	case r.p(12):
		c[0] += r.in(-40, 40)
		c[2] += r.in(-40, 40)
		c[1] += r.in(-100, 100)
	case r.p(25):
		var t *detour.MeshTile
		var p *detour.Poly
		if !detour.StatusFailed(pw.m.TileAndPolyByRef(ref, &t, &p)) {
			vs := polyVerts(t, p)
			f := pw.w.fine(vs[r.Intn(len(vs))])
			c = [3]int{int(math.Round(float64(f[0]) / 8)), f[1], int(math.Round(float64(f[2]) / 8))}
		}
	}
	return c
}

func fineOf(c [3]int) [3]int { return [3]int{8 * c[0], c[1], 8 * c[2]} }

// straightRun runs FindStraightPath with space for cp points.
func (pw *pworld) straightRun(nq *detour.NavMeshQuery, path []detour.PolyRef, a, b d3.Vec3, opt, cp int, noFl, noRef bool) (M, bool) {
	const extra = 3
	pts := make([]d3.Vec3, cp+extra)
	fl := make([]uint8, cp+extra)
	refs := make([]detour.PolyRef, cp+extra)
	for i := range pts {
		pts[i] = d3.Vec3{-777, -777, -777}
		fl[i] = 0xee
		refs[i] = sentinel
	}
	f, rf := fl[:cp], refs[:cp]
	if noFl {
		f = nil
	}
	if noRef {
		rf = nil
	}
	a0, b0 := d3.NewVec3From(a), d3.NewVec3From(b)
	p0 := append([]detour.PolyRef{}, path...)
	var n int
	var st detour.Status
	if !pw.tr.try("FindStraightPath", func() { n, st = nq.FindStraightPath(a, b, path, pts[:cp], f, rf, int32(opt)) }) {
		return nil, false
	}
	m := flagsOf(st)
	clean := true
	for i := cp; i < cp+extra; i++ {
		clean = clean && pts[i][0] == -777 && fl[i] == 0xee && refs[i] == sentinel
	}
	for i := range p0 {
		clean = clean && p0[i] == path[i]
	}
	for i := range a0 {
		clean = clean && a0[i] == a[i] && b0[i] == b[i]
	}
	m["clean"] = clean
	m["n"] = n
	if n < 0 || n > cp {
		n = 0
	}
	ps, fs, rs := [][]int{}, []int{}, []int{}
	dup := false
	for i := 0; i < n; i++ {
		ps = append(ps, pw.w.fine(pts[i]))
		fs = append(fs, int(fl[i]))
		id, ok := pw.ids[refs[i]]
		switch {
		case refs[i] == 0:
			id = 0
		case !ok:
			id = -1
		}
		rs = append(rs, id)
		if i > 0 && pts[i][0] == pts[i-1][0] && pts[i][1] == pts[i-1][1] && pts[i][2] == pts[i-1][2] {
			dup = true
		}
	}
	m["pts"], m["fl"], m["refs"], m["dup"], m["cap"], m["opt"] = ps, fs, rs, dup, cp, opt
	m["nofl"], m["noref"] = noFl, noRef
	return m, true
}

func (pw *pworld) straight(r *rng, nq *detour.NavMeshQuery, options bool) bool {
	path, ok := pw.corridor(r, nq)
	if !ok || len(path) == 0 {
		return ok
	}
	a, b := pw.around(r, path[0]), pw.around(r, path[len(path)-1])
	if r.p(4) && len(path) > 2 { // broken
		i := r.in(1, len(path)-1)
		switch r.Intn(3) {
		case 0:
			path = append(append([]detour.PolyRef{}, path[:i]...), path[i+1:]...)
		case 1:
			path[i] = pw.refOf[r.Intn(len(pw.refOf))]
		default:
			path[i] = 0
		}
	}
	seen := map[detour.PolyRef]bool{}
	for _, x := range path {
		if seen[x] {
			return true
		}
		seen[x] = true
	}
	ap, bp := pw.w.qpos(a), pw.w.qpos(b)
	base, ok := pw.straightRun(nq, path, ap, bp, 0, 300, false, false)
	if !ok {
		return false
	}
	m := M{"path": pw.pids(path), "sp": fineOf(a), "ep": fineOf(b), "base": base}
	if options {
		opt := r.in(0, 2)
		all, ok := pw.straightRun(nq, path, ap, bp, opt, 600, false, false)
		if !ok {
			return false
		}
		m["all"] = all
		cp := r.in(1, all["n"].(int)+2)
		nofl, noref := r.p(15), r.p(15)
		short, ok := pw.straightRun(nq, path, ap, bp, opt, cp, nofl, noref)
		if !ok {
			return false
		}
		m["short"] = short
	}
	pw.tr.Emit("Straight", m)
	return true
}

func (pw *pworld) ray(r *rng, nq *detour.NavMeshQuery) bool {
	from, ok := pw.pickPoly(r, 0)
	if !ok {
		return true
	}
	a := pw.inside(r, from)
	if r.p(15) {
		a = pw.around(r, from.ref)
	}
	var b [3]int
	switch r.Intn(5) {
	case 0: // along an axis or a diagonal
		b = a
		d := r.in(-300, 300)
		k := r.Intn(4)
		if k != 1 {
			b[0] += d
		}
		if k == 1 || k == 2 {
			b[2] += d
		}
		if k == 3 {
			b[2] -= d
		}
	case 1:
		b = pw.somewhere(r)
	case 2:
		b = pw.around(r, from.ref)
	default:
		to, ok := pw.pickPoly(r, 0)
		if !ok {
			return true
		}
		b = pw.inside(r, to)
		if r.p(20) {
			b = pw.around(r, to.ref)
		}
	}
	f, inc, exc := pw.filter(r)
	if r.p(40) {
		f, inc, exc = detour.NewStandardQueryFilter(), 0xffff, 0
	}
	var filter detour.QueryFilter = f
	weighted := r.p(50)
	if weighted {
		filter = &costFilter{uint16(inc), uint16(exc), pw.weight, nil}
	}
	opt := 0
	if r.p(60) {
		opt = detour.RaycastUseCosts
	}
	run := func(cp int, dirty, two bool) (M, bool) {
		var hit detour.RaycastHit
		hit.Path = make([]detour.PolyRef, cp+3)
		for i := range hit.Path {
			hit.Path[i] = sentinel
		}
		hit.MaxPath = cp
		if dirty {
			hit.T = float32(r.in(0, 3)) / 2
			hit.PathCount = r.in(0, cp)
			hit.PathCost = 7
			hit.HitEdgeIndex = r.in(-1, 5)
			hit.HitNormal = d3.Vec3{3, 4, 5}
			if r.p(30) {
				hit.T = math.MaxFloat32
			}
		}
		var prev detour.PolyRef
		if r.p(20) {
			prev = pw.cur[r.Intn(len(pw.cur))].ref
		}
		pa, pb := pw.w.qpos(a), pw.w.qpos(b)
		var st detour.Status
		if two {
			hit.HitNormal = d3.Vec3{3, 4, 5}
			if !pw.tr.try("Raycast2", func() {
				hit.PathCount, hit.T, st = nq.Raycast2(from.ref, pa, pb, filter, hit.HitNormal, hit.Path, cp)
			}) {
				return nil, false
			}
		} else if !pw.tr.try("Raycast", func() { st = nq.Raycast(from.ref, pa, pb, filter, opt, &hit, prev) }) {
			return nil, false
		}
		m := flagsOf(st)
		n := hit.PathCount
		m["n"] = n
		if n < 0 || n > cp {
			n = 0
		}
		m["path"] = pw.pids(hit.Path[:n])
		m["cap"] = cp
		clean := true
		for _, x := range hit.Path[cp:] {
			clean = clean && x == sentinel
		}
		m["clean"] = clean
		m["two"] = two
		m["end"] = hit.T == math.MaxFloat32
		t := float64(hit.T)
		if hit.T == math.MaxFloat32 || math.IsNaN(t) || t > 2 || t < -1 {
			t = 2
		}
		m["t"] = int(math.Round(t * 1e6))
		fa, fb := fineOf(a), fineOf(b)
		m["p"] = []int{int(math.Round(float64(fa[0]) + t*float64(fb[0]-fa[0]))), int(math.Round(float64(fa[2]) + t*float64(fb[2]-fa[2])))}
		nrm := []int{}
		for i := 0; i < 3; i++ {
			x := 99999.0
			if len(hit.HitNormal) == 3 && !math.IsNaN(float64(hit.HitNormal[i])) {
				x = math.Max(-99999, math.Min(99999, float64(hit.HitNormal[i])*1000))
			}
			nrm = append(nrm, int(math.Round(x)))
		}
		m["nrm"] = nrm
		c := float64(hit.PathCost)
		if math.IsNaN(c) || math.Abs(c) > 1e6 {
			c = -1e6
		}
		m["cost"] = int(math.Round(c))
		m["edge"] = hit.HitEdgeIndex
		if two {
			m["edge"], m["cost"] = -2, 0
		}
		return m, true
	}
	full, ok := run(300, false, false)
	if !ok {
		return false
	}
	m := M{"from": from.id, "sp": fineOf(a), "ep": fineOf(b), "inc": inc, "exc": exc, "costs": weighted && opt != 0, "full": full}
	more := []M{}
	for k := 0; k < 2; k++ {
		cp := 300
		if r.p(60) {
			cp = r.in(0, full["n"].(int)+1)
		}
		x, ok := run(cp, true, r.p(30))
		if !ok {
			return false
		}
		more = append(more, x)
	}
	m["more"] = more
	pw.tr.Emit("Ray", m)
	return true
}
