package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

// C20: invalid references and arguments.

func init() { cmds["refuse"] = refuseCmd }

// print gives a fingerprint of everything in the mesh.
func meshPrint(m *detour.NavMesh) string {
	h := fnv.New64a()
	var b bytes.Buffer
	m.ToWriter(&b)
	h.Write(b.Bytes())
	for i := range m.Tiles {
		t := &m.Tiles[i]
		fmt.Fprint(h, t.Salt, t.LinksFreeList, t.DataSize, t.Links)
		for k := range t.Polys {
			p := &t.Polys[k]
			fmt.Fprint(h, p.FirstLink, p.Flags, p.AreaAndType, p.VertCount)
		}
	}
	return fmt.Sprintf("%x", h.Sum64())
}

// anyRef gives a reference of any kind and its number (0 if it was never
// that of a polygon).
func (pw *pworld) anyRef(r *rng) detour.PolyRef {
	var base detour.PolyRef
	if len(pw.cur) > 0 {
		base = pw.cur[r.Intn(len(pw.cur))].ref
	}
	switch r.Intn(9) {
	case 0:
		return 0
	case 1: // used before
		return pw.refOf[r.Intn(len(pw.refOf))]
	case 2:
		return base ^ detour.PolyRef(1)<<uint(r.Intn(32))
	case 3:
		return base + detour.PolyRef(r.in(1, 300))
	case 4:
		return 0xffffffff - detour.PolyRef(r.Intn(3))
	case 5:
		return detour.PolyRef(r.Uint32())
	case 6:
		return detour.PolyRef(r.Intn(4096))
	default:
		return base
	}
}

func (pw *pworld) refID(x detour.PolyRef) int { return pw.ids[x] }

func badVec(r *rng) d3.Vec3 {
	return []d3.Vec3{nil, {}, {1}, {1, 2}}[r.Intn(4)]
}

func oddVec(r *rng) d3.Vec3 {
	nan, inf := float32(math.NaN()), float32(math.Inf(1))
	v := []d3.Vec3{{nan, nan, nan}, {nan, 0, 0}, {inf, 0, 0}, {0, -inf, 0}, {1e30, 0, -1e30}, {0, 0, 0}, {1e-40, 0, 1e-40}}[r.Intn(7)]
	return append(d3.Vec3{}, v...)
}

// refuse makes a call with arguments most of which are not valid.
func (pw *pworld) refuse(r *rng, nq *detour.NavMeshQuery) bool {
	before := meshPrint(pw.m)
	e := M{}
	var st detour.Status
	isBad := false
	bad := func() bool { // use a bad argument here
		b := r.p(15)
		isBad = isBad || b
		return b
	}
	pos := func() d3.Vec3 {
		if bad() {
			return badVec(r)
		}
		if r.p(15) {
			v := oddVec(r)
			for _, x := range v {
				isBad = isBad || math.IsNaN(float64(x)) || math.IsInf(float64(x), 0)
			}
			return v
		}
		if n, ok := pw.pickPoly(r, 20); ok {
			return pw.w.qpos(pw.inside(r, n))
		}
		return d3.Vec3{0, 0, 0}
	}
	out := func() d3.Vec3 {
		if bad() {
			return badVec(r)
		}
		return d3.NewVec3()
	}
	var filter detour.QueryFilter = detour.NewStandardQueryFilter()
	a, b := pw.anyRef(r), pw.anyRef(r)
	req, opt := []detour.PolyRef{}, []detour.PolyRef{}
	refs := func(n int) []detour.PolyRef {
		if n < 0 {
			return nil
		}
		return make([]detour.PolyRef, n)
	}
	ask := true // whether a failure must be an invalid parameter
	weak := false
	op := []string{"FindPath", "Raycast", "Raycast2", "ClosestPointOnPoly", "ClosestPointOnPolyBoundary", "FindNearestPoly", "FindStraightPath",
		"Finalize", "FinalizePartial", "IsValidPolyRef", "TileAndPolyByRef", "TileByRef", "Update"}[r.Intn(13)]
	if op == "FindPath" && pw.busy {
		op = "Raycast"
	}
	var call func()
	switch op {
	case "FindPath":
		req = append(req, a, b)
		sp, ep := pos(), pos()
		if bad() {
			filter = nil
		}
		path := refs(10)
		if bad() {
			path = refs(r.in(-1, 0))
		}
		call = func() { _, st = nq.FindPath(a, b, sp, ep, filter, path) }
	case "Raycast":
		req, opt = append(req, a), append(opt, b)
		sp, ep := pos(), pos()
		if bad() {
			filter = nil
		}
		hit := &detour.RaycastHit{Path: refs(r.in(-1, 5)), MaxPath: r.in(-1, 9)}
		if bad() {
			hit = nil
		}
		o := r.Intn(4)
		call = func() { st = nq.Raycast(a, sp, ep, filter, o, hit, b) }
	case "Raycast2":
		req = append(req, a)
		sp, ep := pos(), pos()
		path := refs(r.in(-1, 5))
		n := []d3.Vec3{nil, d3.NewVec3()}[r.Intn(2)]
		if bad() {
			filter = nil
		}
		k := r.in(-1, 9)
		call = func() { _, _, st = nq.Raycast2(a, sp, ep, filter, n, path, k) }
	case "ClosestPointOnPoly":
		req = append(req, a)
		p, c := pos(), out()
		over := new(bool)
		if r.p(30) {
			over = nil
		}
		call = func() { st = nq.ClosestPointOnPoly(a, p, c, over) }
	case "ClosestPointOnPolyBoundary":
		req = append(req, a)
		p, c := pos(), out()
		call = func() { st = nq.ClosestPointOnPolyBoundary(a, p, c) }
	case "FindNearestPoly":
		p := pos()
		ext := d3.Vec3{float32(r.in(-1, 4)), float32(r.in(-1, 4)), float32(r.in(-1, 4))}
		if bad() {
			ext = badVec(r)
		} else if r.p(10) {
			ext[r.Intn(3)] = float32(math.NaN())
			isBad = true
		}
		if bad() {
			filter = nil
		}
		call = func() { st, _, _ = nq.FindNearestPoly(p, ext, filter) }
	case "FindStraightPath":
		var path []detour.PolyRef
		for i := r.in(0, 4); i > 0; i-- {
			path = append(path, pw.anyRef(r))
		}
		if len(path) == 0 {
			isBad = true
		} else {
			req = append(req, path[0], path[len(path)-1])
		}
		sp, ep := pos(), pos()
		n := r.in(0, 6)
		isBad = isBad || n == 0
		pts := make([]d3.Vec3, n)
		for i := range pts {
			pts[i] = d3.NewVec3()
		}
		fl, rf := make([]uint8, n), refs(n)
		if r.p(20) {
			fl = nil
		}
		if r.p(20) {
			rf = nil
		}
		if n > 1 && bad() {
			fl = make([]uint8, r.in(1, n-1))
		}
		if n > 1 && bad() {
			rf = make([]detour.PolyRef, r.in(1, n-1))
		}
		o := r.Intn(4)
		call = func() { _, st = nq.FindStraightPath(sp, ep, path, pts, fl, rf, int32(o)) }
	case "Finalize":
		// never with enough room: it would end a search
		isBad = true
		path, k := refs(r.in(-1, 3)), r.in(-2, 0)
		if r.p(50) {
			path, k = refs(r.in(-1, 0)), r.in(0, 5)
		}
		call = func() { _, st = nq.FinalizeSlicedFindPath(path, k) }
	case "FinalizePartial":
		isBad = true
		path, k := refs(3), 3
		ex := []detour.PolyRef{a, b}
		n := 2
		switch r.Intn(4) {
		case 0:
			path, k = refs(3), r.in(-2, 0)
		case 1:
			path, k = refs(r.in(-1, 0)), r.in(0, 5)
		case 2:
			n = r.in(3, 5)
		case 3:
			n = r.in(-2, 0)
		}
		call = func() { _, st = nq.FinalizeSlicedFindPathPartial(ex, n, path, k) }
	case "IsValidPolyRef":
		req, ask = append(req, a), false
		if bad() {
			filter = nil
		}
		call = func() {
			st = detour.Failure
			if nq.IsValidPolyRef(a, filter) {
				st = detour.Success
			} else if f := pw.flagsOfRef(a); f == 0 && filter != nil {
				weak = true // not permitted
			}
		}
	case "TileAndPolyByRef":
		req, ask = append(req, a), false
		call = func() {
			var t *detour.MeshTile
			var p *detour.Poly
			st = pw.m.TileAndPolyByRef(a, &t, &p)
			if !detour.StatusFailed(st) && (t == nil || p == nil) {
				st = detour.Failure
			}
		}
	case "TileByRef":
		ask, weak = false, true
		call = func() { pw.m.TileByRef(detour.TileRef(a)); st = detour.Success }
	case "Update":
		ask, weak = false, true
		k := -r.Intn(3)
		call = func() {
			nq.UpdateSlicedFindPath(k, nil)
			st = detour.Success
		}
	}
	if !pw.tr.try(op, call) {
		return false
	}
	ri, oi := []int{}, []int{}
	for _, x := range req {
		ri = append(ri, pw.refID(x))
	}
	for _, x := range opt {
		if x != 0 {
			oi = append(oi, pw.refID(x))
		}
	}
	e["op"], e["req"], e["refs"], e["bad"], e["st"], e["inv"], e["ask"], e["weak"] = op, ri, oi, isBad, stName(st), hasDetail(st, detour.InvalidParam), ask, weak
	e["before"], e["after"] = before, meshPrint(pw.m)
	pw.tr.Emit("Refuse", e)
	return true
}

func (pw *pworld) flagsOfRef(x detour.PolyRef) uint16 {
	var t *detour.MeshTile
	var p *detour.Poly
	if detour.StatusFailed(pw.m.TileAndPolyByRef(x, &t, &p)) {
		return 1
	}
	return p.Flags
}

// limits of the number of nodes
func (pw *pworld) limits(r *rng) bool {
	n := []int{0, -1, 1, 2, 3, 5, 1000, 65535, 65536, 1 << 20, math.MinInt32, math.MaxInt32, -65535, 1 << 24}[r.Intn(14)]
	var st detour.Status
	var q *detour.NavMeshQuery
	if !pw.tr.try("NewNavMeshQuery", func() { st, q = detour.NewNavMeshQuery(pw.m, int32(n)) }) {
		return false
	}
	max := 0
	if q != nil {
		max = int(q.NodePool().MaxNodes())
	}
	pw.tr.Emit("Limit", M{"n": n, "st": stName(st), "inv": hasDetail(st, detour.InvalidParam), "max": max})
	return true
}

func refuseCmd(tr *Trace, r *rng, a *Args) {
	for i := 0; i < a.N; i++ {
		pw := genPathWorld(tr, r, 25, false)
		if pw == nil || !pw.fill(70) {
			return
		}
		ok := pw.limits(r)
		for k := 0; ok && k < 4; k++ { // references that are not valid any more
			ok = pw.change(r)
		}
		if ok {
			pw.runRefuse(r)
		}
	}
}

func (pw *pworld) runRefuse(r *rng) bool {
	nodes := 4*len(pw.cur) + 600
	s, ok := pw.newSlicing(nodes)
	if !ok {
		return false
	}
	for j := 0; j < 8; j++ {
		for k := r.in(0, 15); k > 0; k-- {
			if !pw.refuse(r, s.nq) {
				return false
			}
		}
		q, ok := pw.query1(r, false)
		if !ok {
			return true
		}
		if r.p(40) {
			q.opt = detour.FindPathAnyAngle
		}
		keep := pw.q
		nq, ok := pw.mkQuery(nodes)
		if !ok {
			return false
		}
		pw.q = keep
		ref, ok := pw.sliced(nq, q, 600)
		if !ok {
			return false
		}
		if r.p(25) { // a search that cannot be started
			if !pw.badInit(r, s.nq, q) {
				return false
			}
			continue
		}
		if !s.init(q, ref) {
			return false
		}
		pw.busy = true
		for n := 0; n < 300; n++ {
			st, ok := s.update(r.in(0, 3))
			if !ok {
				return false
			}
			for k := r.in(0, 2); k > 0; k-- {
				if !pw.refuse(r, s.nq) {
					return false
				}
			}
			if !detour.StatusInProgress(st) {
				break
			}
		}
		if !s.fin(600) {
			return false
		}
		pw.busy = false
		if r.p(50) && !pw.limits(r) {
			return false
		}
	}
	return true
}

// badInit tries to start a search with something missing.
func (pw *pworld) badInit(r *rng, nq *detour.NavMeshQuery, q pquery) bool {
	var st detour.Status
	sp, ep := pw.w.qpos(q.sp), pw.w.qpos(q.ep)
	f := q.filter
	from, to := q.from.ref, q.to.ref
	bad := false
	switch r.Intn(5) {
	case 0:
		f, bad = nil, true
	case 1:
		sp, bad = badVec(r), true
	case 2:
		ep, bad = badVec(r), true
		if r.p(50) {
			ep = d3.Vec3{0, float32(math.Inf(1)), 0}
		}
	case 3:
		from = pw.anyRef(r)
	case 4:
		to = pw.anyRef(r)
	}
	if !pw.tr.try("InitSlicedFindPath", func() { st = nq.InitSlicedFindPath(from, to, sp, ep, f, q.opt) }) {
		return false
	}
	q.from.id, q.to.id = pw.refID(from), pw.refID(to)
	m := pw.args(q)
	for k, v := range flagsOf(st) {
		m[k] = v
	}
	m["nodes"], m["flat"], m["bad"] = 0, pw.flat, bad
	pw.tr.Emit("SInit", m)
	return true
}
