package main

import (
	"encoding/json"
	"fmt"
	"sync"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

// C21: queries do not influence each other.

func init() { cmds["indep"] = indepCmd }

// A query with its arguments.
type iquery struct {
	kind   string
	q      pquery
	a, b   d3.Vec3
	ext    d3.Vec3
	path   []detour.PolyRef
	opt    int
	n      int
	search bool
}

func vecs(n int) []d3.Vec3 {
	v := make([]d3.Vec3, n)
	for i := range v {
		v[i] = d3.NewVec3()
	}
	return v
}

// run makes the query and gives everything that comes out of it.
func (x *iquery) run(nq *detour.NavMeshQuery) string {
	switch x.kind {
	case "FindPath":
		p := make([]detour.PolyRef, x.n)
		n, st := nq.FindPath(x.q.from.ref, x.q.to.ref, x.a, x.b, x.q.filter, p)
		return fmt.Sprint(n, st, p)
	case "sliced":
		x.init(nq)
		for i := 0; i < 10000 && x.step(nq, 3); i++ {
		}
		return x.fin(nq)
	case "Raycast":
		hit := detour.RaycastHit{Path: make([]detour.PolyRef, x.n), MaxPath: x.n, HitNormal: d3.NewVec3()}
		st := nq.Raycast(x.q.from.ref, x.a, x.b, x.q.filter, x.opt, &hit, 0)
		nrm := fmt.Sprint(hit.HitNormal)
		return fmt.Sprint(st, hit.T, hit.PathCount, hit.Path, hit.PathCost, nrm)
	case "FindNearestPoly":
		st, ref, pt := nq.FindNearestPoly(x.a, x.ext, x.q.filter)
		return fmt.Sprint(st, ref, pt)
	case "ClosestPointOnPoly":
		c, over := d3.NewVec3(), false
		st := nq.ClosestPointOnPoly(x.q.from.ref, x.b, c, &over)
		return fmt.Sprint(st, c, over)
	case "ClosestPointOnPolyBoundary":
		c := d3.NewVec3()
		st := nq.ClosestPointOnPolyBoundary(x.q.from.ref, x.b, c)
		return fmt.Sprint(st, c)
	case "IsValidPolyRef":
		return fmt.Sprint(nq.IsValidPolyRef(x.q.from.ref, x.q.filter))
	default:
		p, f, r := vecs(x.n), make([]uint8, x.n), make([]detour.PolyRef, x.n)
		n, st := nq.FindStraightPath(x.a, x.b, x.path, p, f, r, int32(x.opt))
		return fmt.Sprint(n, st, p, f, r)
	}
}

func (x *iquery) init(nq *detour.NavMeshQuery) {
	nq.InitSlicedFindPath(x.q.from.ref, x.q.to.ref, x.a, x.b, x.q.filter, x.q.opt)
}
func (x *iquery) step(nq *detour.NavMeshQuery, n int) bool {
	return detour.StatusInProgress(nq.UpdateSlicedFindPath(n, nil))
}
func (x *iquery) fin(nq *detour.NavMeshQuery) string {
	p := make([]detour.PolyRef, x.n)
	n, st := nq.FinalizeSlicedFindPath(p, x.n)
	return fmt.Sprint(n, st, p)
}

// mkIndep makes a query; search tells which kinds are wanted.
func (pw *pworld) mkIndep(r *rng, search bool) (*iquery, bool) {
	q, ok := pw.query1(r, r.p(20))
	if !ok {
		return nil, false
	}
	x := &iquery{q: q, search: search, n: []int{300, 300, 4, 1}[r.Intn(4)], opt: r.Intn(4)}
	x.a, x.b = pw.w.qpos(q.sp), pw.w.qpos(q.ep)
	if search {
		x.kind = []string{"FindPath", "sliced"}[r.Intn(2)]
		if r.p(40) {
			x.q.opt = detour.FindPathAnyAngle
		}
		return x, true
	}
	x.kind = []string{"Raycast", "FindNearestPoly", "ClosestPointOnPoly", "ClosestPointOnPolyBoundary", "IsValidPolyRef", "FindStraightPath"}[r.Intn(6)]
	x.ext = d3.Vec3{float32(r.in(1, 60)) * pw.w.Cs / 4, float32(r.in(1, 20)) * pw.w.Cs / 4, float32(r.in(1, 60)) * pw.w.Cs / 4}
	if x.kind == "Raycast" {
		x.opt &= 1
		if q.from.off {
			x.kind = "FindNearestPoly"
		}
	}
	if x.kind == "FindStraightPath" {
		ok = pw.tr.try("FindPath", func() {
			p := make([]detour.PolyRef, 200)
			st, nq := detour.NewNavMeshQuery(pw.m, 2000)
			if detour.StatusFailed(st) {
				return
			}
			n, _ := nq.FindPath(q.from.ref, q.to.ref, x.a, x.b, q.filter, p)
			x.path = p[:n]
		})
	}
	return x, ok
}

func (pw *pworld) mesh() { pw.tr.Emit("Mesh", M{"print": meshPrint(pw.m)}) }

// alone makes the queries, each with a new query object.
func (pw *pworld) alone(qs []*iquery, nodes int) bool {
	for i, x := range qs {
		res := ""
		if !pw.tr.try(x.kind, func() {
			st, nq := detour.NewNavMeshQuery(pw.m, int32(nodes))
			if !detour.StatusFailed(st) {
				res = x.run(nq)
			}
		}) {
			return false
		}
		pw.tr.Emit("Alone", M{"q": i + 1, "kind": x.kind, "res": res})
	}
	pw.mesh()
	return true
}

func (pw *pworld) objects(n, nodes int) ([]*detour.NavMeshQuery, bool) {
	var res []*detour.NavMeshQuery
	for i := 0; i < n; i++ {
		if !pw.newQuery(int32(nodes)) {
			return nil, false
		}
		res = append(res, pw.q)
	}
	return res, true
}

func indepCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		indepSched(tr, r, a)
		return
	}
	for i := 0; i < a.N; i++ {
		pw := genPathWorld(tr, r, 25, false)
		if pw == nil || !pw.fill(90) {
			return
		}
		if len(pw.cur) == 0 {
			continue
		}
		nodes := 4*len(pw.cur) + 600
		if r.p(30) {
			nodes = r.in(1, len(pw.cur)+2)
		}
		var qs []*iquery
		ok := true
		for len(qs) < 24 && ok {
			var x *iquery
			if x, ok = pw.mkIndep(r, r.p(60)); ok {
				qs = append(qs, x)
			}
		}
		if !ok || !pw.alone(qs, nodes) {
			continue
		}
		// one object, one query after another
		objs, ok := pw.objects(1, nodes)
		if !ok {
			return
		}
		for k := 0; ok && k < 60; k++ {
			j := r.Intn(len(qs))
			x, res := qs[j], ""
			ok = tr.try(x.kind, func() {
				if x.kind == "sliced" && r.p(30) { // abandoned
					x.init(objs[0])
					x.step(objs[0], r.in(0, 9))
				}
				res = x.run(objs[0])
			})
			tr.Emit("Result", M{"q": j + 1, "how": "history", "res": res})
		}
		if !ok {
			continue
		}
		pw.mesh()
		// several objects at the same time
		const G = 4
		if objs, ok = pw.objects(G, nodes); !ok {
			return
		}
		var wg sync.WaitGroup
		var res [G][]M
		var msg [G]string
		var plan [G][]int
		for g := range plan {
			for k := 0; k < 40; k++ {
				plan[g] = append(plan[g], r.Intn(len(qs)))
			}
		}
		if !tr.try("queries at the same time", func() {
			for g := 0; g < G; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					msg[g] = tr.guard("query", func() {
						for _, j := range plan[g] {
							res[g] = append(res[g], M{"q": j + 1, "how": "concurrent", "res": qs[j].run(objs[g])})
						}
					})
				}(g)
			}
			wg.Wait()
		}) {
			continue
		}
		for g := range res {
			for _, m := range res[g] {
				tr.Emit("Result", m)
			}
			if msg[g] != "" {
				tr.Emit("Panic", M{"op": "query", "msg": msg[g]})
			}
		}
		pw.mesh()
	}
}

// indepSched replays interleavings of two objects.
func indepSched(tr *Trace, r *rng, a *Args) {
	lines := schedLines(a)
	for len(lines) > 0 {
		pw := genPathWorld(tr, r, 25, false)
		if pw == nil || !pw.fill(100) {
			return
		}
		nodes := 4*len(pw.cur) + 600
		var qs []*iquery
		for i := 0; i < 4; i++ { // two searches, two others
			x, ok := pw.mkIndep(r, i < 2)
			if !ok {
				return
			}
			qs = append(qs, x)
		}
		for _, x := range qs[:2] {
			x.n = 300
		}
		// both as one call and sliced
		qs[0].kind, qs[1].kind = "FindPath", "FindPath"
		for _, x := range qs[:2] {
			y := *x
			y.kind = "sliced"
			qs = append(qs, &y)
		}
		if !pw.alone(qs, nodes) {
			return
		}
		objs, ok := pw.objects(2, nodes)
		if !ok {
			return
		}
		for n := 0; n < 40 && len(lines) > 0; n++ {
			var ops [][]interface{}
			if err := json.Unmarshal(lines[0], &ops); err != nil {
				die(err)
			}
			lines = lines[1:]
			var more [2]bool
			for _, op := range ops {
				o, q := int(op[0].(float64))-1, int(op[2].(float64))
				emit := 0
				res := ""
				nq := objs[o]
				if !tr.try("query", func() {
					switch op[1] {
					case "find":
						emit, res = q, qs[q-1].run(nq)
					case "look":
						emit, res = q+2, qs[q+1].run(nq)
					case "init":
						qs[q+3].init(nq)
						more[o] = true
					case "step":
						more[o] = qs[q+3].step(nq, r.in(1, 4))
					case "fin":
						for more[o] {
							more[o] = qs[q+3].step(nq, 100)
						}
						emit, res = q+4, qs[q+3].fin(nq)
					}
				}) {
					return
				}
				if emit > 0 {
					tr.Emit("Result", M{"q": emit, "how": "interleaved", "res": res})
				}
			}
		}
		pw.mesh()
	}
}
