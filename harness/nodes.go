package main

import (
	"encoding/json"

	"github.com/arl/go-detour/detour"
)

// C22: the pool of search nodes.

func init() { cmds["nodes"] = nodesCmd }

type pool struct {
	tr  *Trace
	r   *rng
	np  *detour.NodePool
	ids []detour.PolyRef
	num map[detour.PolyRef]int
	end bool
}

func newPool(tr *Trace, r *rng, max int, ids []detour.PolyRef) *pool {
	p := &pool{tr: tr, r: r, ids: ids, num: map[detour.PolyRef]int{}}
	for i, x := range ids {
		p.num[x] = i
	}
	tr.Emit("Begin", M{"max": max})
	m := &detour.NavMesh{}
	if st := m.Init(&detour.NavMeshParams{TileWidth: 16, TileHeight: 16, MaxTiles: 4, MaxPolys: 16}); detour.StatusFailed(st) {
		tr.Emit("Setup", M{"op": "Init"})
		return nil
	}
	if !tr.try("NewNavMeshQuery", func() {
		st, q := detour.NewNavMeshQuery(m, int32(max))
		if !detour.StatusFailed(st) {
			p.np = q.NodePool()
		}
	}) {
		return nil
	}
	if p.np == nil {
		tr.Emit("Setup", M{"op": "NewNavMeshQuery"})
		return nil
	}
	return p
}

func (p *pool) idx(n *detour.Node) int {
	if n == nil {
		return 0
	}
	return int(p.np.NodeIdx(n))
}

func (p *pool) get(i int, state uint8) bool {
	e := M{"id": i, "state": int(state)}
	if !p.tr.try("Node", func() {
		n := p.np.Node(p.ids[i], state)
		e["idx"] = p.idx(n)
		e["new"] = n != nil && n.ID == p.ids[i] && n.State == state && n.PIdx == 0 && n.Cost == 0 && n.Total == 0 && n.Flags == 0
		if n != nil { // in use
			n.PIdx, n.Cost, n.Total, n.Flags = 7, 1, 2, 1
		}
	}) {
		return false
	}
	p.tr.Emit("Get", e)
	return true
}

func (p *pool) find(i int, state uint8) bool {
	e := M{"id": i, "state": int(state)}
	if !p.tr.try("FindNode", func() { e["idx"] = p.idx(p.np.FindNode(p.ids[i], state)) }) {
		return false
	}
	p.tr.Emit("Find", e)
	return true
}

func (p *pool) all(i, limit int) bool {
	e := M{"id": i, "limit": limit}
	if !p.tr.try("FindNodes", func() {
		buf := make([]*detour.Node, limit+3)
		mark := &detour.Node{}
		for k := range buf {
			buf[k] = mark
		}
		n := int(p.np.FindNodes(p.ids[i], buf, int32(limit)))
		res := []int{}
		clean := true
		for k, x := range buf {
			if x != mark && k < n {
				res = append(res, p.idx(x))
			}
			clean = clean && (k < limit || x == mark)
		}
		e["n"], e["idx"], e["clean"] = n, res, clean
	}) {
		return false
	}
	p.tr.Emit("All", e)
	return true
}

func (p *pool) at(i int) bool {
	e := M{"idx": i, "none": true, "id": -1, "state": 0, "back": 0}
	if !p.tr.try("NodeAtIdx", func() {
		if n := p.np.NodeAtIdx(int32(i)); n != nil {
			e["none"], e["state"], e["back"] = false, int(n.State), p.idx(n)
			if k, ok := p.num[n.ID]; ok {
				e["id"] = k
			}
		} else if p.np.NodeIdx(n) != 0 {
			e["none"] = false
		}
	}) {
		return false
	}
	p.tr.Emit("At", e)
	return true
}

func (p *pool) count() bool {
	return p.tr.try("Count", func() {
		p.tr.Emit("Count", M{"n": int(p.np.NodeCount()), "max": int(p.np.MaxNodes()), "mem": int(p.np.MemUsed()), "hash": int(p.np.HashSize())})
	})
}

func (p *pool) clear() bool {
	if !p.tr.try("Clear", p.np.Clear) {
		return false
	}
	p.tr.Emit("Clear", nil)
	return true
}

// look at everything
func (p *pool) look() bool {
	ok := p.count()
	for i := range p.ids {
		for s := uint8(0); s < 3; s++ {
			ok = ok && p.find(i, s)
		}
		ok = ok && p.all(i, 4)
	}
	for i := 0; i <= int(p.np.MaxNodes()) && i < 20; i++ {
		ok = ok && p.at(i)
	}
	return ok
}

func someRefs(r *rng, n int) []detour.PolyRef {
	var ids []detour.PolyRef
	seen := map[detour.PolyRef]bool{}
	for len(ids) < n {
		var x detour.PolyRef
		switch r.Intn(4) {
		case 0:
			x = detour.PolyRef(r.Uint32())
		case 1:
			x = detour.PolyRef(r.Intn(64))
		case 2:
			x = 0xffffffff - detour.PolyRef(r.Intn(4))
		default:
			x = detour.PolyRef(1<<uint(r.Intn(32))) | detour.PolyRef(r.Intn(16))
		}
		if !seen[x] {
			seen[x] = true
			ids = append(ids, x)
		}
	}
	return ids
}

func nodesCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		for _, ln := range schedLines(a) {
			var ops [][]interface{}
			if err := json.Unmarshal(ln, &ops); err != nil {
				die(err)
			}
			p := newPool(tr, r, 3, someRefs(r, 4))
			if p == nil {
				return
			}
			ok := true
			for i, op := range ops {
				if op[0] == "clear" {
					ok = ok && p.clear()
				} else {
					ok = ok && p.get(int(op[1].(float64)), uint8(op[2].(float64)))
				}
				if i == len(ops)-1 {
					ok = ok && p.look()
				}
			}
		}
		return
	}
	for i := 0; i < a.N; i++ {
		max := []int{1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100}[r.Intn(11)]
		p := newPool(tr, r, max, someRefs(r, []int{2, max/2 + 1, max + 3, 2*max + 8}[r.Intn(4)]))
		if p == nil {
			return
		}
		ok := true
		for j := 0; ok && j < 150; j++ {
			k, s := r.Intn(len(p.ids)), uint8(r.Intn(4))
			if r.p(2) {
				s = uint8(r.Intn(256))
			}
			switch {
			case r.p(3):
				ok = p.clear()
			case r.p(60):
				ok = p.get(k, s)
			case r.p(40):
				ok = p.find(k, s)
			case r.p(40):
				ok = p.all(k, r.Intn(6))
			case r.p(60):
				ok = p.at(r.in(0, max))
			default:
				ok = p.count()
			}
		}
	}
	if a.Shard == 0 {
		for _, max := range []int{9, 1000, 16384, 65535} {
			p := newPool(tr, r, max, nil)
			if p == nil {
				return
			}
			off := uint32(r.Intn(1 << 30))
			var idx, again []int
			if !tr.try("Node", func() {
				for i := 0; i < max+2; i++ {
					idx = append(idx, p.idx(p.np.Node(detour.PolyRef(off+uint32(i)*uint32(max%7+1)), 0)))
				}
				for i := 0; i < max; i++ {
					again = append(again, p.idx(p.np.FindNode(detour.PolyRef(off+uint32(i)*uint32(max%7+1)), 0)))
				}
			}) {
				return
			}
			tr.Emit("Fill", M{"idx": idx, "again": again})
		}
	}
}
