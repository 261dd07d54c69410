package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/arl/go-detour/detour"
)

// C04: connections between tiles.

func init() { cmds["links"] = linksCmd }

type linkWorld struct {
	tr   *Trace
	r    *rng
	w    *GWorld
	m    *detour.NavMesh
	data [][]byte
	refs []detour.TileRef // by tile, 0 when absent
	old  []detour.TileRef // last reference it had
	byID map[uint32]int
}

func newLinkWorld(tr *Trace, r *rng, w *GWorld) *linkWorld {
	lw := &linkWorld{tr: tr, r: r, w: w, m: &detour.NavMesh{}, byID: map[uint32]int{}}
	caps := []int{}
	descs := []M{}
	ok := tr.try("CreateNavMeshData", func() {
		for k, t := range w.Tiles {
			t.User = uint32(1000 + k)
			lw.byID[t.User] = k
			d, err := mkData(w, t)
			if err != nil {
				panic(err)
			}
			lw.data = append(lw.data, d)
			edges, portals := 0, 0
			for _, p := range t.Polys {
				edges += len(p.V)
				for _, n := range p.Nei {
					if n <= -10 {
						portals++
					}
				}
			}
			caps = append(caps, edges+2*portals)
			descs = append(descs, w.desc(t))
		}
	})
	if !ok {
		return nil
	}
	lw.refs = make([]detour.TileRef, len(w.Tiles))
	lw.old = make([]detour.TileRef, len(w.Tiles))
	tr.Emit("Begin", M{"tiles": descs, "cap": caps, "climb10": w.Climb10})
	if st := lw.m.Init(w.navParams()); detour.StatusFailed(st) {
		tr.Emit("Setup", M{"op": "Init"})
		return nil
	}
	return lw
}

func (lw *linkWorld) add(k int, restore bool) bool {
	var st detour.Status
	var ref detour.TileRef
	last := detour.TileRef(0)
	if restore {
		last = lw.old[k]
	}
	if !lw.tr.try("AddTile", func() {
		st, ref = lw.m.AddTile(append([]byte{}, lw.data[k]...), last)
		if last != 0 && detour.StatusFailed(st) { // its slot is in use
			st, ref = lw.m.AddTile(append([]byte{}, lw.data[k]...), 0)
		}
	}) {
		return false
	}
	lw.refs[k], lw.old[k] = ref, ref
	lw.tr.Emit("Add", M{"k": k + 1, "ok": detour.StatusSucceed(st)})
	return true
}

func (lw *linkWorld) remove(k int) bool {
	var st detour.Status
	if !lw.tr.try("RemoveTile", func() { _, st = lw.m.RemoveTile(lw.refs[k]) }) {
		return false
	}
	lw.refs[k] = 0
	lw.tr.Emit("Remove", M{"k": k + 1, "ok": detour.StatusSucceed(st)})
	return true
}

// resolve gives tile number and polygon (1-based) of a reference, 0 if none.
func (lw *linkWorld) resolve(ref detour.PolyRef) (int, int) {
	return resolveRef(lw.m, lw.byID, ref)
}

func resolveRef(m *detour.NavMesh, byID map[uint32]int, ref detour.PolyRef) (int, int) {
	var t *detour.MeshTile
	var p *detour.Poly
	if detour.StatusFailed(m.TileAndPolyByRef(ref, &t, &p)) || t == nil || t.Header == nil {
		return 0, 0
	}
	k, ok := byID[t.Header.UserID]
	if !ok {
		return 0, 0
	}
	for i := range t.Polys {
		if p == &t.Polys[i] {
			return k + 1, i + 1
		}
	}
	return 0, 0
}

func linksEvent(m *detour.NavMesh, byID map[uint32]int) M {
	ts := []M{}
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		k := byID[t.Header.UserID]
		ls := [][7]int{}
		for p := range t.Polys {
			l, ok := linksOf(t, p)
			if !ok {
				ls = append(ls, [7]int{p + 1, -1, -1, -1, -1, -1, -1})
			}
			for _, x := range l {
				k2, q := resolveRef(m, byID, x.Ref)
				ls = append(ls, [7]int{p + 1, x.E + 1, x.S, k2, q, x.B0, x.B1})
			}
		}
		ts = append(ts, M{"k": k + 1, "ls": ls, "free": freeLinks(t)})
	}
	return M{"t": ts}
}

func (lw *linkWorld) obs() bool {
	var e M
	if !lw.tr.try("links", func() { e = linksEvent(lw.m, lw.byID) }) {
		return false
	}
	lw.tr.Emit("Links", e)
	return true
}

func linkGenWorld(r *rng, npos int) *GWorld {
	w := &GWorld{Cs: []float32{0.25, 0.5, 1, 2}[r.Intn(4)], Ch: []float32{0.25, 0.5, 1}[r.Intn(3)],
		Orig: [3]float32{float32(r.in(-64, 64)), float32(r.in(-8, 8)), float32(r.in(-64, 64))},
		N:    16, Climb10: []int{3, 8, 13, 18}[r.Intn(4)], MaxTiles: 16, MaxPolys: 64, ConnRadius: 1}
	o := genOpt{MinGap: 2, MaxGap: 8, HolePct: 15, DominoPct: 25, TriPct: 20, WallPct: 10, MaxH: r.in(0, 4), BaseY: 8,
		InnerPortalPct: 20, FlagSet: []int{1, 2, 4}, AreaMax: 3}
	if r.p(50) {
		o.MinGap = 4
	}
	bx, by := r.in(-3, 2), r.in(-3, 2)
	sp := r.in(1, 2)
	for i := 0; i < npos; i++ {
		x, y, l := bx+r.in(0, sp), by+r.in(0, 1), 0
		if r.p(30) {
			l = r.in(1, 2)
		}
		oo := o
		oo.BaseY = 8 + r.in(0, 2)*r.in(0, 3)
		t := genTile(r, w, x, y, l, oo)
		t.BV = r.p(50)
		t.Detail = r.in(0, 2)
	}
	return w
}

func linksCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		f, err := os.Open(a.Sched)
		if err != nil {
			die(err)
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		i := 0
		var lines [][]byte
		for sc.Scan() {
			i++
			if i%a.Shards == a.Shard {
				lines = append(lines, append([]byte{}, sc.Bytes()...))
			}
		}
		for len(lines) > 0 {
			// a fresh world for every few schedules; all schedules from an empty mesh
			w := &GWorld{Cs: 0.5, Ch: 0.5, N: 16, Climb10: 13, MaxTiles: 8, MaxPolys: 64}
			o := genOpt{MinGap: 4, MaxGap: 8, HolePct: 10, DominoPct: 20, TriPct: 10, MaxH: 1, BaseY: 8, InnerPortalPct: 50}
			for _, p := range [][3]int{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 0, 1}, {0, 0, 1}} {
				genTile(r, w, p[0], p[1], p[2], o)
			}
			n := 6
			if n > len(lines) {
				n = len(lines)
			}
			for _, ln := range lines[:n] {
				var ops [][]interface{}
				if err := json.Unmarshal(ln, &ops); err != nil {
					die(err)
				}
				lw := newLinkWorld(tr, r, w)
				if lw == nil {
					return
				}
				for i, op := range ops {
					k := int(op[1].(float64)) - 1
					if op[0] == "add" {
						if !lw.add(k, r.p(50)) {
							return
						}
					} else if !lw.remove(k) {
						return
					}
					if i >= len(ops)-2 && !lw.obs() {
						return
					}
				}
			}
			lines = lines[n:]
		}
	}
	for i := 0; i < a.N; i++ {
		w := linkGenWorld(r, r.in(3, 7))
		lw := newLinkWorld(tr, r, w)
		if lw == nil {
			return
		}
		nops := 24
		for j := 0; j < nops; j++ {
			k := r.Intn(len(w.Tiles))
			ok := true
			if lw.refs[k] != 0 {
				if r.p(70) || j > nops/2 {
					ok = lw.remove(k)
				}
			} else {
				// one tile per position
				free := true
				for q, t := range w.Tiles {
					u := w.Tiles[k]
					if lw.refs[q] != 0 && t.X == u.X && t.Y == u.Y && t.L == u.L {
						free = false
					}
				}
				if free {
					ok = lw.add(k, r.p(50))
				}
			}
			if !ok || !lw.obs() {
				break
			}
		}
	}
}
