package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/arl/go-detour/detour"
)

// C08: off-mesh connections.

func init() { cmds["offmesh"] = offmeshCmd }

// offEvent lists all links from and to the polygons of connections.
func (lw *linkWorld) offEvent() M {
	ls := [][5]int{}
	offs := [][3]int{}
	vs := []M{}
	for i := range lw.m.Tiles {
		t := &lw.m.Tiles[i]
		if t.Header == nil {
			continue
		}
		k := lw.byID[t.Header.UserID] + 1
		for c := range t.OffMeshCons {
			o := &t.OffMeshCons[c]
			n := int(o.UserID-900000) + 1
			offs = append(offs, [3]int{k, n, int(o.Poly) + 1})
			p := &t.Polys[o.Poly]
			a, b := 3*int(p.Verts[0]), 3*int(p.Verts[1])
			vs = append(vs, M{"k": k, "c": n, "a": lw.w.q4v(t.Verts[a : a+3]), "b": lw.w.q4v(t.Verts[b : b+3])})
		}
		for p := range t.Polys {
			l, ok := linksOf(t, p)
			if !ok {
				ls = append(ls, [5]int{k, p + 1, -1, 0, 0})
			}
			for _, x := range l {
				k2, q := lw.resolve(x.Ref)
				off := t.Polys[p].Type() == 1 || k2 == 0
				if k2 > 0 {
					var tt *detour.MeshTile
					var pp *detour.Poly
					lw.m.TileAndPolyByRefUnsafe(x.Ref, &tt, &pp)
					off = off || pp.Type() == 1
				}
				if off {
					ls = append(ls, [5]int{k, p + 1, x.E, k2, q})
				}
			}
		}
	}
	return M{"ls": ls, "offs": offs, "vs": vs}
}

func (lw *linkWorld) obsOff() bool {
	var e M
	if !lw.tr.try("links", func() { e = lw.offEvent() }) {
		return false
	}
	lw.tr.Emit("Off", e)
	return true
}

func offWorld(r *rng, pos [][3]int) *GWorld {
	w := &GWorld{Cs: []float32{0.25, 0.5, 1}[r.Intn(3)], Ch: []float32{0.25, 0.5}[r.Intn(2)],
		Orig: [3]float32{float32(r.in(-64, 64)), float32(r.in(-8, 8)), float32(r.in(-64, 64))},
		N:    16, Climb10: []int{13, 18, 28}[r.Intn(3)], MaxTiles: 16, MaxPolys: 64, ConnRadius: 1}
	o := genOpt{MinGap: 3, MaxGap: 8, HolePct: []int{0, 20, 40, 60}[r.Intn(4)], DominoPct: 20, TriPct: 30, WallPct: 10, BaseY: 8, FlagSet: []int{0, 1, 2, 4}, AreaMax: 3}
	for _, p := range pos {
		oo := o
		oo.BaseY = 8 + 2*r.in(0, 1) + p[2]*r.in(2, 16)
		t := genTile(r, w, p[0], p[1], p[2], oo)
		t.BV = r.p(50)
		t.Detail = r.in(0, 1)
	}
	// connections between near places
	n := r.in(3, 8)
	var offs []GOff
	rad := 0
	for i := 0; i < n; i++ {
		pick := func(t *GTile) [3]int {
			var c [3]int
			if r.p(40) { // near a corner of a polygon
				p := t.Polys[r.Intn(len(t.Polys))]
				v := t.Verts[p.V[r.Intn(len(p.V))]]
				c = [3]int{4 * (t.X*w.N + v[0]), 4 * v[1], 4 * (t.Y*w.N + v[2])}
				rad = r.in(2, 12)
				var mid [3]int // away from the polygon
				for _, u := range p.V {
					for i := range mid {
						mid[i] += t.Verts[u][i] - v[i]
					}
				}
				for i := 0; i < 3; i += 2 {
					d := rad - r.Intn(1+rad/2)
					if mid[i] > 0 || mid[i] == 0 && r.p(50) || r.p(10) {
						d = -d
					}
					c[i] += d
				}
			} else if r.p(70) { // around a polygon
				p := t.Polys[r.Intn(len(t.Polys))]
				v := t.Verts[p.V[r.Intn(len(p.V))]]
				u := t.Verts[p.V[r.Intn(len(p.V))]]
				c = [3]int{2 * (2*t.X*w.N + v[0] + u[0]), 4 * v[1], 2 * (2*t.Y*w.N + v[2] + u[2])}
				c[0] += r.in(-6, 6)
				c[2] += r.in(-6, 6)
			} else {
				c = [3]int{4*t.X*w.N + r.Intn(4*w.N), 4 * t.Verts[0][1], 4*t.Y*w.N + r.Intn(4*w.N)}
			}
			c[1] += r.in(-5, 5)
			if r.p(10) {
				c[1] += r.in(-30, 30)
			}
			return c
		}
		ta := w.Tiles[r.Intn(len(w.Tiles))]
		tb := w.Tiles[r.Intn(len(w.Tiles))]
		rad = r.in(1, 12)
		pa, pb := pick(ta), pick(tb)
		offs = append(offs, GOff{A: pa, B: pb, Rad4: rad, Bidir: r.p(50), Flags: 1, Area: r.in(0, 5), User: uint32(900000 + i)})
	}
	for _, t := range w.Tiles {
		t.Off = offs
	}
	return w
}

func newOffWorld(tr *Trace, r *rng, w *GWorld) *linkWorld {
	lw := &linkWorld{tr: tr, r: r, w: w, m: &detour.NavMesh{}, byID: map[uint32]int{}}
	descs := []M{}
	if !tr.try("CreateNavMeshData", func() {
		for k, t := range w.Tiles {
			t.User = uint32(1000 + k)
			lw.byID[t.User] = k
			d, err := mkData(w, t)
			if err != nil {
				panic(err)
			}
			lw.data = append(lw.data, d)
			descs = append(descs, w.desc(t))
		}
	}) {
		return nil
	}
	lw.refs = make([]detour.TileRef, len(w.Tiles))
	lw.old = make([]detour.TileRef, len(w.Tiles))
	cons := []M{}
	for _, o := range w.Tiles[0].Off {
		cons = append(cons, M{"a": o.A, "b": o.B, "r": o.Rad4, "bi": o.Bidir})
	}
	tr.Emit("Begin", M{"tiles": descs, "climb10": w.Climb10, "cons": cons, "N": w.N, "den": int(w.Cs / w.Ch * 13)})
	if st := lw.m.Init(w.navParams()); detour.StatusFailed(st) {
		tr.Emit("Setup", M{"op": "Init"})
		return nil
	}
	return lw
}

func offmeshCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		f, err := os.Open(a.Sched)
		if err != nil {
			die(err)
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		i := 0
		var w *GWorld
		for sc.Scan() {
			i++
			if i%a.Shards != a.Shard {
				continue
			}
			var ops [][]interface{}
			if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
				die(err)
			}
			if w == nil || i%5 == 0 {
				w = offWorld(r, [][3]int{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 0, 1}, {0, 0, 1}})
			}
			lw := newOffWorld(tr, r, w)
			if lw == nil {
				return
			}
			for i, op := range ops {
				k := int(op[1].(float64)) - 1
				ok := false
				if op[0] == "add" {
					ok = lw.add(k, r.p(50))
				} else {
					ok = lw.remove(k)
				}
				if !ok || i >= len(ops)-2 && !lw.obsOff() {
					return
				}
			}
		}
	}
	for i := 0; i < a.N; i++ {
		var pos [][3]int
		seen := map[[3]int]bool{}
		for n := r.in(1, 6); len(pos) < n; {
			p := [3]int{r.in(-1, 1), r.in(-1, 1), 0}
			if r.p(20) {
				p[2] = 1
			}
			if !seen[p] {
				seen[p] = true
				pos = append(pos, p)
			}
		}
		w := offWorld(r, pos)
		lw := newOffWorld(tr, r, w)
		if lw == nil {
			return
		}
		for j := 0; j < 16; j++ {
			k := r.Intn(len(w.Tiles))
			ok := true
			if lw.refs[k] != 0 {
				if r.p(50) || j > 10 {
					ok = lw.remove(k)
				}
			} else {
				ok = lw.add(k, r.p(50))
			}
			if !ok || !lw.obsOff() {
				break
			}
		}
	}
}
