package main

import (
	"math"

	"github.com/arl/go-detour/detour"
)

// C07: compiling tiles.

func init() { cmds["compile"] = compileCmd }

const odd = -1 << 30 // a number that no specification expects

// q4 gives v in quarters of unit relative to o, exactly.
func q4(v, o, unit float32) int {
	x := float64(v-o) / float64(unit) * 4
	if x != math.Trunc(x) || math.Abs(x) > 1<<28 {
		return odd
	}
	return int(x)
}

func (w *GWorld) q4v(v []float32) [3]int {
	return [3]int{q4(v[0], w.Orig[0], w.Cs), q4(v[1], w.Orig[1], w.Ch), q4(v[2], w.Orig[2], w.Cs)}
}

// source is tile source data in integers, for the specification.
func source(w *GWorld, p *detour.NavMeshCreateParams) M {
	n := int(p.Nvp)
	ps := []M{}
	used := map[int]bool{}
	for i := 0; i < int(p.PolyCount); i++ {
		v, nn := []int{}, []int{}
		for j := 0; j < n; j++ {
			x := p.Polys[i*2*n+j]
			if x == 0xffff {
				break
			}
			v = append(v, int(x))
			used[int(x)] = true
			nn = append(nn, int(p.Polys[i*2*n+n+j]))
		}
		ps = append(ps, M{"v": v, "n": nn, "f": p.PolyFlags[i], "a": p.PolyAreas[i]})
	}
	vs := [][4]int{}
	for i := 0; i < int(p.VertCount); i++ {
		if used[i] || i < 20 {
			vs = append(vs, [4]int{i, int(p.Verts[3*i]), int(p.Verts[3*i+1]), int(p.Verts[3*i+2])})
		}
	}
	e := M{"nv": p.VertCount, "verts": vs, "polys": ps, "bmin": w.q4v(p.BMin[:]), "bmax": w.q4v(p.BMax[:]),
		"x": p.TileX, "y": p.TileY, "l": p.TileLayer, "user": p.UserID & 0x7fffffff, "climb10": w.Climb10, "bv": p.BuildBvTree,
		"den": int(w.Cs / w.Ch * 8)}
	e["hasd"] = p.DetailMeshes != nil
	dm, dv, dt := [][4]int{}, [][3]int{}, [][4]int{}
	for i := 0; i+3 < len(p.DetailMeshes); i += 4 {
		dm = append(dm, [4]int{int(p.DetailMeshes[i]), int(p.DetailMeshes[i+1]), int(p.DetailMeshes[i+2]), int(p.DetailMeshes[i+3])})
	}
	for i := 0; i+2 < len(p.DetailVerts); i += 3 {
		dv = append(dv, w.q4v(p.DetailVerts[i:i+3]))
	}
	for i := 0; i+3 < len(p.DetailTris); i += 4 {
		dt = append(dt, [4]int{int(p.DetailTris[i]), int(p.DetailTris[i+1]), int(p.DetailTris[i+2]), int(p.DetailTris[i+3])})
	}
	e["dm"], e["dv"], e["dt"] = dm, dv, dt
	off := []M{}
	for i := 0; i < int(p.OffMeshConCount); i++ {
		off = append(off, M{"a": w.q4v(p.OffMeshConVerts[6*i : 6*i+3]), "b": w.q4v(p.OffMeshConVerts[6*i+3 : 6*i+6]),
			"r": q4(p.OffMeshConRad[i], 0, w.Cs), "f": p.OffMeshConFlags[i], "ar": p.OffMeshConAreas[i],
			"bi": p.OffMeshConDir[i] != 0, "u": p.OffMeshConUserID[i] & 0x7fffffff})
	}
	e["off"] = off
	e["h"] = [4]string{f2s(p.WalkableHeight), f2s(p.WalkableRadius), f2s(p.WalkableClimb), f2s(1 / p.Cs)}
	return e
}

// compiled is what the mesh shows of a tile.
func compiled(w *GWorld, t *detour.MeshTile, src M) M {
	h := t.Header
	e := M{"x": h.X, "y": h.Y, "l": h.Layer, "user": h.UserID & 0x7fffffff, "bmin": w.q4v(h.BMin[:]), "bmax": w.q4v(h.BMax[:]),
		"h": [4]string{f2s(h.WalkableHeight), f2s(h.WalkableRadius), f2s(h.WalkableClimb), f2s(h.BvQuantFactor)},
		"np": len(t.Polys), "nv": len(t.Verts) / 3, "hn": [6]int{int(h.PolyCount), int(h.VertCount), int(h.OffMeshConCount), int(h.OffMeshBase), int(h.DetailMeshCount), int(h.BvNodeCount)}}
	ps := []M{}
	for i := range t.Polys {
		p := &t.Polys[i]
		v, nn := []int{}, []int{}
		for j := 0; j < int(p.VertCount); j++ {
			v = append(v, int(p.Verts[j]))
			nn = append(nn, int(p.Neis[j]))
		}
		linked := false
		if p.Type() == 1 {
			ls, _ := linksOf(t, i)
			linked = len(ls) > 0
		}
		ps = append(ps, M{"v": v, "n": nn, "f": p.Flags, "a": p.Area(), "t": p.Type(), "linked": linked})
	}
	e["polys"] = ps
	vs := [][4]int{}
	for _, x := range src["verts"].([][4]int) {
		q := [3]int{odd, odd, odd}
		if 3*x[0]+2 < len(t.Verts) {
			q = w.q4v(t.Verts[3*x[0] : 3*x[0]+3])
		}
		vs = append(vs, [4]int{x[0], q[0], q[1], q[2]})
	}
	e["verts"] = vs
	dm, dv, dt := [][4]int{}, [][3]int{}, [][4]int{}
	for _, d := range t.DetailMeshes {
		dm = append(dm, [4]int{int(d.VertBase), int(d.VertCount), int(d.TriBase), int(d.TriCount)})
	}
	for i := 0; i+2 < len(t.DetailVerts); i += 3 {
		dv = append(dv, w.q4v(t.DetailVerts[i:i+3]))
	}
	for i := 0; i+3 < len(t.DetailTris); i += 4 {
		dt = append(dt, [4]int{int(t.DetailTris[i]), int(t.DetailTris[i+1]), int(t.DetailTris[i+2]), int(t.DetailTris[i+3])})
	}
	e["dm"], e["dv"], e["dt"] = dm, dv, dt
	off := []M{}
	for i := range t.OffMeshCons {
		o := &t.OffMeshCons[i]
		p := &t.Polys[o.Poly]
		var va, vb [3]int
		if p.VertCount == 2 {
			va = w.q4v(t.Verts[3*int(p.Verts[0]) : 3*int(p.Verts[0])+3])
			vb = w.q4v(t.Verts[3*int(p.Verts[1]) : 3*int(p.Verts[1])+3])
		}
		off = append(off, M{"a": w.q4v(o.Pos[0:3]), "b": w.q4v(o.Pos[3:6]), "r": q4(o.Rad, 0, w.Cs), "poly": int(o.Poly),
			"bi": o.Flags&1 != 0, "side": int(o.Side), "u": o.UserID & 0x7fffffff, "va": va, "vb": vb})
	}
	e["off"] = off
	bv := [][7]int{}
	for _, n := range t.BvTree {
		bv = append(bv, [7]int{int(n.BMin[0]), int(n.BMin[1]), int(n.BMin[2]), int(n.BMax[0]), int(n.BMax[1]), int(n.BMax[2]), int(n.I)})
	}
	e["bvt"] = bv
	return e
}

func compileOne(tr *Trace, w *GWorld, p *detour.NavMeshCreateParams) {
	src := source(w, p)
	var data []byte
	var err error
	if !tr.try("CreateNavMeshData", func() { data, err = detour.CreateNavMeshData(p) }) {
		return
	}
	e := M{"src": src, "ok": err == nil && data != nil}
	if err == nil {
		var m detour.NavMesh
		var st detour.Status
		if !tr.try("AddTile", func() {
			np := *w.navParams()
			np.MaxTiles, np.MaxPolys = 1, 1<<16
			if detour.StatusFailed(m.Init(&np)) {
				panic("Init failed")
			}
			st, _ = m.AddTile(data, 0)
		}) {
			return
		}
		if detour.StatusFailed(st) {
			e["ok"] = false
		} else {
			e["t"] = compiled(w, &m.Tiles[0], src)
		}
	}
	tr.Emit("Compile", e)
}

func compileWorld(r *rng) (*GWorld, *GTile) {
	w := &GWorld{Cs: []float32{0.25, 0.5, 1, 2}[r.Intn(4)], Ch: []float32{0.25, 0.5, 1}[r.Intn(3)],
		Orig: [3]float32{float32(r.in(-64, 64)), float32(r.in(-8, 8)), float32(r.in(-64, 64))},
		N:    32, Climb10: []int{3, 8, 13, 18, 28}[r.Intn(5)], MaxTiles: 1, MaxPolys: 256, ConnRadius: float32(r.in(1, 9)) / 8}
	o := genOpt{MinGap: r.in(2, 8), MaxGap: r.in(8, 16), HolePct: r.in(0, 40), DominoPct: r.in(0, 50), TriPct: r.in(0, 50), WallPct: 20,
		MaxH: r.in(0, 6), BaseY: r.in(0, 20), InnerPortalPct: 20, AreaMax: 63, Jitter: r.p(30)}
	o.FlagSet = []int{0, 1, 2, 0x8000, 0xffff, 0x1234}
	t := genTile(r, w, r.in(-3, 3), r.in(-3, 3), r.in(0, 2), o)
	t.BV = r.p(50)
	t.Detail = r.in(0, 1)
	t.User = uint32(r.Int31())
	t.BMinY = r.in(-3, o.BaseY)
	if r.p(70) {
		n := r.in(1, 6)
		for i := 0; i < n; i++ {
			g := GOff{Rad4: r.in(1, 20), Bidir: r.p(50), Flags: r.Intn(1 << 16), Area: r.in(0, 63), User: uint32(r.Int31())}
			for k, b := range [][2]int{{t.X * w.N, (t.X + 1) * w.N}, {o.BaseY - 4, o.BaseY + o.MaxH + 4}, {t.Y * w.N, (t.Y + 1) * w.N}} {
				for e := 0; e < 2; e++ {
					lo, hi := b[0]*4, b[1]*4
					v := r.in(lo, hi)
					if k != 1 {
						switch c := r.Intn(10); {
						case c == 0:
							v = lo
						case c == 1:
							v = hi
						case c == 2:
							v = lo - r.in(1, 40)
						case c == 3:
							v = hi + r.in(1, 40)
						}
					}
					if e == 0 {
						g.A[k] = v
					} else {
						g.B[k] = v
					}
				}
			}
			t.Off = append(t.Off, g)
		}
	}
	return w, t
}

// addDetail gives the polygons random detail, on quarter positions.
func addDetail(r *rng, w *GWorld, t *GTile, p *detour.NavMeshCreateParams) {
	p.DetailMeshes, p.DetailVerts, p.DetailTris = nil, nil, nil
	for _, q := range t.Polys {
		vb, tb := len(p.DetailVerts)/3, len(p.DetailTris)/4
		var first []float32
		for _, v := range q.V {
			x := w.pos(t, v)
			x[1] += float32(r.in(-4, 4)) * w.Ch / 4
			first = append(first, x[:]...)
		}
		p.DetailVerts = append(p.DetailVerts, first...)
		n := r.in(0, 4)
		for i := 0; i < n; i++ {
			// anywhere: the compiler has to take what it is given
			for a := 0; a < 3; a++ {
				u := w.Cs
				if a == 1 {
					u = w.Ch
				}
				p.DetailVerts = append(p.DetailVerts, first[a]+float32(r.in(0, 12))*u/4)
			}
		}
		nt := r.in(1, 6)
		nv := len(q.V) + n
		for i := 0; i < nt; i++ {
			p.DetailTris = append(p.DetailTris, uint8(r.Intn(nv)), uint8(r.Intn(nv)), uint8(r.Intn(nv)), uint8(r.Intn(64)))
		}
		p.DetailMeshes = append(p.DetailMeshes, int32(vb), int32(nv), int32(tb), int32(nt))
	}
	p.DetailVertsCount = int32(len(p.DetailVerts) / 3)
	p.DetailTriCount = int32(len(p.DetailTris) / 4)
}

// narrow gives the same source with fewer vertices a polygon.
func narrow(p *detour.NavMeshCreateParams, n int) {
	var out []uint16
	for i := 0; i < int(p.PolyCount); i++ {
		q := p.Polys[i*2*nvp : (i+1)*2*nvp]
		for k := 0; k < 2; k++ {
			out = append(out, q[k*nvp:k*nvp+n]...)
		}
	}
	p.Polys = out
	p.Nvp = int32(n)
}

func compileCmd(tr *Trace, r *rng, a *Args) {
	for i := 0; i < a.N; i++ {
		tr.Emit("Begin", M{})
		w, t := compileWorld(r)
		p := w.params(t)
		if r.p(40) {
			addDetail(r, w, t, p)
		}
		for k := range p.Polys { // neighbours are what the source says, whatever that is
			if k%(2*nvp) >= nvp && p.Polys[k] != 0xffff && r.p(10) {
				p.Polys[k] = []uint16{0x8000, 0x8001, 0x8002, 0x8003, 0x800f, uint16(r.Intn(len(t.Polys)))}[r.Intn(6)]
			}
		}
		mx := 0
		for _, q := range t.Polys {
			if len(q.V) > mx {
				mx = len(q.V)
			}
		}
		if r.p(50) {
			narrow(p, r.in(mx, 6))
		}
		if r.p(30) {
			p.OffMeshConUserID = append([]uint32{}, p.OffMeshConUserID...)
		}
		if i%8 == 3 { // many vertices, used from the far end
			extra := []int{20000, 22000, 40000, 65000}[r.Intn(4)]
			ext := make([]uint16, extra*3)
			for k := range ext {
				ext[k] = uint16(r.Intn(32))
				if k%3 == 1 { // within the height range of the mesh
					ext[k] = p.Verts[1]
				}
			}
			p.Verts = append(ext, p.Verts...)
			p.VertCount += int32(extra)
			n := int(p.Nvp)
			for k := range p.Polys {
				if k%(2*n) < n && p.Polys[k] != 0xffff {
					p.Polys[k] += uint16(extra)
				}
			}
		}
		compileOne(tr, w, p)
		// outside the limits
		for k := 0; k < 6; k++ {
			q := *p
			what := ""
			switch r.Intn(14) {
			case 0:
				what, q.VertCount = "no vertices", 0
			case 1:
				what, q.Verts = "nil vertices", nil
			case 2:
				what, q.PolyCount = "no polygons", 0
			case 3:
				what, q.Polys = "nil polygons", nil
			case 4:
				what, q.Nvp = "too many vertices per polygon", int32(r.in(7, 100))
			case 5:
				what, q.Nvp = "too few vertices per polygon", int32(r.in(-1, 2))
			case 6:
				what, q.VertCount = "negative vertices", int32(-r.in(1, 100))
			case 7:
				what, q.PolyCount = "negative polygons", int32(-r.in(1, 100))
			case 8:
				q.VertCount = int32([]int{0xffff, 0x10000, 0x10001, 70000}[r.Intn(4)])
				what, q.Verts = "too many vertices", append(append([]uint16{}, p.Verts...), make([]uint16, 3*70000)...)
			case 9:
				what, q.OffMeshConCount = "negative connections", int32(-r.in(1, 5))
			case 10:
				what, q.Cs = "cell size", float32(-r.in(0, 3))
			case 11:
				what, q.Ch = "cell height", float32(-r.in(0, 3))
			case 12:
				what, q.VertCount = "two vertices", int32(r.in(1, 2))
			case 13:
				// connections starting in the tile whose vertices cannot be indexed any more
				what, q.VertCount = "too many vertices with those of connections", 0xfffe
				q.Verts = append(append([]uint16{}, p.Verts...), make([]uint16, 3*70000)...)
				q.OffMeshConVerts, q.OffMeshConRad, q.OffMeshConFlags, q.OffMeshConAreas, q.OffMeshConDir, q.OffMeshConUserID = nil, nil, nil, nil, nil, nil
				q.OffMeshConCount = int32(r.in(2, 4))
				for c := 0; c < int(q.OffMeshConCount); c++ {
					var m [3]float32
					for i := range m {
						m[i] = (p.BMin[i] + p.BMax[i]) / 2
					}
					m[1] = p.BMin[1] + float32(p.Verts[1])*p.Ch
					if p.DetailVertsCount > 0 {
						m[1] = p.DetailVerts[1]
					}
					q.OffMeshConVerts = append(q.OffMeshConVerts, m[0], m[1], m[2], m[0]+float32(c), m[1], m[2])
					q.OffMeshConRad = append(q.OffMeshConRad, 1)
					q.OffMeshConFlags = append(q.OffMeshConFlags, 1)
					q.OffMeshConAreas = append(q.OffMeshConAreas, 0)
					q.OffMeshConDir = append(q.OffMeshConDir, 0)
					q.OffMeshConUserID = append(q.OffMeshConUserID, uint32(c))
				}
			}
			var err error
			var data []byte
			if !tr.try("CreateNavMeshData: "+what, func() { data, err = detour.CreateNavMeshData(&q) }) {
				return
			}
			tr.Emit("Refuse", M{"what": what, "ok": err == nil, "data": data != nil})
		}
	}
}
