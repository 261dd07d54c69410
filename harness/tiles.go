package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"os"
	"sort"

	"github.com/arl/go-detour/detour"
)

// C01-C03: tile storage.

func init() { cmds["tiles"] = tilesCmd }

type tileData struct {
	pos     int
	data    []byte
	content string
	polys   int
}

type tokInfo struct {
	ref   detour.TileRef
	polys int // polygons of the tile it was last issued for
}

type tileWorld struct {
	tr    *Trace
	r     *rng
	w     *GWorld
	m     *detour.NavMesh
	pos   [][3]int
	datas []*tileData
	toks  []*tokInfo
	tokOf map[detour.TileRef]int
	dead  bool
}

func mkData(w *GWorld, t *GTile) ([]byte, error) { return detour.CreateNavMeshData(w.params(t)) }

// alone gives the content a tile has when it is the only one of a mesh.
func alone(w *GWorld, data []byte) (string, int, bool) {
	var m detour.NavMesh
	p := *w.navParams()
	p.MaxTiles = 1
	p.MaxPolys = 1 << 10
	if detour.StatusFailed(m.Init(&p)) {
		return "", 0, false
	}
	st, _ := m.AddTile(append([]byte{}, data...), 0)
	if detour.StatusFailed(st) {
		return "", 0, false
	}
	return contentOf(&m.Tiles[0]), int(m.Tiles[0].Header.PolyCount), true
}

func newTileWorld(tr *Trace, r *rng, maxTiles, maxPolys int, pos [][3]int, perPos int, small bool) *tileWorld {
	tw := &tileWorld{tr: tr, r: r, pos: pos, tokOf: map[detour.TileRef]int{}}
	tw.w = &GWorld{Cs: 0.5, Ch: 0.5, Orig: [3]float32{float32(r.in(-8, 8)), float32(r.in(-2, 2)), float32(r.in(-8, 8))}, N: 16,
		Climb10: 13, MaxTiles: maxTiles, MaxPolys: maxPolys}
	o := genOpt{MinGap: 4, MaxGap: 8, HolePct: 20, DominoPct: 20, TriPct: 20, WallPct: 10, MaxH: 2, BaseY: 8,
		FlagSet: []int{1, 2, 3}, AreaMax: 5}
	if small {
		o.MinGap, o.MaxGap = 8, 16
	}
	for i, p := range pos {
		for k := 0; k < perPos; k++ {
			t := genTile(r, tw.w, p[0], p[1], p[2], o)
			t.BV = r.p(70)
			t.Detail = r.in(0, 2)
			var data []byte
			if !tr.try("CreateNavMeshData", func() { data, _ = mkData(tw.w, t) }) || data == nil {
				tw.dead = true
				return tw
			}
			c, np, ok := alone(tw.w, data)
			if !ok {
				tr.Emit("Setup", M{"op": "alone"})
				tw.dead = true
				return tw
			}
			tw.datas = append(tw.datas, &tileData{pos: i, data: data, content: c, polys: np})
		}
	}
	tw.m = &detour.NavMesh{}
	return tw
}

func (tw *tileWorld) begin(saltMax int, extra M) {
	ps := [][3]int{}
	for _, p := range tw.pos {
		ps = append(ps, p)
	}
	e := M{"maxTiles": tw.w.MaxTiles, "saltMax": saltMax, "pos": ps, "digest": meshDigest(tw.m)}
	for k, v := range extra {
		e[k] = v
	}
	tw.tr.Emit("Begin", e)
}

func (tw *tileWorld) token(ref detour.TileRef) int {
	if ref == 0 {
		return 0
	}
	if k, ok := tw.tokOf[ref]; ok {
		return k
	}
	tw.toks = append(tw.toks, &tokInfo{ref: ref})
	tw.tokOf[ref] = len(tw.toks)
	return len(tw.toks)
}

func stRes(st detour.Status) string {
	switch {
	case detour.StatusSucceed(st) && !detour.StatusFailed(st):
		return "ok"
	case detour.StatusFailed(st) && !detour.StatusSucceed(st):
		return "fail"
	}
	return "odd"
}

func hasDetail(st detour.Status, d detour.Status) bool { return st&d != 0 }

// add adds data d, with kind "ok", "magic" or "version".
func (tw *tileWorld) add(d *tileData, kind string, last int, lastRef detour.TileRef) bool {
	data := append([]byte{}, d.data...)
	switch kind {
	case "magic":
		data[tw.r.Intn(4)] ^= 0x21
	case "version":
		data[4+tw.r.Intn(4)] ^= 0x12
	}
	var st detour.Status
	var ref detour.TileRef
	if !tw.tr.try("AddTile", func() { st, ref = tw.m.AddTile(data, lastRef) }) {
		return false
	}
	slot := -1
	tok := 0
	if detour.StatusSucceed(st) {
		tok = tw.token(ref)
		p := tw.pos[d.pos]
		t := tw.m.TileAt(int32(p[0]), int32(p[1]), int32(p[2]))
		for i := range tw.m.Tiles {
			if t == &tw.m.Tiles[i] {
				slot = i
			}
		}
		if tok > 0 {
			tw.toks[tok-1].polys = d.polys
		}
	}
	tw.tr.Emit("Add", M{"p": d.pos + 1, "c": d.content, "np": d.polys, "kind": kind, "last": last,
		"res": stRes(st), "ref": tok, "slot": slot,
		"mg": hasDetail(st, detour.WrongMagic), "vn": hasDetail(st, detour.WrongVersion)})
	return true
}

func (tw *tileWorld) remove(tok int, ref detour.TileRef) bool {
	var st detour.Status
	var data []byte
	if !tw.tr.try("RemoveTile", func() { data, st = tw.m.RemoveTile(ref) }) {
		return false
	}
	got := "none"
	if len(data) > 0 {
		got = "unknown"
		for _, d := range tw.datas {
			if bytes.Equal(d.data, data) {
				got = d.content
			}
		}
	}
	tw.tr.Emit("Remove", M{"t": tok, "res": stRes(st), "data": got})
	return true
}

// obs records everything that can be looked up.
func (tw *tileWorld) obs(full bool) bool {
	e := M{}
	m := tw.m
	ok := tw.tr.try("lookup", func() {
		at, refAt, here := []string{}, []int{}, []M{}
		seen := map[[2]int]bool{}
		for _, p := range tw.pos {
			t := m.TileAt(int32(p[0]), int32(p[1]), int32(p[2]))
			at = append(at, contentOf(t))
			refAt = append(refAt, tw.token(m.TileRefAt(int32(p[0]), int32(p[1]), int32(p[2]))))
			if t != nil && m.TileRef(t) != m.TileRefAt(int32(p[0]), int32(p[1]), int32(p[2])) {
				refAt[len(refAt)-1] = -1
			}
			xy := [2]int{p[0], p[1]}
			if !seen[xy] {
				seen[xy] = true
				buf := make([]*detour.MeshTile, len(tw.pos)+2)
				max := int32(len(buf))
				if tw.r.p(20) {
					max = int32(tw.r.in(0, 2))
				}
				n := m.TilesAt(int32(p[0]), int32(p[1]), buf, max)
				cs := []string{}
				for i := int32(0); i < n && int(i) < len(buf); i++ {
					cs = append(cs, contentOf(buf[i]))
				}
				for i := int(n); i < len(buf); i++ {
					if buf[i] != nil {
						cs = append(cs, "beyond")
					}
				}
				sort.Strings(cs)
				here = append(here, M{"x": p[0], "y": p[1], "c": cs, "max": int(max), "n": int(n)})
			}
		}
		e["at"], e["refAt"], e["here"] = at, refAt, here
		// positions that hold nothing
		none := 0
		for _, p := range [][3]int{{99, 99, 0}, {-77, 12, 0}, {tw.pos[0][0], tw.pos[0][1], 17}, {tw.pos[0][1] + 50, tw.pos[0][0] - 50, 0}} {
			if m.TileAt(int32(p[0]), int32(p[1]), int32(p[2])) != nil || m.TileRefAt(int32(p[0]), int32(p[1]), int32(p[2])) != 0 {
				none++
			}
		}
		e["ghosts"] = none
		refs := []M{}
		ntok := len(tw.toks)
		lo := 0
		if ntok > 48 {
			lo = ntok - 48
		}
		for k := lo; k < ntok; k++ {
			refs = append(refs, tw.obsRef(k))
		}
		e["refs"] = refs
		// null and references of every present polygon
		var all []detour.PolyRef
		zero := 0
		for i := range m.Tiles {
			t := &m.Tiles[i]
			if t.Header == nil {
				continue
			}
			base := detour.PolyRef(m.TileRef(t))
			for p := range t.Polys {
				r := base | detour.PolyRef(p)
				if r == 0 {
					zero++
				}
				all = append(all, r)
			}
		}
		dist := map[detour.PolyRef]bool{}
		for _, r := range all {
			dist[r] = true
		}
		var tp *detour.MeshTile
		var pp *detour.Poly
		nullOK := m.IsValidPolyRef(0) || m.TileByRef(0) != nil || !detour.StatusFailed(m.TileAndPolyByRef(0, &tp, &pp))
		e["total"], e["distinct"], e["zero"], e["nullValid"] = len(all), len(dist), zero, nullOK
		e["digest"] = meshDigest(m)
	})
	if !ok {
		return false
	}
	tw.tr.Emit("Obs", e)
	return true
}

func (tw *tileWorld) obsRef(k int) M {
	m := tw.m
	ti := tw.toks[k]
	byRef := m.TileByRef(ti.ref)
	pv, pr := 0, "none"
	res := 0
	for ip := 0; ip < ti.polys; ip++ {
		ref := detour.PolyRef(ti.ref) | detour.PolyRef(ip)
		if m.IsValidPolyRef(ref) {
			pv++
		}
		var t *detour.MeshTile
		var p *detour.Poly
		st := m.TileAndPolyByRef(ref, &t, &p)
		if detour.StatusFailed(st) {
			continue
		}
		res++
		if t != nil && ip < len(t.Polys) && p == &t.Polys[ip] {
			c := contentOf(t)
			if pr == "none" {
				pr = c
			} else if pr != c {
				pr = "mixed"
			}
		} else {
			pr = "mixed"
		}
	}
	po := 0
	for _, ip := range []int{ti.polys, ti.polys + 1} {
		if ip >= tw.w.MaxPolys {
			continue
		}
		ref := detour.PolyRef(ti.ref) | detour.PolyRef(ip)
		var t *detour.MeshTile
		var p *detour.Poly
		if m.IsValidPolyRef(ref) || !detour.StatusFailed(m.TileAndPolyByRef(ref, &t, &p)) {
			po++
		}
	}
	return M{"t": k + 1, "by": contentOf(byRef), "pv": pv, "res": res, "po": po, "pr": pr}
}

// forged gives references that cannot be honoured: of slots beyond the last.
func (tw *tileWorld) forged() (detour.TileRef, bool) {
	if len(tw.toks) == 0 {
		return 0, false
	}
	base := detour.PolyRef(tw.toks[tw.r.Intn(len(tw.toks))].ref)
	for try := 0; try < 20; try++ {
		ref := base ^ detour.PolyRef(1<<uint(tw.r.Intn(31)))
		var salt, it, ip uint32
		tw.m.DecodePolyID(ref, &salt, &it, &ip)
		if ip == 0 && salt != 0 && it >= uint32(tw.w.MaxTiles) {
			return detour.TileRef(ref), true
		}
	}
	return 0, false
}

func posGrid(r *rng, n int, layers int) [][3]int {
	var ps [][3]int
	seen := map[[3]int]bool{}
	bx, by := r.in(-2, 1), r.in(-2, 1)
	for len(ps) < n {
		p := [3]int{bx + r.in(0, 2), by + r.in(0, 2), r.in(0, layers-1)}
		if r.p(12) { // far away: only its place in the hash matters
			p[0], p[1] = r.in(-300, 300), r.in(-300, 300)
		}
		if seen[p] {
			continue
		}
		seen[p] = true
		ps = append(ps, p)
	}
	return ps
}

func tilesRandom(tr *Trace, r *rng, nops int) {
	maxTiles := []int{1, 2, 3, 4, 5, 7, 9, 16}[r.Intn(8)]
	maxPolys := []int{64, 100, 1 << 9}[r.Intn(3)]
	saltMax := 1 << 20
	small := false
	if r.p(25) { // eight salt bits: wrap around
		small = true
		maxTiles = []int{1, 2, 3, 4}[r.Intn(4)]
		tb := map[int]uint{1: 0, 2: 1, 3: 2, 4: 2}[maxTiles]
		maxPolys = 1 << (24 - tb)
		saltMax = 255
		nops = nops * 3
	}
	npos := maxTiles + r.in(1, 3)
	if maxTiles == 1 {
		npos = 3
	}
	tw := newTileWorld(tr, r, maxTiles, maxPolys, posGrid(r, npos, r.in(1, 3)), 2, small)
	if tw.dead {
		return
	}
	if maxTiles == 1 && r.p(60) {
		// single tile mode
		d := tw.datas[r.Intn(len(tw.datas))]
		kind := "ok"
		data := append([]byte{}, d.data...)
		if r.p(20) {
			kind = "magic"
			data[1] ^= 4
		} else if r.p(20) {
			kind = "version"
			data[5] ^= 4
		}
		var st detour.Status
		if !tr.try("InitForSingleTile", func() { st = tw.m.InitForSingleTile(data, 0) }) {
			return
		}
		tok := 0
		if detour.StatusSucceed(st) {
			tok = tw.token(tw.m.TileRef(&tw.m.Tiles[0]))
			tw.toks[0].polys = d.polys
			tw.w.MaxPolys = d.polys
			// the mesh is configured for tiles of that many polygons
			var ds []*tileData
			for _, x := range tw.datas {
				if x.polys <= d.polys {
					ds = append(ds, x)
				}
			}
			tw.datas = ds
		}
		e := M{"p": d.pos + 1, "c": d.content, "np": d.polys, "kind": kind, "last": 0, "res": stRes(st), "ref": tok, "slot": 0,
			"mg": hasDetail(st, detour.WrongMagic), "vn": hasDetail(st, detour.WrongVersion)}
		if kind != "ok" {
			e["slot"] = -1
			tr.Emit("Begin", M{"maxTiles": 0, "saltMax": saltMax, "pos": tw.pos, "digest": "-"})
			tr.Emit("Single", e)
			return
		}
		tw.begin(saltMax, nil)
		tr.Emit("Add", e)
		if !tw.obs(true) {
			return
		}
	} else {
		if st := tw.m.Init(tw.w.navParams()); detour.StatusFailed(st) {
			tr.Emit("Begin", M{"maxTiles": maxTiles, "saltMax": saltMax, "pos": tw.pos, "digest": "-"})
			tr.Emit("Setup", M{"op": "Init"})
			return
		}
		tw.begin(saltMax, nil)
	}
	obsEvery := 1
	if small && nops > 300 {
		obsEvery = 7
	}
	live := func() (ts []int) {
		for k, t := range tw.toks {
			if x := tw.m.TileByRef(t.ref); x != nil && x.Header != nil {
				ts = append(ts, k+1)
			}
		}
		return
	}
	for i := 0; i < nops; i++ {
		ok := true
		switch c := r.Intn(100); {
		case c < 38:
			d := tw.datas[r.Intn(len(tw.datas))]
			ok = tw.add(d, "ok", 0, 0)
		case c < 44:
			d := tw.datas[r.Intn(len(tw.datas))]
			ok = tw.add(d, []string{"magic", "version"}[r.Intn(2)], 0, 0)
		case c < 60 && len(tw.toks) > 0:
			k := r.Intn(len(tw.toks))
			if r.p(60) && len(tw.toks) > 6 {
				k = len(tw.toks) - 1 - r.Intn(6)
			}
			ok = tw.add(tw.datas[r.Intn(len(tw.datas))], "ok", k+1, tw.toks[k].ref)
		case c < 63:
			if f, y := tw.forged(); y {
				if r.p(50) {
					ok = tw.add(tw.datas[r.Intn(len(tw.datas))], "ok", -1, f)
				} else {
					ok = tw.remove(-1, f)
				}
			}
		case c < 66:
			ok = tw.remove(0, 0)
		case c < 74 && len(tw.toks) > 0:
			k := r.Intn(len(tw.toks))
			ok = tw.remove(k+1, tw.toks[k].ref)
		default:
			if l := live(); len(l) > 0 {
				k := l[r.Intn(len(l))]
				ok = tw.remove(k, tw.toks[k-1].ref)
			}
		}
		if !ok {
			return
		}
		if i%obsEvery == 0 || i == nops-1 {
			if !tw.obs(true) {
				return
			}
		}
	}
}

// tilesSched replays a schedule generated by TLC from TileSlots.
func tilesSched(tr *Trace, r *rng, ops [][]interface{}) {
	pos := [][3]int{{0, 0, 0}, {1, 0, 0}, {0, 0, 1}, {0, 1, 0}}
	tw := newTileWorld(tr, r, 2, 64, pos, 1, true)
	if tw.dead {
		return
	}
	if st := tw.m.Init(tw.w.navParams()); detour.StatusFailed(st) {
		tr.Emit("Setup", M{"op": "Init"})
		return
	}
	tw.begin(1<<20, nil)
	pidx := func(x interface{}) int { return int(x.(string)[0] - 'a') }
	for i, op := range ops {
		ok := true
		switch op[0].(string) {
		case "add":
			ok = tw.add(tw.datas[pidx(op[1])], "ok", 0, 0)
		case "bad":
			ok = tw.add(tw.datas[pidx(op[1])], []string{"magic", "version"}[i%2], 0, 0)
		case "restore":
			k := int(op[2].(float64))
			if k <= len(tw.toks) {
				ok = tw.add(tw.datas[pidx(op[1])], "ok", k, tw.toks[k-1].ref)
			}
		case "remove":
			k := int(op[1].(float64))
			if k <= len(tw.toks) {
				ok = tw.remove(k, tw.toks[k-1].ref)
			}
		}
		if !ok {
			return
		}
		if i >= len(ops)-2 {
			if !tw.obs(true) {
				return
			}
		}
	}
}

func tilesCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		f, err := os.Open(a.Sched)
		if err != nil {
			die(err)
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		i := 0
		for sc.Scan() {
			i++
			if i%a.Shards != a.Shard {
				continue
			}
			var ops [][]interface{}
			if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
				die(err)
			}
			tilesSched(tr, r, ops)
		}
	}
	for i := 0; i < a.N; i++ {
		tilesRandom(tr, r, 60)
	}
}
