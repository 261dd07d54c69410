package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

// C05, C06: saving and loading.

func init() { cmds["persist"] = persistCmd }

// meshState is what the specification knows of a mesh: every tile with its
// slot, reference, content and connections.
func meshState(m *detour.NavMesh) M {
	ts := []M{}
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		var ls []string
		bad := false
		for p := range t.Polys {
			l, ok := linksOf(t, p)
			bad = bad || !ok
			for _, x := range l {
				ls = append(ls, fmt.Sprintf("%v", x))
			}
		}
		sort.Strings(ls)
		full := freeLinks(t) <= 0
		fl := fmt.Sprint(freeLinks(t))
		lk := digest([]byte(strings.Join(ls, ",") + fl))
		if bad {
			lk = "bad"
		}
		if full {
			lk = "full" // connections were dropped for want of records: which ones depends on the order of arrival
		}
		ts = append(ts, M{"slot": i, "ref": fmt.Sprintf("%x", m.TileRef(t)), "c": savedContent(t), "lk": lk})
	}
	return M{"par": digest([]byte(fmt.Sprintf("%v|%v|%v|%v|%v|%v", m.Params, m.Orig, m.TileWidth, m.TileHeight, m.MaxTiles, len(m.Tiles)))),
		"tiles": ts}
}

// savedContent leaves out the tile's memory management flags, which are no
// part of a file.
func savedContent(t *detour.MeshTile) string {
	f := t.Flags
	t.Flags = 0
	c := contentOf(t)
	t.Flags = f
	return c
}

// genOff gives the connections of a world: every tile gets all of them.
func genOff(r *rng, w *GWorld, n int) []GOff {
	var offs []GOff
	anchor := func() ([3]int, *GTile) {
		t := w.Tiles[r.Intn(len(w.Tiles))]
		p := t.Polys[r.Intn(len(t.Polys))]
		var c [3]int
		for _, v := range p.V {
			q := t.Verts[v]
			c[0] += 4 * (t.X*w.N + q[0])
			c[1] += 4 * q[1]
			c[2] += 4 * (t.Y*w.N + q[2])
		}
		for a := range c {
			c[a] /= len(p.V)
		}
		return c, t
	}
	for i := 0; i < n; i++ {
		a, _ := anchor()
		b, _ := anchor()
		j := 3
		if r.p(30) {
			j = 12
		}
		for k := 0; k < 3; k++ {
			d := j
			if k == 1 {
				d = 3
			}
			a[k] += r.in(-d, d)
			b[k] += r.in(-d, d)
		}
		offs = append(offs, GOff{A: a, B: b, Rad4: r.in(2, 12), Bidir: r.p(50), Flags: 1 << uint(r.Intn(4)), Area: r.in(0, 5), User: uint32(900000 + i)})
	}
	return offs
}

type query1 struct {
	ref  detour.PolyRef
	c    d3.Vec3
	size float32
}

func meshQueries(m *detour.NavMesh) []query1 {
	var qs []query1
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		for p := range t.Polys {
			if t.Polys[p].Type() != 0 {
				continue
			}
			po := &t.Polys[p]
			c := detour.CalcPolyCenter(po.Verts[:], int32(po.VertCount), t.Verts)
			qs = append(qs, query1{detour.PolyRef(m.TileRef(t)) | detour.PolyRef(p), c, t.Header.WalkableClimb})
		}
	}
	return qs
}

// answers gives the answers to a bank of queries: in full, and reduced to what
// cannot depend on the order in which tiles arrived.
func answers(m *detour.NavMesh, r *rng) (full, robust string) {
	var fb, rb strings.Builder
	all := meshQueries(m)
	st, q := detour.NewNavMeshQuery(m, 512)
	if detour.StatusFailed(st) || len(all) == 0 {
		return "none", "none"
	}
	for i := 0; i < 14; i++ {
		a, b := all[r.Intn(len(all))], all[r.Intn(len(all))]
		f := detour.NewStandardQueryFilter()
		if i%3 == 1 {
			f.SetIncludeFlags(uint16(r.in(1, 15)))
		}
		if i%4 == 2 {
			f.SetExcludeFlags(uint16(1 << uint(r.Intn(4))))
		}
		for k := int32(0); k < 6; k++ {
			f.SetAreaCost(k, 1)
		}
		path := make([]detour.PolyRef, 128)
		n, st := q.FindPath(a.ref, b.ref, a.c, b.c, f, path)
		fmt.Fprintf(&fb, "P%x%x;", st, path[:n])
		done := n > 0 && path[n-1] == b.ref
		fmt.Fprintf(&rb, "P%v%v;", detour.StatusSucceed(st), done)
		if n > 0 {
			sp := make([]d3.Vec3, 64)
			for k := range sp {
				sp[k] = d3.NewVec3()
			}
			sf := make([]uint8, 64)
			sr := make([]detour.PolyRef, 64)
			c, st := q.FindStraightPath(a.c, b.c, path[:n], sp, sf, sr, int32(i%3))
			fmt.Fprintf(&fb, "S%x%v%v%x;", st, sp[:c], sf[:c], sr[:c])
		}
		hn := d3.NewVec3()
		hp := make([]detour.PolyRef, 32)
		hc, ht, st2 := q.Raycast2(a.ref, a.c, b.c, f, hn, hp, 32)
		fmt.Fprintf(&fb, "R%x%x%v%v;", st2, hp[:hc], ht, hn)
		off := d3.NewVec3XYZ(a.c[0]+float32(r.in(-6, 6))/4, a.c[1]+float32(r.in(-2, 2))/4, a.c[2]+float32(r.in(-6, 6))/4)
		st3, ref, pt := q.FindNearestPoly(off, d3.NewVec3XYZ(2, 2, 2), f)
		fmt.Fprintf(&fb, "N%x%x%v;", st3, ref, pt)
		fmt.Fprintf(&rb, "N%v;", ref != 0)
	}
	return digest([]byte(fb.String())), digest([]byte(rb.String()))
}

type persist struct {
	tr    *Trace
	r     *rng
	w     *GWorld
	m     *detour.NavMesh
	data  [][]byte
	refs  []detour.TileRef
	pure  bool // tiles were only ever added, in slot order
	dir   string
	nfile int
	qseed string
	dead  bool
}

func (p *persist) meshEvent() {
	p.tr.Emit("Mesh", M{"m": meshState(p.m)})
}

// save writes the mesh and returns the bytes.
func (p *persist) save() ([]byte, bool) {
	var buf bytes.Buffer
	var err, err2 error
	var size int32
	fn := filepath.Join(p.dir, "m.bin")
	var fb []byte
	if !p.tr.try("ToWriter", func() {
		size = p.m.Size()
		err = p.m.ToWriter(&buf)
		if p.r.p(50) { // an existing, longer file is replaced
			ioutil.WriteFile(fn, bytes.Repeat([]byte{7}, buf.Len()+33), 0644)
		} else {
			os.Remove(fn)
		}
		err2 = p.m.SaveToFile(fn)
		fb, _ = ioutil.ReadFile(fn)
	}) {
		return nil, false
	}
	p.nfile++
	seed := p.r.Int63()
	p.qseed = fmt.Sprint(seed)
	full, rob := "", ""
	if !p.tr.try("queries", func() { full, rob = answers(p.m, newRng(seed, "q")) }) {
		return nil, false
	}
	p.tr.Emit("Save", M{"ok": err == nil && err2 == nil, "size": size, "len": buf.Len(), "flen": len(fb), "id": p.nfile,
		"b": digest(buf.Bytes()), "fb": digest(fb), "m": meshState(p.m), "q": full, "qr": rob, "pure": p.pure})
	return buf.Bytes(), true
}

// chunked delivers data in given pieces and ends with err (io.EOF or a failure).
type chunked struct {
	data  []byte
	next  func() int
	err   error
	early bool // give the error together with the last bytes
}

func (c *chunked) Read(b []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.err
	}
	n := c.next()
	if n > len(b) {
		n = len(b)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	if n < 1 {
		n = 1
	}
	if len(b) == 0 {
		return 0, nil
	}
	copy(b, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.early {
		return n, c.err
	}
	return n, nil
}

func (p *persist) load(data []byte, seed string, rd io.Reader, how string) (*detour.NavMesh, bool) {
	var m *detour.NavMesh
	var err error
	if !p.tr.try("Decode", func() { m, err = detour.Decode(rd) }) {
		return nil, false
	}
	e := M{"id": p.nfile, "ok": err == nil && m != nil, "how": how}
	if err == nil && m != nil {
		if !p.tr.try("queries", func() {
			var s int64
			fmt.Sscan(seed, &s)
			e["q"], e["qr"] = answers(m, newRng(s, "q"))
		}) {
			return nil, false
		}
		var buf, buf2 bytes.Buffer
		size := int32(0)
		if !p.tr.try("ToWriter", func() {
			size = m.Size()
			err = m.ToWriter(&buf)
			var m2 *detour.NavMesh
			m2, err = detour.Decode(bytes.NewReader(buf.Bytes()))
			if err == nil {
				err = m2.ToWriter(&buf2)
			}
		}) {
			return nil, false
		}
		e["b2"] = digest(buf2.Bytes())
		e["b"], e["len"], e["size"] = digest(buf.Bytes()), buf.Len(), size
		e["m"] = meshState(m)
	}
	p.tr.Emit("Load", e)
	return m, true
}

var errBroken = errors.New("stream is broken")

// cuts tries to read every prefix in [lo,hi) and lists those not refused.
func (p *persist) cuts(data []byte, lo, hi int, kind string) bool {
	acc := []int{}
	cur := lo
	ok := p.tr.try("Decode of a cut stream", func() {
		for k := lo; k < hi; k++ {
			cur = k
			step := p.r.in(1, 64)
			rd := &chunked{data: data[:k], next: func() int { return step }, err: io.EOF}
			if kind == "fail" {
				rd.err = errBroken
			}
			rd.early = p.r.p(30)
			var src io.Reader = rd
			if kind == "eof" && p.r.p(30) {
				src = bytes.NewReader(data[:k])
			}
			m, err := detour.Decode(src)
			if err == nil || m != nil {
				acc = append(acc, k)
			}
		}
	})
	_ = cur
	if ok {
		p.tr.Emit("Cuts", M{"id": p.nfile, "lo": lo, "hi": hi, "kind": kind, "acc": acc})
	}
	return ok
}

// layout gives the offsets of the records of a file: set header, tile headers and bodies.
func layout(data []byte, ntiles int) []int {
	var p detour.NavMeshParams
	hs := 12 + binary.Size(p)
	offs := []int{0, hs}
	at := hs
	for i := 0; i < ntiles; i++ {
		sz := int(binary.LittleEndian.Uint32(data[at+4:]))
		at += 8
		offs = append(offs, at)
		at += sz
		offs = append(offs, at)
	}
	return offs
}

type limitWriter struct {
	n     int
	short bool
}

func (w *limitWriter) Write(b []byte) (int, error) {
	if len(b) <= w.n {
		w.n -= len(b)
		return len(b), nil
	}
	n := w.n
	w.n = 0
	if !w.short {
		n = 0
	}
	return n, errBroken
}

func (p *persist) writeFaults(total int) bool {
	acc := []int{}
	var at []int
	ok := p.tr.try("ToWriter to a failing destination", func() {
		for i := 0; i < 60; i++ {
			k := i
			if i >= 20 {
				k = p.r.Intn(total)
			}
			if i >= 55 {
				k = total - 1 - (i - 55)
			}
			if k < 0 {
				continue
			}
			at = append(at, k)
			if err := p.m.ToWriter(&limitWriter{n: k, short: p.r.p(50)}); err == nil {
				acc = append(acc, k)
			}
		}
		// places that cannot be written
		for i, fn := range []string{"/dev/full", p.dir, filepath.Join(p.dir, "no", "such", "dir")} {
			if err := p.m.SaveToFile(fn); err == nil {
				acc = append(acc, -1-i)
			}
		}
	})
	if ok {
		p.tr.Emit("WriteFaults", M{"acc": acc, "m": meshState(p.m)})
	}
	return ok
}

// flips damages magic numbers and versions of the file and of its tiles.
func (p *persist) flips(data []byte, ntiles int) bool {
	acc := []int{}
	off := layout(data, ntiles)
	var pos []int
	for i := 0; i < 8; i++ {
		pos = append(pos, i)
	}
	for i := 0; i < ntiles; i++ {
		for k := 0; k < 8; k++ {
			pos = append(pos, off[2+2*i]+k)
		}
	}
	ok := p.tr.try("Decode of a damaged stream", func() {
		for _, k := range pos {
			for _, b := range []byte{1 << uint(p.r.Intn(8)), byte(p.r.in(1, 255))} {
				d := append([]byte{}, data...)
				d[k] ^= b
				m, err := detour.Decode(bytes.NewReader(d))
				if err == nil || m != nil {
					acc = append(acc, k)
				}
			}
		}
	})
	if ok {
		p.tr.Emit("Flips", M{"id": p.nfile, "n": len(pos), "acc": acc})
	}
	return ok
}

func newPersist(tr *Trace, r *rng, dir string, ntiles int, single, big bool) *persist {
	p := &persist{tr: tr, r: r, dir: dir, pure: true}
	w := &GWorld{Cs: 0.5, Ch: 0.25, Orig: [3]float32{float32(r.in(-40, 40)), float32(r.in(-4, 4)), float32(r.in(-40, 40))}, N: 16,
		Climb10: 13, MaxTiles: []int{1, 4, 8, 13}[r.Intn(4)], MaxPolys: 128}
	if ntiles > w.MaxTiles {
		w.MaxTiles = ntiles + r.in(0, 3)
	}
	o := genOpt{MinGap: 4, MaxGap: 8, HolePct: 15, DominoPct: 20, TriPct: 20, WallPct: 10, MaxH: 3, BaseY: 8,
		FlagSet: []int{1, 2, 4, 8, 15}, AreaMax: 5}
	if big { // vertex indices beyond a third of 16 bits
		w.N, w.MaxPolys = 680, 1<<15
		o.DominoPct, o.MaxGap = 0, 4
	}
	// a connection that ends in several layers takes the end position of the
	// one that arrived last: not both
	layers := r.p(40)
	seen := map[[3]int]bool{}
	for len(w.Tiles) < ntiles {
		q := [3]int{r.in(-1, 1), r.in(-1, 1), 0}
		if layers && r.p(40) {
			q[2] = 1
		}
		if seen[q] {
			continue
		}
		seen[q] = true
		t := genTile(r, w, q[0], q[1], q[2], o)
		t.BV = r.p(60)
		t.Detail = r.in(0, 2)
		if r.p(40) { // other bounds
			t.BMinY = r.in(0, 4)
		}
	}
	if !layers && ntiles > 0 && r.p(80) {
		offs := genOff(r, w, r.in(1, 4))
		for _, t := range w.Tiles {
			t.Off = offs
		}
	}
	p.w = w
	p.m = &detour.NavMesh{}
	if !tr.try("CreateNavMeshData", func() {
		for _, t := range w.Tiles {
			d, err := mkData(w, t)
			if err != nil {
				panic(err)
			}
			p.data = append(p.data, d)
		}
	}) {
		return nil
	}
	p.refs = make([]detour.TileRef, ntiles)
	tr.Emit("Begin", M{"tiles": ntiles})
	ok := tr.try("AddTile", func() {
		if single && ntiles == 1 {
			p.m.InitForSingleTile(append([]byte{}, p.data[0]...), r.in(0, 1))
			p.refs[0] = p.m.TileRef(&p.m.Tiles[0])
			return
		}
		if detour.StatusFailed(p.m.Init(w.navParams())) {
			panic("Init failed")
		}
		for k := range w.Tiles {
			p.add(k)
		}
	})
	if !ok {
		return nil
	}
	return p
}

func (p *persist) add(k int) {
	st, ref := p.m.AddTile(append([]byte{}, p.data[k]...), 0)
	if detour.StatusFailed(st) {
		panic("AddTile failed")
	}
	p.refs[k] = ref
}

// change makes a run time change.
func (p *persist) change() bool {
	return p.tr.try("change", func() {
		switch c := p.r.Intn(4); {
		case c == 0 && len(p.refs) > 0:
			k := p.r.Intn(len(p.refs))
			p.pure = false
			if p.refs[k] != 0 {
				if _, st := p.m.RemoveTile(p.refs[k]); detour.StatusFailed(st) {
					panic("RemoveTile failed")
				}
				p.refs[k] = 0
			} else {
				p.add(k)
			}
		default:
			for i := range p.m.Tiles {
				t := &p.m.Tiles[i]
				if t.Header == nil || p.r.p(40) {
					continue
				}
				for n := p.r.in(1, 4); n > 0; n-- {
					q := &t.Polys[p.r.Intn(len(t.Polys))]
					if p.r.p(50) {
						q.Flags = uint16(p.r.Intn(1 << 16))
					} else {
						q.SetArea(uint8(p.r.Intn(64)))
					}
				}
			}
		}
	})
}

func persistRound(tr *Trace, r *rng, a *Args, opt string, big bool) {
	nt := r.in(1, 5)
	if r.p(8) {
		nt = 0
	}
	single := false
	if r.p(15) {
		nt, single = 1, true
	}
	if opt == "c06" {
		nt = r.in(1, 2)
	}
	if big {
		nt = 1
	}
	p := newPersist(tr, r, a.Dir, nt, single, big)
	if p == nil {
		return
	}
	p.meshEvent()
	for round := 0; round < 3; round++ {
		if round > 0 {
			if single && r.p(50) {
				p.pure = true
			}
			for n := r.in(1, 3); n > 0; n-- {
				if !p.change() {
					return
				}
			}
			p.meshEvent()
		}
		data, ok := p.save()
		if !ok {
			return
		}
		here := 0
		for i := range p.m.Tiles {
			if p.m.Tiles[i].Header != nil {
				here++
			}
		}
		if opt == "c06" {
			if !p.writeFaults(len(data)) || !p.flips(data, here) {
				return
			}
			if round == 0 && a.Tier == "thorough" || len(data) < 2500 {
				for lo := 0; lo < len(data); lo += 500 {
					hi := lo + 500
					if hi > len(data) {
						hi = len(data)
					}
					if !p.cuts(data, lo, hi, "eof") || !p.cuts(data, lo, hi, "fail") {
						return
					}
				}
			} else {
				off := layout(data, here)
				for _, o := range off {
					lo, hi := o-12, o+12
					if lo < 0 {
						lo = 0
					}
					if hi > len(data) {
						hi = len(data)
					}
					if !p.cuts(data, lo, hi, []string{"eof", "fail"}[r.Intn(2)]) {
						return
					}
				}
				for n := 0; n < 40; n++ {
					k := r.Intn(len(data))
					if !p.cuts(data, k, k+1, []string{"eof", "fail"}[n%2]) {
						return
					}
				}
			}
			if _, ok := p.load(data, p.qseed, bytes.NewReader(data), "whole"); !ok {
				return
			}
			continue
		}
		// the seed of the query bank of the last save
		for n := 0; n < 3; n++ {
			how := []string{"whole", "bytes", "random"}[n]
			var rd io.Reader = bytes.NewReader(data)
			switch how {
			case "bytes":
				rd = &chunked{data: data, next: func() int { return 1 }, err: io.EOF, early: r.p(50)}
			case "random":
				mx := []int{3, 17, 200, 5000}[r.Intn(4)]
				rd = &chunked{data: data, next: func() int { return r.in(1, mx) }, err: io.EOF, early: r.p(50)}
				if r.p(30) {
					f, err := os.Open(filepath.Join(p.dir, "m.bin"))
					if err != nil {
						die(err)
					}
					defer f.Close()
					rd = bufio.NewReaderSize(f, 16)
				}
			}
			m, ok := p.load(data, p.qseed, rd, how)
			if !ok {
				return
			}
			if n == 2 && m != nil && r.p(50) {
				// carry on with the loaded mesh
				p.m = m
			}
		}
		p.meshEvent()
	}
}


func persistSched(tr *Trace, r *rng, a *Args) {
	f, err := os.Open(a.Sched)
	if err != nil {
		die(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	i := 0
	var p *persist
	var data []byte
	var off []int
	used := 0
	for sc.Scan() {
		i++
		if i%a.Shards != a.Shard {
			continue
		}
		var s []interface{}
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			die(err)
		}
		if p == nil || used == 40 {
			used = 0
			p = newPersist(tr, r, a.Dir, 2, false, false)
			if p == nil {
				return
			}
			p.meshEvent()
			var ok bool
			if data, ok = p.save(); !ok {
				return
			}
			off = layout(data, 2)
		}
		used++
		unit := func(u int) int { // byte position of a position of the model
			if u%2 == 0 {
				return off[u/2]
			}
			return r.in(off[u/2]+1, off[u/2+1]-1)
		}
		cut := unit(int(s[0].(float64)))
		var sizes []int
		pos, at := 0, 0
		for _, x := range s[3].([]interface{}) {
			pos += int(x.(float64))
			b := cut
			if pos != int(s[0].(float64)) {
				b = unit(pos)
			}
			sizes = append(sizes, b-at)
			at = b
		}
		k := 0
		rd := &chunked{data: data[:cut], err: io.EOF, early: r.p(50), next: nil}
		if s[1].(float64) == 1 {
			rd.err = errBroken
			rd.early = rd.early && cut < len(data)
		}
		left := 0
		rd.next = func() int {
			if left == 0 && k < len(sizes) {
				left = sizes[k]
				k++
			}
			return left
		}
		orig := rd
		wrapped := readerFunc(func(b []byte) (int, error) {
			n, err := orig.Read(b)
			left -= n
			if left < 0 {
				left = 0
			}
			return n, err
		})
		var m *detour.NavMesh
		var err error
		if !tr.try("Decode", func() { m, err = detour.Decode(wrapped) }) {
			return
		}
		e := M{"id": p.nfile, "whole": cut == len(data), "want": s[2].(float64) == 1, "ok": err == nil && m != nil, "nil": m == nil}
		if err == nil && m != nil {
			e["m"] = meshState(m)
		}
		tr.Emit("Stream", e)
	}
}

type readerFunc func(b []byte) (int, error)

func (f readerFunc) Read(b []byte) (int, error) { return f(b) }

func persistCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		persistSched(tr, r, a)
	}
	for i := 0; i < a.N; i++ {
		persistRound(tr, r, a, a.Opt, i == 0 && a.Shard == 0 && a.Opt == "")
	}
}
