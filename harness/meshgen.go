package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/arl/go-detour/detour"
)

// A GWorld is a set of generated tiles on an integer lattice: one lattice unit
// is cs along x and z, ch along y; tile (tx,ty) covers N units from tx*N.
type GWorld struct {
	Cs, Ch     float32
	Orig       [3]float32
	N          int
	Climb10    int // ten times the climb height in ch units
	MinY       int // y of the tile bounds below/above the vertices
	Tiles      []*GTile
	MaxTiles   int
	MaxPolys   int
	ConnRadius float32
}

type GPoly struct {
	V     []int
	Nei   []int // >=0 polygon, -1 wall, -10-d portal in source direction d (0 x-, 1 z+, 2 x+, 3 z-)
	Flags int
	Area  int
}

type GOff struct {
	A, B  [3]int // in 1/4 lattice units relative to the world origin
	Rad4  int    // radius in quarter units
	Bidir bool
	Flags int
	Area  int
	User  uint32
}

type GTile struct {
	K       int // index in world
	X, Y, L int
	Verts   [][3]int // relative to the tile's minimum corner
	Polys   []GPoly
	BV      bool
	Detail  int // 0 none, 1 plain, 2 with extra centre vertex
	DetailY []int
	User    uint32
	Off     []GOff
	BMinY   int
	BMaxY   int
}

type genOpt struct {
	MinGap, MaxGap int
	HolePct        int
	DominoPct      int
	TriPct         int
	WallPct        int // border edges that are no portal
	MaxH           int // vertex height range
	Jitter         bool
	BaseY          int
	InnerPortalPct int
	FlagSet        []int
	AreaMax        int
	FlatBorder     bool
	Merge          int // percentage of inner edges removed where the polygons stay strictly convex
}

func cuts(r *rng, n, lo, hi int) []int {
	for {
		c := []int{0}
		for c[len(c)-1] < n {
			c = append(c, c[len(c)-1]+r.in(lo, hi))
		}
		if c[len(c)-1] == n {
			return c
		}
		// overshoot: try to end the last piece on n
		c = c[:len(c)-1]
		if n-c[len(c)-1] >= lo {
			return append(c, n)
		}
		if r.p(2) {
			c = c[:len(c)-1]
			if len(c) == 0 {
				return []int{0, n}
			}
			return append(c, n)
		}
	}
}

// genTile makes a tile from a lattice of cells with irregular cuts.
func genTile(r *rng, w *GWorld, x, y, l int, o genOpt) *GTile {
	t := &GTile{K: len(w.Tiles), X: x, Y: y, L: l, User: uint32(r.Int31())}
	for {
		xs := cuts(r, w.N, o.MinGap, o.MaxGap)
		zs := cuts(r, w.N, o.MinGap, o.MaxGap)
		if t.build(r, w, xs, zs, o) {
			break
		}
	}
	w.Tiles = append(w.Tiles, t)
	return t
}

func (t *GTile) build(r *rng, w *GWorld, xs, zs []int, o genOpt) bool {
	nx, nz := len(xs)-1, len(zs)-1
	// vertices
	vid := map[[2]int]int{}
	t.Verts = nil
	t.Polys = nil
	pos := map[[2]int][3]int{}
	for i := 0; i <= nx; i++ {
		for j := 0; j <= nz; j++ {
			p := [3]int{xs[i], o.BaseY, zs[j]}
			if o.MaxH > 0 && !(o.FlatBorder && (i == 0 || j == 0 || i == nx || j == nz)) {
				p[1] += r.in(0, o.MaxH)
			}
			if o.Jitter && i > 0 && j > 0 && i < nx && j < nz {
				q := o.MinGap / 4
				p[0] += r.in(-q, q)
				p[2] += r.in(-q, q)
			}
			pos[[2]int{i, j}] = p
		}
	}
	v := func(i, j int) int {
		k := [2]int{i, j}
		if id, ok := vid[k]; ok {
			return id
		}
		id := len(t.Verts)
		vid[k] = id
		t.Verts = append(t.Verts, pos[k])
		return id
	}
	used := map[[2]int]bool{}
	for i := 0; i < nx; i++ {
		for j := 0; j < nz; j++ {
			if r.p(o.HolePct) {
				used[[2]int{i, j}] = true
			}
		}
	}
	var polys [][]int
	border := func(i, j int) bool { return i == 0 || i == nx || j == 0 || j == nz }
	for i := 0; i < nx; i++ {
		for j := 0; j < nz; j++ {
			if used[[2]int{i, j}] {
				continue
			}
			used[[2]int{i, j}] = true
			if !o.Jitter && r.p(o.DominoPct) {
				if r.p(50) && i+1 < nx && !used[[2]int{i + 1, j}] {
					used[[2]int{i + 1, j}] = true
					// along z first, then x: the winding of Recast
					ids := []int{v(i, j), v(i, j+1)}
					if !border(i+1, j+1) || j+1 < nz {
						ids = append(ids, v(i+1, j+1))
					}
					ids = append(ids, v(i+2, j+1), v(i+2, j))
					if j > 0 {
						ids = append(ids, v(i+1, j))
					}
					polys = append(polys, ids)
					continue
				} else if j+1 < nz && !used[[2]int{i, j + 1}] {
					used[[2]int{i, j + 1}] = true
					ids := []int{v(i, j)}
					if i > 0 {
						ids = append(ids, v(i, j+1))
					}
					ids = append(ids, v(i, j+2), v(i+1, j+2))
					if i+1 < nx {
						ids = append(ids, v(i+1, j+1))
					}
					ids = append(ids, v(i+1, j))
					polys = append(polys, ids)
					continue
				}
			}
			q := []int{v(i, j), v(i, j+1), v(i+1, j+1), v(i+1, j)}
			if r.p(o.TriPct) {
				if r.p(50) {
					polys = append(polys, []int{q[0], q[1], q[2]}, []int{q[0], q[2], q[3]})
				} else {
					polys = append(polys, []int{q[0], q[1], q[3]}, []int{q[1], q[2], q[3]})
				}
				continue
			}
			polys = append(polys, q)
		}
	}
	if len(polys) == 0 {
		return false
	}
	if o.Jitter {
		polys = t.split(polys)
	}
	if o.Merge > 0 {
		polys = t.merge(r, polys, o.Merge)
	}
	r.Shuffle(len(polys), func(a, b int) { polys[a], polys[b] = polys[b], polys[a] })
	// rotate the vertex lists
	for k := range polys {
		s := r.Intn(len(polys[k]))
		polys[k] = append(append([]int{}, polys[k][s:]...), polys[k][:s]...)
	}
	// neighbours
	edges := map[[2]int]int{}
	for k, p := range polys {
		for e := range p {
			edges[[2]int{p[e], p[(e+1)%len(p)]}] = k
		}
	}
	for _, p := range polys {
		gp := GPoly{V: p}
		for e := range p {
			a, b := p[e], p[(e+1)%len(p)]
			if k, ok := edges[[2]int{b, a}]; ok {
				gp.Nei = append(gp.Nei, k)
				continue
			}
			va, vb := t.Verts[a], t.Verts[b]
			n := -1
			switch {
			case va[0] == 0 && vb[0] == 0:
				n = -10
			case va[2] == w.N && vb[2] == w.N:
				n = -11
			case va[0] == w.N && vb[0] == w.N:
				n = -12
			case va[2] == 0 && vb[2] == 0:
				n = -13
			}
			if n != -1 && r.p(o.WallPct) {
				n = -1
			} else if n == -1 && r.p(o.InnerPortalPct) {
				switch {
				case va[0] == vb[0] && va[2] < vb[2]:
					n = -10
				case va[0] == vb[0] && va[2] > vb[2]:
					n = -12
				case va[2] == vb[2] && va[0] < vb[0]:
					n = -11
				case va[2] == vb[2] && va[0] > vb[0]:
					n = -13
				}
			}
			gp.Nei = append(gp.Nei, n)
		}
		// at most one portal edge of a polygon per side
		seen := map[int]bool{}
		for e, n := range gp.Nei {
			if n <= -10 {
				if seen[n] {
					gp.Nei[e] = -1
				}
				seen[n] = true
			}
		}
		if len(o.FlagSet) > 0 {
			gp.Flags = o.FlagSet[r.Intn(len(o.FlagSet))]
		} else {
			gp.Flags = 1
		}
		if o.AreaMax > 0 {
			gp.Area = r.in(0, o.AreaMax)
		}
		t.Polys = append(t.Polys, gp)
	}
	t.BMinY, t.BMaxY = 0, o.BaseY+o.MaxH+8
	for range t.Polys {
		t.DetailY = append(t.DetailY, r.in(0, 2))
	}
	return true
}

// merge removes edges between polygons if the result is strictly convex.
func (t *GTile) merge(r *rng, polys [][]int, pct int) [][]int {
	for k := 0; k < len(polys); k++ {
		for m := k + 1; m < len(polys); m++ {
			if !r.p(pct) {
				continue
			}
			if u := t.union(polys[k], polys[m]); u != nil {
				polys[k] = u
				polys = append(polys[:m], polys[m+1:]...)
				m = k
			}
		}
	}
	return polys
}

// split makes triangles of quadrilaterals that are not strictly convex.
func (t *GTile) split(polys [][]int) (res [][]int) {
	for _, p := range polys {
		k := 0
		for len(p) == 4 && k < 4 && t.turn(p[k], p[(k+1)%4], p[(k+2)%4]) > 0 {
			k++
		}
		if len(p) != 4 || k == 4 {
			res = append(res, p)
			continue
		}
		a, b, c, d := p[(k+1)%4], p[(k+2)%4], p[(k+3)%4], p[k]
		res = append(res, []int{a, b, c}, []int{a, c, d})
	}
	return res
}

// turn is positive if the way from a over b to c turns to the inside.
func (t *GTile) turn(a, b, c int) int {
	p, q, s := t.Verts[a], t.Verts[b], t.Verts[c]
	return (q[2]-p[2])*(s[0]-p[0]) - (q[0]-p[0])*(s[2]-p[2])
}

// union of two polygons with a common edge, nil unless strictly convex.
func (t *GTile) union(a, b []int) []int {
	if len(a)+len(b)-2 > 6 {
		return nil
	}
	for i := range a {
		for j := range b {
			if a[i] != b[(j+1)%len(b)] || a[(i+1)%len(a)] != b[j] {
				continue
			}
			var u []int
			for k := range a {
				u = append(u, a[(i+1+k)%len(a)])
			}
			for k := 1; k < len(b)-1; k++ {
				u = append(u, b[(j+1+k)%len(b)])
			}
			for k := range u {
				if t.turn(u[k], u[(k+1)%len(u)], u[(k+2)%len(u)]) <= 0 {
					return nil
				}
			}
			return u
		}
	}
	return nil
}

func (w *GWorld) pos(t *GTile, v int) [3]float32 {
	b := w.bmin(t)
	p := t.Verts[v]
	return [3]float32{b[0] + float32(p[0])*w.Cs, b[1] + float32(p[1])*w.Ch, b[2] + float32(p[2])*w.Cs}
}

func (w *GWorld) bmin(t *GTile) [3]float32 {
	return [3]float32{
		w.Orig[0] + float32(t.X*w.N)*w.Cs,
		w.Orig[1] + float32(t.BMinY)*w.Ch,
		w.Orig[2] + float32(t.Y*w.N)*w.Cs,
	}
}

func (w *GWorld) climb() float32 { return float32(w.Climb10) / 10 * w.Ch }

const nvp = 6

// params gives the source data of a tile for detour.CreateNavMeshData.
func (w *GWorld) params(t *GTile) *detour.NavMeshCreateParams {
	p := &detour.NavMeshCreateParams{}
	b := w.bmin(t)
	p.BMin = b
	p.BMax = [3]float32{b[0] + float32(w.N)*w.Cs, w.Orig[1] + float32(t.BMaxY)*w.Ch, b[2] + float32(w.N)*w.Cs}
	for _, v := range t.Verts {
		p.Verts = append(p.Verts, uint16(v[0]), uint16(v[1]-t.BMinY), uint16(v[2]))
	}
	p.VertCount = int32(len(t.Verts))
	p.Nvp = nvp
	p.PolyCount = int32(len(t.Polys))
	for _, q := range t.Polys {
		vs := make([]uint16, nvp*2)
		for i := range vs {
			vs[i] = 0xffff
		}
		for e := range q.V {
			vs[e] = uint16(q.V[e])
			switch n := q.Nei[e]; {
			case n >= 0:
				vs[nvp+e] = uint16(n)
			case n <= -10:
				vs[nvp+e] = 0x8000 | uint16(-10-n)
			default:
				vs[nvp+e] = 0xffff
				if e%2 == 1 {
					vs[nvp+e] = 0x800f
				}
			}
		}
		p.Polys = append(p.Polys, vs...)
		p.PolyFlags = append(p.PolyFlags, uint16(q.Flags))
		p.PolyAreas = append(p.PolyAreas, uint8(q.Area))
	}
	if t.Detail > 0 {
		for k, q := range t.Polys {
			vb := len(p.DetailVerts) / 3
			tb := len(p.DetailTris) / 4
			var c [3]float32
			for _, v := range q.V {
				x := w.pos(t, v)
				p.DetailVerts = append(p.DetailVerts, x[0], x[1], x[2])
			}
			nv := len(q.V)
			if t.Detail == 2 {
				m := w.centre(t, k)
				c = [3]float32{w.Orig[0] + float32(m[0])*w.Cs/16, w.Orig[1] + float32(m[1])*w.Cs/128, w.Orig[2] + float32(m[2])*w.Cs/16}
				p.DetailVerts = append(p.DetailVerts, c[0], c[1], c[2])
				for e := 0; e < nv; e++ {
					p.DetailTris = append(p.DetailTris, uint8(e), uint8((e+1)%nv), uint8(nv), 1)
				}
			} else {
				for e := 2; e < nv; e++ {
					p.DetailTris = append(p.DetailTris, 0, uint8(e-1), uint8(e), 0x15)
				}
			}
			p.DetailMeshes = append(p.DetailMeshes, int32(vb), int32(len(p.DetailVerts)/3-vb),
				int32(tb), int32(len(p.DetailTris)/4-tb))
		}
		p.DetailVertsCount = int32(len(p.DetailVerts) / 3)
		p.DetailTriCount = int32(len(p.DetailTris) / 4)
	}
	for _, o := range t.Off {
		for _, e := range [][3]int{o.A, o.B} {
			p.OffMeshConVerts = append(p.OffMeshConVerts,
				w.Orig[0]+float32(e[0])*w.Cs/4, w.Orig[1]+float32(e[1])*w.Ch/4, w.Orig[2]+float32(e[2])*w.Cs/4)
		}
		p.OffMeshConRad = append(p.OffMeshConRad, float32(o.Rad4)*w.Cs/4)
		p.OffMeshConFlags = append(p.OffMeshConFlags, uint16(o.Flags))
		p.OffMeshConAreas = append(p.OffMeshConAreas, uint8(o.Area))
		d := uint8(0)
		if o.Bidir {
			d = 1
		}
		p.OffMeshConDir = append(p.OffMeshConDir, d)
		p.OffMeshConUserID = append(p.OffMeshConUserID, o.User)
	}
	p.OffMeshConCount = int32(len(t.Off))
	p.UserID = t.User
	p.TileX, p.TileY, p.TileLayer = int32(t.X), int32(t.Y), int32(t.L)
	p.WalkableHeight = 2
	p.WalkableRadius = w.ConnRadius
	p.WalkableClimb = w.climb()
	p.Cs, p.Ch = w.Cs, w.Ch
	p.BuildBvTree = t.BV
	return p
}

func (w *GWorld) navParams() *detour.NavMeshParams {
	return &detour.NavMeshParams{
		Orig: w.Orig, TileWidth: float32(w.N) * w.Cs, TileHeight: float32(w.N) * w.Cs,
		MaxTiles: uint32(w.MaxTiles), MaxPolys: uint32(w.MaxPolys),
	}
}

// desc describes the tile for the specification.
func (w *GWorld) desc(t *GTile) M {
	vs := [][3]int{}
	for _, v := range t.Verts {
		vs = append(vs, [3]int{t.X*w.N + v[0], v[1], t.Y*w.N + v[2]})
	}
	ps := []M{}
	for _, p := range t.Polys {
		nei := make([]int, len(p.Nei))
		for i, n := range p.Nei {
			switch {
			case n >= 0:
				nei[i] = n + 1 // 1-based polygon
			case n == -1:
				nei[i] = 0
			default:
				nei[i] = map[int]int{-10: -4 - 1, -11: -2 - 1, -12: -0 - 1, -13: -6 - 1}[n] // -1 - side
			}
		}
		vv := make([]int, len(p.V))
		for i, v := range p.V {
			vv[i] = v + 1
		}
		ps = append(ps, M{"v": vv, "n": nei, "f": p.Flags, "a": p.Area})
	}
	return M{"x": t.X, "y": t.Y, "l": t.L, "verts": vs, "polys": ps}
}

func saneFlags(n int) []int {
	f := make([]int, n)
	for i := range f {
		f[i] = 1 << uint(i)
	}
	return f
}

// ---- projections of real tiles

func f2s(f float32) string { return fmt.Sprintf("%08x", math.Float32bits(f)) }

// contentOf is a digest of everything a tile holds except its links, salt and
// place in lists.
func contentOf(t *detour.MeshTile) string {
	if t == nil || t.Header == nil {
		return "none"
	}
	var b strings.Builder
	h := *t.Header
	fmt.Fprintf(&b, "%+v|", h)
	for _, v := range t.Verts {
		b.WriteString(f2s(v))
	}
	for i := range t.Polys {
		p := t.Polys[i]
		p.FirstLink = 0
		fmt.Fprintf(&b, "%v", p)
	}
	fmt.Fprintf(&b, "%v|%v|%v|", t.DetailMeshes, t.DetailTris, t.BvTree)
	for _, v := range t.DetailVerts {
		b.WriteString(f2s(v))
	}
	for _, o := range t.OffMeshCons {
		fmt.Fprintf(&b, "%+v", o)
	}
	fmt.Fprintf(&b, "|%d|%d", t.Flags, t.DataSize)
	return digest([]byte(b.String()))
}

func digest(b []byte) string {
	s := sha1.Sum(b)
	return hex.EncodeToString(s[:6])
}

type linkInfo struct {
	P, E, S, B0, B1 int
	Ref             detour.PolyRef
}

func linksOf(t *detour.MeshTile, p int) (ls []linkInfo, ok bool) {
	n := 0
	for j := t.Polys[p].FirstLink; j != 0xffffffff; {
		if int(j) >= len(t.Links) || n > len(t.Links) {
			return ls, false
		}
		l := t.Links[j]
		ls = append(ls, linkInfo{p, int(l.Edge), int(l.Side), int(l.BMin), int(l.BMax), l.Ref})
		j = l.Next
		n++
	}
	return ls, true
}

func freeLinks(t *detour.MeshTile) int {
	n := 0
	for j := t.LinksFreeList; j != 0xffffffff; n++ {
		if int(j) >= len(t.Links) || n > len(t.Links) {
			return -1
		}
		j = t.Links[j].Next
	}
	return n
}

// meshDigest covers everything observable of a mesh: tiles, references,
// connections.
func meshDigest(m *detour.NavMesh) string {
	var parts []string
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%d:%d:%s:", i, m.TileRef(t), contentOf(t))
		var ls []string
		for p := range t.Polys {
			l, ok := linksOf(t, p)
			if !ok {
				ls = append(ls, "BAD")
			}
			for _, x := range l {
				ls = append(ls, fmt.Sprintf("%v", x))
			}
		}
		sort.Strings(ls)
		b.WriteString(strings.Join(ls, ","))
		fmt.Fprintf(&b, ":%d", freeLinks(t))
		parts = append(parts, b.String())
	}
	fmt.Fprintf(&strings.Builder{}, "")
	return digest([]byte(fmt.Sprintf("%v|%v|%v|%v|%v|%s", m.Params, m.Orig, m.TileWidth, m.TileHeight, m.MaxTiles, strings.Join(parts, ";"))))
}
