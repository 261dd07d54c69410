package detour_test

import (
	"bytes"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

var _ = bytes.NewReader

type dOff struct {
	ax, ay, az, bx, by, bz, rad float32
	flags                       uint16
	bidir                       bool
}

// dTile is a tile of square cells of 4 voxels; one string per row along z,
// '.' is a hole, 'a' a polygon with flags 1, 'b' with flags 2, 'c' 4, ...
// '0'..'9' one with flags 1 and that area.
type dTile struct {
	x, y, layer int32
	rows        []string
	h           int // height of the floor in voxels
	ch          float32
	bv          bool
	off         []dOff
	tris        bool // cells are two triangles each
	deep        int  // extra height of the corners at odd places
}

func (d dTile) data(t testing.TB) []byte {
	const nvp = 6
	n := len(d.rows)
	w := n * 4
	if d.ch == 0 {
		d.ch = 1
	}
	ox, oz := float32(int(d.x)*w), float32(int(d.y)*w)
	p := &detour.NavMeshCreateParams{}
	p.BMin = [3]float32{ox, 0, oz}
	p.BMax = [3]float32{ox + float32(w), 40 * d.ch, oz + float32(w)}
	vid := map[[2]int]uint16{}
	vert := func(i, j int) uint16 {
		k := [2]int{i, j}
		if v, ok := vid[k]; ok {
			return v
		}
		v := uint16(len(vid))
		vid[k] = v
		h := d.h
		if (i+j)%2 == 1 {
			h += d.deep
		}
		p.Verts = append(p.Verts, uint16(4*i), uint16(h), uint16(4*j))
		return v
	}
	var polys [][]uint16
	for j, row := range d.rows {
		for i, c := range row {
			if c == '.' {
				continue
			}
			v := []uint16{vert(i, j), vert(i, j+1), vert(i+1, j+1), vert(i+1, j)}
			fl, area := uint16(1), uint8(0)
			if c >= 'a' {
				fl = 1 << uint(c-'a')
			} else {
				area = uint8(c - '0')
			}
			add := func(q ...uint16) {
				polys = append(polys, q)
				p.PolyFlags = append(p.PolyFlags, fl)
				p.PolyAreas = append(p.PolyAreas, area)
			}
			if d.tris {
				add(v[0], v[1], v[2])
				add(v[0], v[2], v[3])
			} else {
				add(v...)
			}
		}
	}
	edges := map[[2]uint16]int{}
	for k, q := range polys {
		for e := range q {
			edges[[2]uint16{q[e], q[(e+1)%len(q)]}] = k
		}
	}
	for _, q := range polys {
		vs := make([]uint16, 2*nvp)
		for i := range vs {
			vs[i] = 0xffff
		}
		for e := range q {
			a, b := q[e], q[(e+1)%len(q)]
			vs[e] = a
			if k, ok := edges[[2]uint16{b, a}]; ok {
				vs[nvp+e] = uint16(k)
				continue
			}
			xa, za, xb, zb := int(p.Verts[3*a]), int(p.Verts[3*a+2]), int(p.Verts[3*b]), int(p.Verts[3*b+2])
			switch {
			case xa == 0 && xb == 0:
				vs[nvp+e] = 0x8000
			case za == w && zb == w:
				vs[nvp+e] = 0x8001
			case xa == w && xb == w:
				vs[nvp+e] = 0x8002
			case za == 0 && zb == 0:
				vs[nvp+e] = 0x8003
			}
		}
		p.Polys = append(p.Polys, vs...)
	}
	for _, o := range d.off {
		p.OffMeshConVerts = append(p.OffMeshConVerts, o.ax, o.ay, o.az, o.bx, o.by, o.bz)
		p.OffMeshConRad = append(p.OffMeshConRad, o.rad)
		p.OffMeshConFlags = append(p.OffMeshConFlags, o.flags)
		p.OffMeshConAreas = append(p.OffMeshConAreas, 0)
		b := uint8(0)
		if o.bidir {
			b = 1
		}
		p.OffMeshConDir = append(p.OffMeshConDir, b)
		p.OffMeshConUserID = append(p.OffMeshConUserID, 7)
	}
	p.OffMeshConCount = int32(len(d.off))
	p.VertCount = int32(len(p.Verts) / 3)
	p.PolyCount = int32(len(polys))
	p.Nvp = nvp
	p.TileX, p.TileY, p.TileLayer = d.x, d.y, d.layer
	p.WalkableHeight, p.WalkableRadius, p.WalkableClimb = 2, 0.5, 1
	p.Cs, p.Ch = 1, d.ch
	p.BuildBvTree = d.bv
	b, err := detour.CreateNavMeshData(p)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func dMesh(t testing.TB, cells, maxTiles int) *detour.NavMesh {
	m := &detour.NavMesh{}
	w := float32(cells * 4)
	p := detour.NavMeshParams{TileWidth: w, TileHeight: w, MaxTiles: uint32(maxTiles), MaxPolys: 64}
	if st := m.Init(&p); detour.StatusFailed(st) {
		t.Fatal("init")
	}
	return m
}

func dAdd(t testing.TB, m *detour.NavMesh, d dTile) detour.TileRef {
	st, ref := m.AddTile(d.data(t), 0)
	if detour.StatusFailed(st) {
		t.Fatal("add", d)
	}
	return ref
}

func dQuery(t testing.TB, m *detour.NavMesh, nodes int32) *detour.NavMeshQuery {
	st, q := detour.NewNavMeshQuery(m, nodes)
	if detour.StatusFailed(st) {
		t.Fatal("query")
	}
	return q
}

func dAt(t testing.TB, q *detour.NavMeshQuery, x, y, z float32) (detour.PolyRef, d3.Vec3) {
	p := d3.Vec3{x, y, z}
	st, ref, _ := q.FindNearestPoly(p, d3.Vec3{0.25, 3, 0.25}, detour.NewStandardQueryFilter())
	if detour.StatusFailed(st) || ref == 0 {
		t.Fatal("no polygon at", p)
	}
	return ref, p
}

// dLinks gives the polygons a polygon is linked with.
func dLinks(t testing.TB, m *detour.NavMesh, ref detour.PolyRef) (res []detour.PolyRef) {
	var tile *detour.MeshTile
	var poly *detour.Poly
	if detour.StatusFailed(m.TileAndPolyByRef(ref, &tile, &poly)) {
		t.Fatal("no polygon", ref)
	}
	for i := poly.FirstLink; i != 0xffffffff; i = tile.Links[i].Next {
		res = append(res, tile.Links[i].Ref)
	}
	return
}
