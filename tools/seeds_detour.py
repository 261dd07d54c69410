Q, M = 'detour/query.go', 'detour/mesh.go'
SEEDS = []
def seed(id, property, needs, breaks, edits, test, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, test=test, **k))

seed('layer-chain', 'C01', 'three tiles in one bucket of the position table (layers of one position), the middle one of the chain removed',
     'removing a tile cuts the chain of its bucket: tiles added earlier at the same position are no longer found',
     [(M, 'prev.Next = cur.Next', 'prev.Next = nil')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 2, 8)
	for l := int32(0); l < 4; l++ {
		dAdd(t, m, dTile{layer: l, rows: []string{"aa", "aa"}, h: int(8 * l)})
	}
	if _, st := m.RemoveTile(m.TileRef(m.TileAt(0, 0, 2))); detour.StatusFailed(st) {
		t.Fatal("remove")
	}
	for _, l := range []int32{0, 1, 3} {
		if m.TileAt(0, 0, l) == nil {
			t.Error("layer lost", l)
		}
	}
}''')

seed('one-past', 'C02', 'a polygon reference whose polygon number is exactly the number of polygons of its tile',
     'a reference one past the last polygon of a present tile is reported valid and resolving it panics',
     [(M, '''	if ip >= uint32(m.Tiles[it].Header.PolyCount) {
		return false
	}''', '''	if ip > uint32(m.Tiles[it].Header.PolyCount) {
		return false
	}''')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 2, 4)
	dAdd(t, m, dTile{rows: []string{"aa", "a."}})
	q := dQuery(t, m, 64)
	ref, _ := dAt(t, q, 2, 0, 2)
	base := ref &^ 63
	for i := detour.PolyRef(0); i < 64; i++ {
		if m.IsValidPolyRef(base|i) != (i < 3) {
			t.Error("polygon number", i)
		}
	}
}''')

seed('first-only', 'C04', 'a polygon with more than one link into the tile that is removed (an edge and a landing off-mesh connection)',
     'only the first of several links of a polygon into a removed tile is taken away',
     [(M, '''				freeLink(tile, j)
				j = nj
''', '''				freeLink(tile, j)
				break
''')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 2, 4)
	dAdd(t, m, dTile{rows: []string{"aa", "aa"}})
	b := dAdd(t, m, dTile{x: 1, rows: []string{"aa", "aa"}, off: []dOff{{14, 0, 2, 6, 0, 2, 1, 1, true}}})
	q := dQuery(t, m, 64)
	ref, _ := dAt(t, q, 6, 0, 2)
	if len(dLinks(t, m, ref)) != 4 {
		t.Fatal("links before", dLinks(t, m, ref))
	}
	m.RemoveTile(b)
	for _, l := range dLinks(t, m, ref) {
		if !m.IsValidPolyRef(l) {
			t.Error("link into the removed tile", l)
		}
	}
}''')

seed('save-gap', 'C05', 'a free slot before an occupied one (a tile removed before others that stay)',
     'saving stops at the first free slot although the header announces all tiles',
     [(M, '''		tile := &m.Tiles[i]
		if tile.DataSize == 0 {
			continue
		}

		var tileHeader''', '''		tile := &m.Tiles[i]
		if tile.DataSize == 0 {
			break
		}

		var tileHeader''')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 2, 4)
	a := dAdd(t, m, dTile{rows: []string{"aa", "aa"}})
	dAdd(t, m, dTile{x: 1, rows: []string{"aa", "aa"}})
	dAdd(t, m, dTile{x: 2, rows: []string{"aa", "aa"}})
	m.RemoveTile(a)
	var buf bytes.Buffer
	if err := m.ToWriter(&buf); err != nil {
		t.Fatal(err)
	}
	n, err := detour.Decode(&buf)
	if err != nil {
		t.Fatal(err)
	}
	for x := int32(0); x < 3; x++ {
		if (n.TileAt(x, 0, 0) != nil) != (x > 0) {
			t.Error("tile", x)
		}
	}
}''')

seed('floor-height', 'C07', 'off-mesh connections, no detail mesh and a tile whose lowest bound is not at height 0',
     'the start points of off-mesh connections are compared with heights relative to the tile: connections starting on the floor are dropped',
     [('detour/navmeshcreate.go', 'h := params.BMin[1] + float32(iv[1])*params.Ch', 'h := float32(iv[1]) * params.Ch')], '''
func TestDemo(t *testing.T) {
	p := &detour.NavMeshCreateParams{}
	p.BMin, p.BMax = [3]float32{0, 50, 0}, [3]float32{8, 60, 8}
	p.Verts = []uint16{0, 1, 0, 0, 1, 8, 8, 1, 8, 8, 1, 0}
	p.VertCount, p.PolyCount, p.Nvp = 4, 1, 4
	p.Polys = []uint16{0, 1, 2, 3, 0x8000, 0x8001, 0x8002, 0x8003}
	p.PolyFlags, p.PolyAreas = []uint16{1}, []uint8{0}
	p.Cs, p.Ch, p.WalkableClimb, p.WalkableHeight, p.WalkableRadius = 1, 1, 1, 2, 1
	p.OffMeshConVerts = []float32{2, 51, 2, 30, 51, 2}
	p.OffMeshConRad, p.OffMeshConFlags, p.OffMeshConAreas = []float32{1}, []uint16{1}, []uint8{0}
	p.OffMeshConDir, p.OffMeshConUserID, p.OffMeshConCount = []uint8{1}, []uint32{9}, 1
	b, err := detour.CreateNavMeshData(p)
	if err != nil {
		t.Fatal(err)
	}
	m := &detour.NavMesh{}
	if st := m.InitForSingleTile(b, 0); detour.StatusFailed(st) {
		t.Fatal("init")
	}
	if n := len(m.TileAt(0, 0, 0).OffMeshCons); n != 1 {
		t.Error("connections:", n)
	}
}''')

seed('off-square', 'C08', 'an off-mesh connection that lands near the corner of a polygon: outside the circle of its radius, inside the square around it',
     'off-mesh connections land on polygons that are farther away than their radius',
     [(M, 'if math32.Sqr(nearestPt[0]-p[0])+math32.Sqr(nearestPt[2]-p[2]) > math32.Sqr(targetCon.Rad) {',
       'if math32.Max(math32.Sqr(nearestPt[0]-p[0]), math32.Sqr(nearestPt[2]-p[2])) > math32.Sqr(targetCon.Rad) {')], '''
func TestDemo(t *testing.T) {
	for _, d := range []float32{0.5, 0.9} {
		m := dMesh(t, 4, 4)
		dAdd(t, m, dTile{rows: []string{"a...", "....", "...a", "...."}, off: []dOff{{2, 0, 2, 12 - d, 0, 8 - d, 1, 8, true}}})
		q := dQuery(t, m, 64)
		a, pa := dAt(t, q, 2, 0, 2)
		b, pb := dAt(t, q, 14, 0, 10)
		path := make([]detour.PolyRef, 10)
		n, st := q.FindPath(a, b, pa, pb, detour.NewStandardQueryFilter(), path)
		if detour.StatusFailed(st) {
			t.Fatal("path")
		}
		if reached := path[n-1] == b; reached != (d < 0.7) {
			t.Error("distance", d, "reached:", reached)
		}
	}
}''')

seed('few-layers', 'C10', 'more than four layers at one tile position',
     'the nearest-polygon query looks at the first four layers of a tile position only',
     [(Q, 'const maxNeis int32 = 32', 'const maxNeis int32 = 4')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 2, 16)
	for l := int32(0); l < 7; l++ {
		dAdd(t, m, dTile{layer: l, rows: []string{"aa", "aa"}, h: int(5 * l)})
	}
	q := dQuery(t, m, 64)
	for l := 0; l < 7; l++ {
		st, ref, _ := q.FindNearestPoly(d3.Vec3{2, float32(5 * l), 2}, d3.Vec3{1, 1, 1}, detour.NewStandardQueryFilter())
		if detour.StatusFailed(st) || ref == 0 {
			t.Error("nothing on layer", l)
		}
	}
}''')

seed('stuck-in-heap', 'C12', 'a cheaper way to a polygon that is already waiting in the open list, and another polygon ahead of it',
     'a node that becomes cheaper keeps its place in the open list, so that dearer nodes are expanded first and dearer paths are returned',
     [('detour/nodequeue.go', '''			q.bubbleUp(i, node)
			return''', '''			q.heap[i] = node
			return''')], '''
type pairFilter struct{ detour.StandardQueryFilter }

func (f *pairFilter) PassFilter(detour.PolyRef, *detour.MeshTile, *detour.Poly) bool { return true }

var round uint32

func step(a, b detour.PolyRef) float32 {
	if b == 0 {
		return 9
	}
	h := (uint32(a)*2654435761 ^ uint32(b)*40503 ^ round*668265263) * 2246822519
	h = (h ^ h>>15) * 3266489917
	return float32(9 + 12*(h>>28))
}
func (f *pairFilter) Cost(pa, pb d3.Vec3, _ detour.PolyRef, _ *detour.MeshTile, _ *detour.Poly, cur detour.PolyRef, _ *detour.MeshTile, _ *detour.Poly,
	next detour.PolyRef, _ *detour.MeshTile, _ *detour.Poly) float32 {
	return step(cur, next)
}

func TestDemo(t *testing.T) {
	m := dMesh(t, 7, 2)
	rows := []string{}
	for j := 0; j < 7; j++ {
		rows = append(rows, "aaaaaaa")
	}
	dAdd(t, m, dTile{rows: rows})
	q := dQuery(t, m, 512)
	for k := 0; k < 4900; k++ {
		round = uint32(k / 49)
		a, pa := dAt(t, q, 2, 0, 2)
		b, pb := dAt(t, q, float32(2+4*(k%7)), 0, float32(2+4*(k/7%7)))
		if a == b {
			continue
		}
		dist := map[detour.PolyRef]float32{a: 0}
		for work := []detour.PolyRef{a}; len(work) > 0; work = work[1:] {
			x := work[0]
			for _, y := range dLinks(t, m, x) {
				d := dist[x] + step(x, y)
				if o, ok := dist[y]; !ok || d < o {
					dist[y] = d
					work = append(work, y)
				}
			}
		}
		path := make([]detour.PolyRef, 60)
		n, _ := q.FindPath(a, b, pa, pb, &pairFilter{}, path)
		cost := float32(0)
		for i := 1; i < n; i++ {
			cost += step(path[i-1], path[i])
		}
		if path[n-1] != b || cost != dist[b] {
			t.Fatal("cost", cost, "cheapest", dist[b])
		}
	}
}''')

seed('one-too-long', 'C13', 'a path that is longer than the result by exactly one polygon',
     'a path cut by one polygon is not reported as cut',
     [(Q, '''	if length > len(path) {
		return pathCount, Success | BufferTooSmall''', '''	if length > len(path)+1 {
		return pathCount, Success | BufferTooSmall''')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 5, 2)
	dAdd(t, m, dTile{rows: []string{"aaaaa", ".....", ".....", ".....", "....."}})
	q := dQuery(t, m, 64)
	a, pa := dAt(t, q, 2, 0, 2)
	b, pb := dAt(t, q, 18, 0, 2)
	for c := 1; c <= 6; c++ {
		_, st := q.FindPath(a, b, pa, pb, detour.NewStandardQueryFilter(), make([]detour.PolyRef, c))
		if short := st&detour.BufferTooSmall != 0; short != (c < 5) {
			t.Error("space for", c, "too small:", short)
		}
	}
}''')

seed('goal-forgets', 'C13', 'a sliced search that reaches the goal after it had to leave out a polygon for want of nodes',
     'a sliced search that reaches the goal no longer says that it ran out of nodes',
     [(Q, '''			details := q.query.status & StatusDetailMask
			q.query.status = Success | details
			if doneIters''', '''			details := q.query.status & PartialResult
			q.query.status = Success | details
			if doneIters''')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 5, 2)
	dAdd(t, m, dTile{rows: []string{"aaaaa", "aaaaa", "aaaaa", "aaaaa", "aaaaa"}})
	hit := false
	for nodes := int32(2); nodes < 27; nodes++ {
		q := dQuery(t, m, nodes)
		a, pa := dAt(t, q, 10, 0, 2)
		b, pb := dAt(t, q, 10, 0, 18)
		st := q.InitSlicedFindPath(a, b, pa, pb, detour.NewStandardQueryFilter(), 0)
		for detour.StatusInProgress(st) {
			st = q.UpdateSlicedFindPath(1, nil)
		}
		full := dQuery(t, m, 500)
		full.InitSlicedFindPath(a, b, pa, pb, detour.NewStandardQueryFilter(), 0)
		full.UpdateSlicedFindPath(1000, nil)
		short := full.NodePool().NodeCount() > nodes
		hit = hit || (short && detour.StatusSucceed(st))
		if out := st&detour.OutOfNodes != 0; out != short {
			t.Error("nodes", nodes, "out of nodes:", out, "needed", full.NodePool().NodeCount())
		}
	}
	if !hit {
		t.Error("no case")
	}
}''')

seed('goal-gone', 'C15', 'the tile of the goal removed between two slices while that of the start stays',
     'a sliced search goes on after the goal has disappeared from the mesh',
     [(Q, '''	// Make sure the request is still valid.
	if !q.nav.IsValidPolyRef(q.query.startRef) || !q.nav.IsValidPolyRef(q.query.endRef) {''',
       '''	// Make sure the request is still valid.
	if !q.nav.IsValidPolyRef(q.query.startRef) && !q.nav.IsValidPolyRef(q.query.endRef) {''')], '''
func TestDemo(t *testing.T) {
	for k := int32(0); k < 2; k++ {
		m := dMesh(t, 3, 8)
		for x := int32(0); x < 3; x++ {
			dAdd(t, m, dTile{x: x, rows: []string{"aaa", "aaa", "aaa"}})
		}
		q := dQuery(t, m, 500)
		a, pa := dAt(t, q, 2, 0, 2)
		b, pb := dAt(t, q, 34, 0, 10)
		q.InitSlicedFindPath(a, b, pa, pb, detour.NewStandardQueryFilter(), 0)
		q.UpdateSlicedFindPath(2, nil)
		m.RemoveTile(m.TileRefAt(2*k, 0, 0))
		if st := q.UpdateSlicedFindPath(1, nil); !detour.StatusFailed(st) {
			t.Error("goes on without tile", 2*k)
		}
	}
}''')

seed('ray-backwards', 'C18', 'a ray that leaves a tile through a partly open edge whose corners run against the axis (side z+ or z-)',
     'partly open edges towards one side stop rays that pass through their opening',
     [(Q, '''				lmin := left[0] + (right[0]-left[0])*(float32(link.BMin)*s)
				lmax := left[0] + (right[0]-left[0])*(float32(link.BMax)*s)
				if lmin > lmax {
					lmin, lmax = lmax, lmin
				}''', '''				lmin := left[0] + (right[0]-left[0])*(float32(link.BMin)*s)
				lmax := left[0] + (right[0]-left[0])*(float32(link.BMax)*s)
				if lmin > lmax {
					lmin = lmax
				}''')], '''
// dWide gives a tile that is one polygon.
func dWide(t *testing.T, x, y int32, w uint16) []byte {
	p := &detour.NavMeshCreateParams{}
	ox, oz := float32(x)*float32(w), float32(y)*float32(w)
	p.BMin, p.BMax = [3]float32{ox, 0, oz}, [3]float32{ox + float32(w), 10, oz + float32(w)}
	p.Verts = []uint16{0, 0, 0, 0, 0, w, w, 0, w, w, 0, 0}
	p.VertCount, p.PolyCount, p.Nvp = 4, 1, 4
	p.Polys = []uint16{0, 1, 2, 3, 0x8000, 0x8001, 0x8002, 0x8003}
	p.PolyFlags, p.PolyAreas = []uint16{1}, []uint8{0}
	p.Cs, p.Ch, p.WalkableClimb, p.WalkableHeight, p.WalkableRadius = 1, 1, 1, 2, 1
	p.TileX, p.TileY = x, y
	b, err := detour.CreateNavMeshData(p)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func TestDemo(t *testing.T) {
	m := dMesh(t, 4, 16)
	m.AddTile(dWide(t, 1, 1, 16), 0)
	rows := []string{"a.a.", "....", "a...", ".a.a"}
	for _, p := range [][2]int32{{0, 1}, {2, 1}, {1, 0}, {1, 2}} {
		dAdd(t, m, dTile{x: p[0], y: p[1], rows: rows})
	}
	q := dQuery(t, m, 64)
	a, pa := dAt(t, q, 24, 0, 24)
	for i := 0; i < 4; i++ {
		for k, e := range []d3.Vec3{{16 + 4*float32(i) + 2, 0, 33}, {16 + 4*float32(i) + 2, 0, 15}} {
			var hit detour.RaycastHit
			hit.Path = make([]detour.PolyRef, 8)
			hit.MaxPath = 8
			pa[0] = e[0]
			q.Raycast(a, pa, e, detour.NewStandardQueryFilter(), 0, &hit, 0)
			open := []byte(rows[3*(1-(1-k))%4])
			if k == 0 {
				open = []byte(rows[0])
			} else {
				open = []byte(rows[3])
			}
			if reached := hit.T > 1; reached != (open[i] == 'a') {
				t.Error("column", i, "side", k, "reached:", reached)
			}
		}
	}
}''')

seed('ray-border', 'C19', 'a ray that crosses a tile border into a polygon the filter forbids',
     'rays enter forbidden polygons of the next tile',
     [(Q, '''			// Skip links based on filter.
			if !filter.PassFilter(link.Ref, nextTile, nextPoly) {''', '''			// Skip links based on filter.
			if link.Side == 0xff && !filter.PassFilter(link.Ref, nextTile, nextPoly) {''')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 2, 8)
	dAdd(t, m, dTile{rows: []string{"ab", "aa"}})
	dAdd(t, m, dTile{x: 1, rows: []string{"aa", "ba"}})
	q := dQuery(t, m, 64)
	f := detour.NewStandardQueryFilter()
	f.SetExcludeFlags(2)
	for _, z := range []float32{2, 6} {
		a, pa := dAt(t, q, 1, 0, z)
		var hit detour.RaycastHit
		hit.Path = make([]detour.PolyRef, 8)
		hit.MaxPath = 8
		q.Raycast(a, pa, d3.Vec3{15, 0, z}, f, 0, &hit, 0)
		for _, x := range hit.Path[:hit.PathCount] {
			if !q.IsValidPolyRef(x, f) {
				t.Error("ray at", z, "enters a forbidden polygon")
			}
		}
	}
}''')

seed('later-version', 'C06', 'a tile whose data carries another version number than the current one, an older one',
     'tile data of an older version is taken for current data',
     [(M, '	if hdr.Version != navMeshVersion {', '	if hdr.Version > navMeshVersion {')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 2, 4)
	dAdd(t, m, dTile{rows: []string{"aa", "aa"}})
	var buf bytes.Buffer
	m.ToWriter(&buf)
	good := buf.Bytes()
	d := dTile{rows: []string{"aa", "aa"}}.data(t)
	at := bytes.Index(good, d[:8])
	if at < 0 {
		t.Fatal("tile not found in the file")
	}
	for _, v := range []byte{0, 3, 6, 8, 200} {
		b := append([]byte{}, good...)
		b[at+4] = v
		if _, err := detour.Decode(bytes.NewReader(b)); err == nil {
			t.Error("accepted version", v)
		}
	}
}''')

seed('one-area', 'C17', 'area crossings asked for, along a corridor that has two changes of area between two corners',
     'after the first crossing of a leg that is not wanted, later ones of that leg are left out',
     [(Q, '''			if fromPoly.Area() == toPoly.Area() {
				continue
			}''', '''			if fromPoly.Area() == toPoly.Area() {
				break
			}''')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 6, 2)
	dAdd(t, m, dTile{rows: []string{"001122", "......", "......", "......", "......", "......"}})
	q := dQuery(t, m, 64)
	a, pa := dAt(t, q, 2, 0, 2)
	b, pb := dAt(t, q, 22, 0, 2)
	path := make([]detour.PolyRef, 10)
	n, _ := q.FindPath(a, b, pa, pb, detour.NewStandardQueryFilter(), path)
	pts := make([]d3.Vec3, 10)
	for i := range pts {
		pts[i] = d3.NewVec3()
	}
	k, _ := q.FindStraightPath(pa, pb, path[:n], pts, make([]uint8, 10), make([]detour.PolyRef, 10), int32(detour.StraightPathAreaCrossings))
	if k != 4 {
		t.Error("points", k, pts[:k])
	}
}''')

seed('too-high-slot', 'C03', 'a reference to restore whose tile number equals the number of tiles, in a mesh whose number of tiles is no power of two',
     'putting a tile back under a reference one past the last slot panics instead of failing',
     [(M, '''		if tileIndex >= m.MaxTiles {
			return Failure | OutOfMemory, 0''', '''		if tileIndex > m.MaxTiles {
			return Failure | OutOfMemory, 0''')], '''
func TestDemo(t *testing.T) {
	big, m := dMesh(t, 2, 4), dMesh(t, 2, 3)
	d := dTile{rows: []string{"aa", "aa"}}.data(t)
	var ref detour.TileRef
	for x := int32(0); x < 4; x++ {
		ref = dAdd(t, big, dTile{x: x, rows: []string{"aa", "aa"}})
	}
	if st, _ := m.AddTile(d, ref); !detour.StatusFailed(st) {
		t.Error("accepted")
	}
}''')


seed('stale-bucket', 'C22', 'a node found again after a clear, being the last one created before it',
     'clearing leaves the node created last in its hash chain, so it is found (closed, with costs) in the next search',
     [('detour/node.go', '''	for idx := range np.first {
		np.first[idx] = nullIdx
	}
	np.nodeCount = 0''', '''	for n := int32(1); n < np.nodeCount; n++ {
		np.first[hashRef(np.nodes[n-1].ID)&uint32(np.hashSize-1)] = nullIdx
	}
	np.nodeCount = 0''')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 2, 4)
	dAdd(t, m, dTile{rows: []string{"aa", "a."}})
	for n := detour.PolyRef(1); n < 5; n++ {
		p := dQuery(t, m, 64).NodePool()
		for i := detour.PolyRef(1); i <= n; i++ {
			p.Node(100*i, 0)
		}
		p.Clear()
		for i := detour.PolyRef(1); i <= n; i++ {
			if p.FindNode(100*i, 0) != nil {
				t.Error("found after clear", n, i)
			}
		}
	}
}''')

seed('queue-rests', 'C21', 'a search on a query object whose previous search stopped with polygons still waiting in the queue',
     'a search starts with what the previous one left in its queue and returns another result than a fresh query object',
     [(Q, '''	q.nodePool.Clear()
	q.openList.clear()

	var (
		startNode, lastBestNode *Node''', '''	q.nodePool.Clear()

	var (
		startNode, lastBestNode *Node''')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 5, 4)
	dAdd(t, m, dTile{rows: []string{"aaaaa", "a.a.a", "aaaaa", "a.a.a", "aaaaa"}})
	f := detour.NewStandardQueryFilter()
	used := dQuery(t, m, 64)
	for a := 0; a < 25; a++ {
		for b := 0; b < 25; b++ {
			if a%5%2*(a/5%2) == 1 || b%5%2*(b/5%2) == 1 {
				continue
			}
			ra, pa := dAt(t, used, float32(4*(a%5)+2), 0, float32(4*(a/5)+2))
			rb, pb := dAt(t, used, float32(4*(b%5)+2), 0, float32(4*(b/5)+2))
			p1, p2 := make([]detour.PolyRef, 30), make([]detour.PolyRef, 30)
			n1, st1 := used.FindPath(ra, rb, pa, pb, f, p1)
			n2, st2 := dQuery(t, m, 64).FindPath(ra, rb, pa, pb, f, p2)
			if n1 != n2 || st1 != st2 {
				t.Fatal(a, b, p1[:n1], p2[:n2], st1, st2)
			}
		}
	}
}''')

seed('previous-unchecked', 'C20', 'a ray with costs given a stale previous polygon (its tile was removed)',
     'a ray accepts a previous polygon that no longer exists and crashes',
     [(Q, '''	if prevRef != 0 && !q.nav.IsValidPolyRef(prevRef) {
		st = Failure | InvalidParam
		return
	}
''', '')], '''
func TestDemo(t *testing.T) {
	m := dMesh(t, 2, 4)
	dAdd(t, m, dTile{rows: []string{"aa", "aa"}})
	b := dAdd(t, m, dTile{x: 1, rows: []string{"aa", "aa"}})
	q := dQuery(t, m, 64)
	ref, p := dAt(t, q, 2, 0, 2)
	prev, _ := dAt(t, q, 10, 0, 2)
	m.RemoveTile(b)
	defer func() {
		if e := recover(); e != nil {
			t.Error("crash", e)
		}
	}()
	hit := &detour.RaycastHit{Path: make([]detour.PolyRef, 8), MaxPath: 8}
	if st := q.Raycast(ref, p, p, detour.NewStandardQueryFilter(), int(detour.RaycastUseCosts), hit, prev); !detour.StatusFailed(st) {
		t.Error("accepted", st)
	}
}''')
