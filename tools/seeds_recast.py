R = 'recast/'
SEEDS = []
def seed(id, property, needs, breaks, edits, test, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, test=test, pkg=k.pop('pkg', 'recast'), **k))

seed('above-field', 'C23', 'a sloped triangle that leaves the field through its top',
     'what lies above the field gets into the field',
     [(R + 'rasterization.go', '			if smin > by {', '			if smin > by+cs {')], '''
func TestDemo(t *testing.T) {
	hf := rField(4, 2, 0, 0, 4)
	recast.RasterizeTriangle(recast.NewBuildContext(false), []float32{0, 3, 0}, []float32{0, 3, 2}, []float32{4, 7, 0}, 63, hf, 1)
	if got := len(rCell(rCompact(hf, 1, 1), 2, 0)); got != 0 {
		t.Error(got)
	}
}''')

seed('climb-chain', 'C24', 'two or more non-walkable steps above each other over a walkable span, each within the climb height of the one below',
     'walkability spreads up a stack of obstacles beyond the climb height',
     [(R + 'filter.go', '				previousWalkable = walkable\n', '				previousWalkable = s.area != nullArea\n')], '''
func TestDemo(t *testing.T) {
	hf := rField(1, 1, 0, 0, 50)
	rBlock(hf, 0, 0, 0, 2, 63)
	rBlock(hf, 0, 0, 3, 4, 0)
	rBlock(hf, 0, 0, 5, 6, 0)
	recast.FilterLowHangingWalkableObstacles(recast.NewBuildContext(false), 2, hf)
	if got := fmt.Sprint(rCell(rCompact(hf, 1, 1), 0, 0)); got != "[[2 1 63] [4 1 63]]" {
		t.Error(got)
	}
}''')

seed('tall-agent', 'C25', 'an agent of more than 127 voxels and an opening of at least 128',
     'openings count as at most 127 voxels high: tall agents do not fit anywhere',
     [(R + 'heightfield.go', 'uint8(int32Clamp(top-bot, 0, 0xff))', 'uint8(int32Clamp(top-bot, 0, 0x7f))')], '''
func TestDemo(t *testing.T) {
	hf := rField(2, 1, 0, 0, 500)
	rBlock(hf, 0, 0, 0, 2, 63)
	rBlock(hf, 1, 0, 0, 3, 63)
	chf := rCompact(hf, 150, 1)
	if recast.GetCon(&chf.Spans[0], 2) != 0 || recast.GetCon(&chf.Spans[1], 0) != 0 {
		t.Error("not connected")
	}
}''')

seed('eroded-again', 'C26', 'spaces made non-walkable (by an earlier erosion or by marking them) before eroding',
     'eroding a second time removes one row less',
     [(R + 'area.go', '''							if chf.Areas[nidx] != nullArea {
								nc++
							}''', '''							if nidx >= 0 {
								nc++
							}''')], '''
func TestDemo(t *testing.T) {
	hf := rField(12, 12, 0, 0, 50)
	for i := 0; i < 144; i++ {
		rBlock(hf, i%12, i/12, 0, 2, 63)
	}
	chf := rCompact(hf, 3, 1)
	ctx := recast.NewBuildContext(false)
	recast.ErodeWalkableArea(ctx, 2, chf)
	recast.ErodeWalkableArea(ctx, 2, chf)
	n := 0
	for _, a := range chf.Areas {
		if a != 0 {
			n++
		}
	}
	if n != 16 {
		t.Error(n)
	}
}''')

seed('other-origin', 'C27', 'a field whose lower corner has different x and z',
     'the cells that are marked are shifted along z by the difference of the origins',
     [(R + 'area.go', 'p[2] = chf.BMin[2] + (float32(z)+0.5)*chf.Cs', 'p[2] = chf.BMin[0] + (float32(z)+0.5)*chf.Cs')], '''
func TestDemo(t *testing.T) {
	hf := rField(6, 6, 4, 2, 50)
	for i := 0; i < 36; i++ {
		rBlock(hf, i%6, i/6, 0, 2, 63)
	}
	chf := rCompact(hf, 3, 1)
	recast.MarkConvexPolyArea(recast.NewBuildContext(false), []float32{5, 0, 4, 9, 0, 4, 9, 0, 6, 5, 0, 6}, 4, 0, 10, 7, chf)
	for z := 0; z < 6; z++ {
		for x := 0; x < 6; x++ {
			want := 63
			if x >= 1 && x < 5 && z >= 2 && z < 4 {
				want = 7
			}
			if got := rCell(chf, x, z)[0][2]; got != want {
				t.Error(x, z, got)
			}
		}
	}
}''')

seed('either-bound', 'C32', 'a triangle that extends its chunk on both upper sides at once',
     'the bounds of chunks are too small along z: searches miss chunks',
     [(R + 'chunkytrimesh.go', '''			bmax[0] = it.bmax[0]
		}
		if it.bmax[1] > bmax[1] {''', '''			bmax[0] = it.bmax[0]
		} else if it.bmax[1] > bmax[1] {''')], '''
func TestDemo(t *testing.T) {
	ig := &recast.InputGeom{}
	obj := "v 0 0 0\\nv 0 0 1\\nv 1 0 0\\nv 5 0 5\\nv 5 0 9\\nv 9 0 5\\nf 1 2 3\\nf 4 5 6\\n"
	if err := ig.LoadOBJMesh(strings.NewReader(obj)); err != nil {
		t.Fatal(err)
	}
	var ids [10]int32
	if n := ig.ChunkyMesh().ChunksOverlappingRect([2]float32{5, 8}, [2]float32{6, 9}, ids[:]); n != 1 {
		t.Error(n)
	}
}''')

seed('many-corners', 'C33', 'a face of more than twelve corners',
     'only the first ten triangles of a face are loaded',
     [(R + 'meshloaderobj.go', 'for i := 2; i < len(p); i++ {', 'for i := 2; i < len(p) && i < 12; i++ {')], '''
func TestDemo(t *testing.T) {
	l := recast.NewMeshLoaderOBJ()
	if err := l.Load(strings.NewReader(strings.Repeat("v 0 0 0\\n", 14)+"f 1 2 3 4 5 6 7 8 9 10 11 12 13 14\\n")); err != nil {
		t.Fatal(err)
	}
	if l.TriCount() != 12 {
		t.Error(l.Tris())
	}
}''')

seed('full-log', 'C34', 'more than 1000 messages since the last reset',
     'the message after the last that fits makes the build panic',
     [(R + 'buildcontext.go', 'ctx.numMessages < maxMessages {', 'ctx.numMessages <= maxMessages {')], '''
func TestDemo(t *testing.T) {
	ctx := recast.NewBuildContext(true)
	for i := 0; i < 1001; i++ {
		ctx.Progressf("m %d", i)
	}
	if ctx.LogCount() != 1000 {
		t.Error(ctx.LogCount())
	}
}''')


seed('small-patch', 'C28', 'a small patch of another area type in the middle of a large part',
     'walkable patches smaller than the minimum size are dropped although they belong to a large part',
     [(R + 'region.go', '''				if neireg.Visited {
					continue''', '''				if neireg.Visited || neireg.AreaType != creg.AreaType {
					continue''')], '''
func TestDemo(t *testing.T) {
	hf := rField(9, 9, 0, 0, 40)
	for i := 0; i < 81; i++ {
		a := uint8(1)
		if i == 40 || i == 41 {
			a = 2
		}
		rBlock(hf, i%9, i/9, 0, 2, a)
	}
	chf := rCompact(hf, 2, 1)
	recast.BuildRegionsMonotone(recast.NewBuildContext(false), chf, 0, 5, 0)
	for i := range chf.Spans {
		if chf.Spans[i].Reg == 0 {
			t.Error("no region for cell", i)
		}
	}
}''')

seed('longer-before', 'C36', 'a configuration written over a longer file',
     'the end of the file that was there remains behind the new configuration',
     [('cmd/recast/cmd/config.go', 'f, err := os.Create(path)', 'f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)')], '''
func TestDemo(t *testing.T) {
	bin, dir := tool(t)
	name := filepath.Join(dir, "my.yml")
	run(t, bin, dir, "", "config", name)
	want, _ := ioutil.ReadFile(name)
	ioutil.WriteFile(name, []byte(strings.Repeat("# a long file\\n", 100)), 0644)
	run(t, bin, dir, "y\\n", "config", name)
	if got, _ := ioutil.ReadFile(name); string(got) != string(want) {
		t.Error(string(got))
	}
}''', pkg='cmd/recast')

seed('enter-after-junk', 'C36', 'an unclear answer, and then just ENTER',
     'the file is overwritten although ENTER means no',
     [('cmd/recast/cmd/utils.go', '''		case 'N', 'n':
			return false
''', '''		case 'N', 'n':
			return false
		default:
			defaultInput = 'y'
''')], '''
func TestDemo(t *testing.T) {
	bin, dir := tool(t)
	name := filepath.Join(dir, "my.yml")
	ioutil.WriteFile(name, []byte("mine"), 0644)
	run(t, bin, dir, "what?\\n\\nn\\n", "config", name)
	if got, _ := ioutil.ReadFile(name); string(got) != "mine" {
		t.Error(string(got))
	}
}''', pkg='cmd/recast')

seed('tie-between-areas', 'C29', 'two areas whose common border has two steps that are equally far from its straight line, either of which is enough',
     'the outlines of the two regions keep different corners: a gap and an overlap between them',
     [(R + 'contour.go', """		// opposite segments.
		if bx > ax || (bx == ax && bz > az) {""", """		// opposite segments.
		next := (*points)[(ai+1)%pn*4+3]
		if bx > ax || (bx == ax && bz > az) || ((next&areaBorder) != 0 && (next&contourRegMask) != 0) {""")], '''
func TestDemo(t *testing.T) {
	hf := rField(12, 10, 0, 0, 50)
	for i := 0; i < 120; i++ {
		x, z, area := i%12, i/12, uint8(1)
		if x < 5 || x < 7 && (z == 4 || z == 5) {
			area = 2
		}
		rBlock(hf, x, z, 0, 2, area)
	}
	cset, _ := rMesh(rCompact(hf, 3, 1), 0, 1.5, 6)
	type side [4]int32
	at := func(c *recast.Contour, j int32) (v side) {
		k := (j + 1) % c.NVerts
		return side{c.Verts[j*4], c.Verts[j*4+2], c.Verts[k*4], c.Verts[k*4+2]}
	}
	all := map[side]bool{}
	for i := range cset.Conts[:cset.NConts] {
		for j := int32(0); j < cset.Conts[i].NVerts; j++ {
			all[at(&cset.Conts[i], j)] = true
		}
	}
	for i := range cset.Conts[:cset.NConts] {
		c := &cset.Conts[i]
		for j := int32(0); j < c.NVerts; j++ {
			s := at(c, j)
			if c.Verts[j*4+3]&0xffff != 0 && !all[side{s[2], s[3], s[0], s[1]}] {
				t.Error("side of one region only", s)
			}
		}
	}
}''')

seed('area-mixup', 'C29', 'a tile with a border and two areas, where a corner between two regions of the same area lies on the border of the tile',
     'polygons get the area of a polygon that was removed',
     [(R + 'mesh.go', """			mesh.Areas[i] = mesh.Areas[mesh.NPolys-1]
			mesh.NPolys--""", """			mesh.NPolys--""")], '''
func TestDemo(t *testing.T) {
	for k := 0; k < 60; k++ {
		hf := rField(12, 12, 0, 0, 50)
		for i := 0; i < 144; i++ {
			x, z, area := i%12, i/12, uint8(1)
			if z >= 6 {
				area = 2
			}
			if (x*7+z*5+k*3)%11 == 0 || (x+z*3+k)%13 == 4 {
				area = 0
			}
			rBlock(hf, x, z, 0, 2, area)
		}
		cset, pm := rMesh(rCompact(hf, 3, 1), 2, 0, 6)
		is := map[uint16]uint8{}
		for _, c := range cset.Conts[:cset.NConts] {
			is[c.Reg] = c.Area
		}
		for i := int32(0); i < pm.NPolys; i++ {
			if pm.Regs[i] != 0 && pm.Areas[i] != is[pm.Regs[i]] {
				t.Error(k, "region", pm.Regs[i], "area", is[pm.Regs[i]], "polygon of area", pm.Areas[i])
			}
		}
	}
}''')

seed('square-portals', 'C30', 'a tile with a border that is not square',
     'sides on the upper border of the tile are walls instead of portals',
     [(R + 'polymesh.go', '		h := cset.Height\n', '		h := cset.Width\n')], '''
func TestDemo(t *testing.T) {
	hf := rField(14, 10, 0, 0, 50)
	for i := 0; i < 140; i++ {
		rBlock(hf, i%14, i/14, 0, 2, 1)
	}
	_, pm := rMesh(rCompact(hf, 3, 1), 2, 0, 6)
	for i := int32(0); i < pm.NPolys; i++ {
		p := pm.Polys[i*12:]
		for j := 0; j < 6 && p[j] != 0xffff; j++ {
			k := j + 1
			if k == 6 || p[k] == 0xffff {
				k = 0
			}
			a, b := pm.Verts[p[j]*3:], pm.Verts[p[k]*3:]
			if a[2] == 6 && b[2] == 6 && p[6+j] != 0x8001 {
				t.Errorf("border side %v %v is %x", a[:3], b[:3], p[6+j])
			}
		}
	}
}''')

RL = '''
func rough(t *testing.T, n int, dist float32) *recast.PolyMeshDetail {
	hf := rField(n, n, 0, 0, 50)
	for i := 0; i < n*n; i++ {
		rBlock(hf, i%n, i/n, 0, float32(3+(i%n*7+i/n*11+(i%n)*(i/n)*5)%3), 1)
	}
	chf := rCompact(hf, 3, 2)
	_, pm := rMesh(chf, 0, 3, 6)
	dm, ok := recast.BuildPolyMeshDetail(recast.NewBuildContext(false), pm, chf, dist, 0)
	if !ok {
		t.Fatal("failed")
	}
	return dm
}
'''
seed('one-vertex-more', 'C31', 'a polygon so big and rough that its detail mesh reaches the limit of 127 vertices',
     'detail meshes of 128 vertices',
     [(R + 'meshdetail.go', '			if *nverts >= MAX_VERTS {', '			if *nverts > MAX_VERTS {')], RL + '''
func TestDemo(t *testing.T) {
	dm := rough(t, 24, 1)
	for i := int32(0); i < dm.NMeshes; i++ {
		if n := dm.Meshes[i*4+1]; n > 127 {
			t.Error(n, "vertices")
		}
	}
}''')

seed('long-side', 'C31', 'a polygon with a side of more than 31 sampling distances, on rough ground',
     'sides may have more samples than there is room for: building the detail mesh panics',
     [(R + 'meshdetail.go', '				nn = MAX_VERTS_PER_EDGE - 1\n', '				nn = MAX_VERTS_PER_EDGE\n')], RL + '''
func TestDemo(t *testing.T) {
	for n := 17; n < 30; n++ {
		dm := rough(t, n, 0.5)
		if dm.NTris == 0 {
			t.Error("nothing")
		}
	}
}''')

TM = 'sample/tilemesh/'
seed('old-sampling', 'C35', 'a builder of tiles used with a detail sample distance, and then without',
     'the sample distance of the settings before stays in force',
     [(TM + 'builder.go', '''	if detailSampleDist < 0.9 {
		tm.cfg.DetailSampleDist = 0
	} else {
		tm.cfg.DetailSampleDist = cellSize * detailSampleDist
	}
''', '''	if detailSampleDist >= 0.9 {
		tm.cfg.DetailSampleDist = cellSize * detailSampleDist
	}
''')], '''
func TestDemo(t *testing.T) {
	plain := DefaultSettings()
	plain.DetailSampleDist = 0
	tm := fresh()
	load(t, tm, hills(3))
	tm.SetSettings(plain)
	want := build(t, tm)
	tm.SetSettings(DefaultSettings())
	build(t, tm)
	tm.SetSettings(plain)
	if !bytes.Equal(build(t, tm), want) {
		t.Error("another mesh from the same geometry and settings")
	}
}''', pkg='sample/tilemesh')

seed('early-volumes', 'C35', 'volumes added while no geometry is loaded (before the first, or after a load that failed)',
     'volumes added before geometry is loaded mark that geometry',
     [(R + 'inputgeom.go', '''		ig.chunkyMesh = nil
		ig.mesh = nil
	}
	ig.offMeshConCount = 0
	ig.volumeCount = 0
''', '''		ig.chunkyMesh = nil
		ig.mesh = nil
		ig.offMeshConCount = 0
		ig.volumeCount = 0
	}
''')], '''
func TestDemo(t *testing.T) {
	tm := fresh()
	load(t, tm, hills(3))
	want := build(t, tm)
	tm = fresh()
	tm.InputGeom().AddConvexVolume([]float32{2, 0, 2, 2, 0, 9, 9, 0, 9, 9, 0, 2}, -1, 9, 1)
	load(t, tm, hills(3))
	if !bytes.Equal(build(t, tm), want) {
		t.Error("another mesh from the same geometry and settings")
	}
}''', pkg='sample/tilemesh')

seed('shared-heights', 'C35', 'several builders working at the same time',
     'builders overwrite the heights of each other',
     [(R + 'meshdetail.go', '''	hp.data = make([]uint16, maxhw*maxhh)
''', '''	if n := int(maxhw * maxhh); n > len(heightBuf) {
		heightBuf = make([]uint16, n)
	}
	hp.data = heightBuf[:maxhw*maxhh]
'''), (R + 'meshdetail.go', '''// BuildPolyMeshDetail builds a detail mesh from the provided polygon mesh.
''', '''var heightBuf []uint16 // heights of the polygon at work

// BuildPolyMeshDetail builds a detail mesh from the provided polygon mesh.
''')], '''
func TestDemo(t *testing.T) {
	var want [4][]byte
	for k := range want {
		tm := fresh()
		load(t, tm, hills(k+2))
		want[k] = build(t, tm)
	}
	done := make(chan bool)
	for k := range want {
		go func(k int) {
			ok := true
			for n := 0; n < 60 && ok; n++ {
				tm := fresh()
				tm.LoadGeometry(strings.NewReader(hills(k + 2)))
				m, built := tm.Build()
				var buf bytes.Buffer
				ok = built && m.ToWriter(&buf) == nil && bytes.Equal(buf.Bytes(), want[k])
			}
			done <- ok
		}(k)
	}
	for range want {
		if !<-done {
			t.Error("another mesh from the same geometry and settings")
		}
	}
}''', pkg='sample/tilemesh')

SM = 'sample/solomesh/'
seed('thin-agent', 'C37', 'an agent whose radius is not a whole number of cells',
     'the radius is rounded down: agents walk where they do not fit',
     [(SM + 'builder.go', 'int32(math32.Ceil(agentRadius / sm.cfg.Cs))', 'int32(math32.Floor(agentRadius/sm.cfg.Cs + 0.01))')], '''
func TestDemo(t *testing.T) {
	s := DefaultSettings()
	s.CellSize, s.AgentRadius = 0.5, 1.75 // four cells
	s.RegionMinSize = 0
	m := build(t, s, scene(20, 20, 15, 15, 16, 16, 5))
	if !at(t, m, 10, 0, 10) || !at(t, m, 2.7, 0, 10) {
		t.Error("no ground")
	}
	if at(t, m, 1.75, 0, 10) {
		t.Error("too near to the border")
	}
}''', pkg='sample/solomesh')

seed('climb-rounded', 'C37', 'an agent whose climb is nearly a whole number of cells, and steps between, in a mesh of tiles',
     'the climb is rounded: agents walk up steps they cannot climb',
     [(TM + 'builder.go', 'int32(math32.Floor(agentMaxClimb / tm.cfg.Ch))', 'int32(math32.Floor(agentMaxClimb/tm.cfg.Ch + 0.4))')], '''
func TestDemo(t *testing.T) {
	s := DefaultSettings()
	s.CellSize, s.CellHeight = 0.5, 0.25
	s.AgentHeight, s.AgentRadius = 2, 1
	for _, c := range []struct {
		climb float32
		ok    bool
	}{{1, false}, {1.25, false}, {1.4375, false}, {1.5, true}, {1.75, true}} {
		s.AgentMaxClimb = c.climb
		m := build(t, s, scene(30, 30, 10, 10, 20, 20, -0.5)) // a block of 1.5
		_, q := detour.NewNavMeshQuery(m, 2048)
		f := detour.NewStandardQueryFilter()
		from, to := d3.NewVec3XYZ(4, 0, 15), d3.NewVec3XYZ(15, 1.5, 15)
		e := d3.NewVec3XYZ(0.25, 0.5, 0.25)
		_, r1, _ := q.FindNearestPoly(from, e, f)
		_, r2, _ := q.FindNearestPoly(to, e, f)
		if r1 == 0 || r2 == 0 {
			t.Fatal("no ground")
		}
		path := make([]detour.PolyRef, 256)
		n, _ := q.FindPath(r1, r2, from, to, f, path)
		if (n > 0 && path[n-1] == r2) != c.ok {
			t.Error("a path up a step of 1.5 with a climb of", c.climb, !c.ok)
		}
	}
}''', pkg='sample/tilemesh', lib='sample_solomesh_as_tile')

seed('whole-degrees', 'C38', 'a greatest slope that is not a whole number of degrees, and triangles nearly as steep',
     'triangles that slope less than the limit are not walkable',
     [(R + 'recast.go', '	walkableThr := math32.Cos(walkableSlopeAngle / 180.0 * math.Pi)\n\n	var norm [3]float32\n	for', '	walkableThr := math32.Cos(math32.Floor(walkableSlopeAngle) / 180.0 * math.Pi)\n\n	var norm [3]float32\n	for')], RL + '''
func TestDemo(t *testing.T) {
	v := []float32{0, 0, 0, 0, 0, 1000, 1000, 411, 0} // 22.34 degrees
	areas := make([]uint8, 1)
	for _, c := range []struct {
		angle float32
		area  uint8
	}{{22, 0}, {22.3, 0}, {22.5, 63}, {23, 63}} {
		areas[0] = 0
		recast.MarkWalkableTriangles(recast.NewBuildContext(false), c.angle, v, 3, []int32{0, 1, 2}, 1, areas)
		if areas[0] != c.area {
			t.Error(c.angle, areas[0])
		}
	}
}''')

seed('areas-stay', 'C37', 'a tile with several chunks of geometry, level ground in one and steep ground in the next',
     'triangles too steep are walkable if those before them in the list of another chunk were',
     [(TM + 'builder.go', '		for ai := 0; ai < len(tm.triAreas); ai++ {', '		for ai := int(nctris); ai < len(tm.triAreas); ai++ {')], '''
func TestDemo(t *testing.T) {
	var b strings.Builder
	const n = 40
	for z := 0; z <= n; z++ {
		for x := 0; x <= n; x++ {
			y := 0
			if x > 20 {
				y = 3 * (x - 20)
			}
			fmt.Fprintf(&b, "v %d %d %d\\n", x, y, z)
		}
	}
	for z := 0; z < n; z++ {
		for x := 0; x < n; x++ {
			i := z*(n+1) + x + 1
			fmt.Fprintf(&b, "f %d %d %d %d\\n", i, i+n+1, i+n+2, i+1)
		}
	}
	s := DefaultSettings()
	s.CellSize, s.CellHeight, s.AgentRadius, s.AgentHeight, s.AgentMaxClimb = 0.5, 0.5, 1, 6, 5
	s.TileSize = 100
	m := build(t, s, b.String())
	if !at(t, m, 10, 0.4, 10) {
		t.Error("no ground")
	}
	for _, z := range []float32{10, 20, 30} {
		for y := float32(29); y < 34; y += 0.4 {
			if at(t, m, 30, y, z) || at(t, m, 35, 15+y, z) {
				t.Fatal("too steep")
			}
		}
	}
}''', pkg='sample/tilemesh', lib='sample_solomesh_as_tile')

seed('limit-of-45', 'C38', 'an agent whose greatest slope is not the usual one, in a mesh of tiles',
     'slopes of up to 45 degrees are walkable for agents that can walk less, or more',
     [(TM + 'builder.go', 'tm.cfg.WalkableSlopeAngle = tm.settings.AgentMaxSlope', 'tm.cfg.WalkableSlopeAngle = DefaultSettings().AgentMaxSlope')], '''
func TestDemo(t *testing.T) {
	obj := "v 0 0 0\\nv 0 0 20\\nv 30 20 20\\nv 30 20 0\\nf 1 2 3 4\\n" // 33.7 degrees
	s := DefaultSettings()
	s.CellSize, s.CellHeight, s.AgentRadius, s.AgentMaxClimb = 0.5, 0.25, 1, 2
	for _, c := range []struct {
		limit float32
		ok    bool
	}{{20, false}, {33, false}, {35, true}, {45, true}, {60, true}} {
		s.AgentMaxSlope = c.limit
		b := New(recast.NewBuildContext(false))
		b.SetSettings(s)
		if err := b.LoadGeometry(strings.NewReader(obj)); err != nil {
			t.Fatal(err)
		}
		m, ok := b.Build()
		if (ok && at(t, m, 15, 10.3, 10)) != c.ok {
			t.Error("limit", c.limit, !c.ok)
		}
	}
}''', pkg='sample/tilemesh', lib='sample_solomesh_as_tile')
