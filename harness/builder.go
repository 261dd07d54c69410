package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
	"github.com/arl/gogeo/f32/d3"
)

// C35: builders of navigation meshes.

func init() { cmds["builder"] = builderCmd }

// what both kinds of builders can do
type meshBuilder interface {
	LoadGeometry(r *strings.Reader) error
	InputGeom() *recast.InputGeom
	SetSettings(s recast.BuildSettings)
	Build() (*detour.NavMesh, bool)
	BuildTile(pos d3.Vec3)
	RemoveTile(pos d3.Vec3)
}

type soloB struct{ *solomesh.SoloMesh }

func (s soloB) LoadGeometry(r *strings.Reader) error { return s.SoloMesh.LoadGeometry(r) }
func (s soloB) BuildTile(d3.Vec3)                    {}
func (s soloB) RemoveTile(d3.Vec3)                   {}

type tileB struct{ *tilemesh.TileMesh }

func (t tileB) LoadGeometry(r *strings.Reader) error { return t.TileMesh.LoadGeometry(r) }

func newBuilder(kind string, ctx *recast.BuildContext) meshBuilder {
	if kind == "solo" {
		return soloB{solomesh.New(ctx)}
	}
	return tileB{tilemesh.New(ctx)}
}

type volDef struct {
	verts  []float32
	lo, hi float32
	area   uint8
}

type gset struct {
	s       recast.BuildSettings
	cells   int // tile size in cells; 0: cannot be built
	unitPer float32
}

// builderWorld is the geometries, volumes and settings of one trace. All
// geometries have the same extent.
type builderWorld struct {
	kind   string
	sx, sz float32
	geo    []string
	broken []string
	vols   []volDef
	sets   []gset // sets[0] cannot be built
}

type objw struct {
	b strings.Builder
	n int
}

func (o *objw) quad(p ...[3]float32) {
	for _, v := range p {
		fmt.Fprintf(&o.b, "v %v %v %v\n", v[0], v[1], v[2])
	}
	o.b.WriteString("f")
	for i := range p {
		fmt.Fprintf(&o.b, " %d", o.n+i+1)
	}
	o.b.WriteString("\n")
	o.n += len(p)
}

// box is a block from the ground up (or a floor in the air).
func (o *objw) box(x0, y0, z0, x1, y1, z1 float32) {
	o.quad([3]float32{x0, y1, z0}, [3]float32{x0, y1, z1}, [3]float32{x1, y1, z1}, [3]float32{x1, y1, z0})
	o.walls(x0, y0, z0, x1, y1, z1)
}

// walls is a block without its top.
func (o *objw) walls(x0, y0, z0, x1, y1, z1 float32) {
	o.quad([3]float32{x0, y0, z0}, [3]float32{x1, y0, z0}, [3]float32{x1, y0, z1}, [3]float32{x0, y0, z1})
	o.quad([3]float32{x0, y0, z0}, [3]float32{x0, y1, z0}, [3]float32{x1, y1, z0}, [3]float32{x1, y0, z0})
	o.quad([3]float32{x0, y0, z1}, [3]float32{x1, y0, z1}, [3]float32{x1, y1, z1}, [3]float32{x0, y1, z1})
	o.quad([3]float32{x0, y0, z0}, [3]float32{x0, y0, z1}, [3]float32{x0, y1, z1}, [3]float32{x0, y1, z0})
	o.quad([3]float32{x1, y0, z0}, [3]float32{x1, y1, z0}, [3]float32{x1, y1, z1}, [3]float32{x1, y0, z1})
}

func terrain(r *rng, sx, sz float32) string {
	o := &objw{}
	f := func(max float32) float32 { return float32(int(r.Float32()*max*8)) / 8 }
	switch r.Intn(4) {
	case 0: // nearly nothing, but with the same extent
		o.quad([3]float32{0, 0, 0}, [3]float32{0, 0, 1}, [3]float32{1, 0, 0})
		o.quad([3]float32{sx, 0, sz}, [3]float32{sx, 0, sz - 1}, [3]float32{sx - 1, 0, sz})
	case 1: // a rough floor
		const n = 7
		var h [n + 1][n + 1]float32
		for i := range h {
			for j := range h[i] {
				h[i][j] = f(2)
			}
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				x0, x1 := sx*float32(i)/n, sx*float32(i+1)/n
				z0, z1 := sz*float32(j)/n, sz*float32(j+1)/n
				if i == n-1 {
					x1 = sx
				}
				if j == n-1 {
					z1 = sz
				}
				o.quad([3]float32{x0, h[i][j], z0}, [3]float32{x0, h[i][j+1], z1}, [3]float32{x1, h[i+1][j+1], z1}, [3]float32{x1, h[i+1][j], z0})
			}
		}
	default:
		o.quad([3]float32{0, 0, 0}, [3]float32{0, 0, sz}, [3]float32{sx, 0, sz}, [3]float32{sx, 0, 0})
	}
	for k := r.in(1, 14); k > 0; k-- {
		x, z := f(sx-3), f(sz-3)
		w, d := f(6)+0.25, f(6)+0.25
		if x+w > sx {
			w = sx - x
		}
		if z+d > sz {
			d = sz - z
		}
		y := float32(0)
		if r.p(25) {
			y = 1 + f(3)
		}
		o.box(x, y, z, x+w, y+0.25+f(3), z+d)
	}
	return o.b.String()
}

func newBuilderWorld(r *rng, kind string, ngeo, nset int) *builderWorld {
	w := &builderWorld{kind: kind, sx: 24, sz: 16}
	for i := 0; i < ngeo; i++ {
		w.geo = append(w.geo, terrain(r, w.sx, w.sz))
	}
	w.broken = []string{"", "# nothing\n", "v 0 0 0\nv 1 0 0\nv 0 0 1\nf 1 2 9\n", "v 0 0 0\nv 1 0\n", "v 0 0 0\nv 40 0 0\nv 0 9 40\n", w.geo[0] + "f 1 2 99999\n"}
	for i := 0; i < 3; i++ {
		x, z := float32(r.in(0, 16)), float32(r.in(0, 8))
		d := float32(r.in(2, 8))
		w.vols = append(w.vols, volDef{[]float32{x, 0, z, x, 0, z + d, x + d, 0, z + d, x + d, 0, z}, -1, float32(r.in(1, 5)), uint8(r.in(0, 5))})
	}
	for i := 0; i <= nset; i++ {
		s := tilemesh.DefaultSettings()
		if kind == "solo" {
			s = solomesh.DefaultSettings()
		}
		s.CellSize, s.CellHeight = 0.5, 0.25
		s.AgentHeight = float32(r.in(4, 10)) / 4
		s.AgentMaxClimb = float32(r.in(0, 6)) / 4
		s.AgentRadius = float32(r.in(0, 6)) / 4
		s.RegionMinSize = float32(r.in(0, 8))
		s.RegionMergeSize = float32(r.in(0, 20))
		s.EdgeMaxLen = float32(r.in(0, 1) * r.in(2, 12))
		s.EdgeMaxError = float32(r.in(0, 8)) / 4
		s.VertsPerPoly = float32(r.in(3, 6))
		s.DetailSampleDist = float32(r.in(0, 6))
		s.DetailSampleMaxError = float32(r.in(0, 4)) / 2
		g := gset{s: s, cells: 1}
		if kind == "tile" {
			g.cells = 16
			if i > 2 && r.p(40) {
				g.cells = r.in(8, 40)
			}
			g.s.TileSize = float32(g.cells)
		}
		if i == 0 {
			g.cells = 0
			if kind == "tile" {
				g.s.TileSize = float32(-r.in(0, 1))
			} else {
				g.s.VertsPerPoly = 7
			}
		}
		g.unitPer = g.s.CellSize * float32(g.cells)
		w.sets = append(w.sets, g)
	}
	return w
}

func (w *builderWorld) grid(set int) (int, int) {
	if w.kind == "solo" {
		return 1, 1
	}
	c := w.sets[set].cells
	if c <= 0 {
		return 0, 0
	}
	return (48 + c - 1) / c, (32 + c - 1) / c
}

// built is what is recorded of a mesh: the bytes it is written with, and the
// content of its tiles by position.
func (w *builderWorld) built(m *detour.NavMesh, set int) (file string, tiles []string) {
	var buf bytes.Buffer
	if err := m.ToWriter(&buf); err != nil {
		file = "error"
	} else {
		file = digest(buf.Bytes())
	}
	tw, th := w.grid(set)
	tiles = []string{}
	for y := 0; y < th; y++ {
		for x := 0; x < tw; x++ {
			t := m.TileAt(int32(x), int32(y), 0)
			tiles = append(tiles, contentOf(t))
		}
	}
	return file, tiles
}

func (w *builderWorld) mark(b meshBuilder, v int) {
	x := w.vols[v]
	b.InputGeom().AddConvexVolume(x.verts, x.lo, x.hi, x.area)
}

// oneB is one builder at work: a sequence of operations and their events.
type oneB struct {
	w    *builderWorld
	id   int
	ctx  *recast.BuildContext
	log  bool
	b    meshBuilder
	geom string // "" none, or "1", "1+0+2" (with volumes)
	set  int
	last int // number of the last mesh
	lset int // its settings
	nm   *int
	evs  []M
	all  map[int]*detour.NavMesh
}

func (w *builderWorld) newOne(id int, nm *int, ctx *recast.BuildContext) *oneB {
	o := &oneB{w: w, id: id, ctx: ctx, nm: nm, set: 1, all: map[int]*detour.NavMesh{}}
	if ctx == nil {
		o.log = id%2 == 1
		o.ctx = recast.NewBuildContext(o.log)
	}
	o.b = newBuilder(w.kind, o.ctx)
	o.b.SetSettings(w.sets[1].s)
	return o
}

func (o *oneB) ev(name string, m M) {
	m["ev"], m["b"] = name, o.id
	o.evs = append(o.evs, m)
}

func (o *oneB) pos(p int) d3.Vec3 {
	tw, _ := o.w.grid(o.lset)
	u := o.w.sets[o.lset].unitPer
	return d3.NewVec3XYZ((float32(p%tw)+0.5)*u, 0, (float32(p/tw)+0.5)*u)
}

func (o *oneB) op(s string) {
	f := strings.Fields(s)
	arg := 0
	if len(f) > 1 {
		arg, _ = strconv.Atoi(f[1])
	}
	w := o.w
	switch f[0] {
	case "load":
		err := o.b.LoadGeometry(strings.NewReader(w.geo[arg-1]))
		o.geom = fmt.Sprint(arg)
		o.ev("Load", M{"g": o.geom, "good": true, "ok": err == nil})
	case "broken":
		err := o.b.LoadGeometry(strings.NewReader(w.broken[arg%len(w.broken)]))
		o.geom = ""
		o.ev("Load", M{"g": "", "good": false, "ok": err == nil})
	case "mark":
		w.mark(o.b, arg)
		if o.geom != "" {
			o.geom += fmt.Sprintf("+%d", arg)
		}
		o.ev("Mark", M{"v": fmt.Sprintf("+%d", arg)})
	case "set":
		o.b.SetSettings(w.sets[arg].s)
		o.set = arg
		o.ev("Set", M{"s": fmt.Sprint(arg)})
	case "log":
		o.log = !o.log
		o.ctx.EnableLog(o.log)
		if arg == 1 {
			o.ctx.EnableTimer(o.log)
		}
	case "build":
		m, ok := o.b.Build()
		e := M{"ok": ok, "m": 0, "file": "", "tiles": []string{}}
		if ok {
			*o.nm++
			o.last, o.lset = o.id*1000+*o.nm, o.set
			o.all[o.last] = m
			e["m"] = o.last
			e["file"], e["tiles"] = w.built(m, o.set)
		}
		o.ev("Build", e)
	case "tile", "remove":
		if o.last == 0 {
			p := d3.NewVec3XYZ(3, 0, 3)
			if f[0] == "tile" {
				o.b.BuildTile(p)
			} else {
				o.b.RemoveTile(p)
			}
			return
		}
		if w.sets[o.set].cells != w.sets[o.lset].cells {
			return // would not fit
		}
		name := "Remove"
		if f[0] == "tile" {
			name = "Tile"
			o.b.BuildTile(o.pos(arg))
		} else {
			o.b.RemoveTile(o.pos(arg))
		}
		file, tiles := w.built(o.all[o.last], o.lset)
		o.ev(name, M{"p": arg + 1, "file": file, "tiles": tiles})
	case "look":
		for id := range o.all {
			var buf bytes.Buffer
			o.all[id].ToWriter(&buf)
			o.ev("Look", M{"m": id, "file": digest(buf.Bytes())})
		}
	}
}

// keys are the geometries and settings that a sequence of operations builds.
func keys(ops []string) map[string][2]string {
	res := map[string][2]string{}
	geom, set := "", "1"
	for _, o := range ops {
		f := strings.Fields(o)
		switch f[0] {
		case "load":
			geom = f[1]
		case "broken":
			geom = ""
		case "mark":
			if geom != "" {
				geom += "+" + f[1]
			}
		case "set":
			set = f[1]
		case "build", "tile":
			if geom != "" {
				res[geom+"/"+set] = [2]string{geom, set}
			}
		}
	}
	return res
}

// refs builds every key with a builder of its own.
func (w *builderWorld) refs(tr *Trace, done map[string]bool, ks map[string][2]string, log bool) bool {
	for k, v := range ks {
		if done[k] {
			continue
		}
		done[k] = true
		set, _ := strconv.Atoi(v[1])
		var m *detour.NavMesh
		var ok bool
		e := M{"k": k, "file": "", "tiles": []string{}}
		if !tr.try("Build", func() {
			b := newBuilder(w.kind, recast.NewBuildContext(log))
			b.SetSettings(w.sets[set].s)
			p := strings.Split(v[0], "+")
			g, _ := strconv.Atoi(p[0])
			if b.LoadGeometry(strings.NewReader(w.geo[g-1])) != nil {
				die(fmt.Errorf("geometry %d cannot be loaded", g))
			}
			for _, x := range p[1:] {
				i, _ := strconv.Atoi(x)
				w.mark(b, i)
			}
			m, ok = b.Build()
			if ok {
				e["file"], e["tiles"] = w.built(m, set)
			}
		}) {
			return false
		}
		e["ok"] = ok
		tr.Emit("Ref", e)
		log = !log
	}
	return true
}

func (w *builderWorld) randOps(r *rng, n int) []string {
	var ops []string
	for i := 0; i < n; i++ {
		switch p := r.Intn(100); {
		case p < 18 || i == 0:
			ops = append(ops, fmt.Sprintf("load %d", r.in(1, len(w.geo))))
		case p < 24:
			ops = append(ops, fmt.Sprintf("broken %d", r.Intn(6)))
		case p < 32:
			ops = append(ops, fmt.Sprintf("mark %d", r.Intn(len(w.vols))))
		case p < 46:
			ops = append(ops, fmt.Sprintf("set %d", r.Intn(len(w.sets))))
		case p < 52:
			ops = append(ops, fmt.Sprintf("log %d", r.Intn(2)))
		case p < 76:
			ops = append(ops, "build")
		case p < 88:
			ops = append(ops, fmt.Sprintf("tile %d", r.Intn(6)))
		case p < 95:
			ops = append(ops, fmt.Sprintf("remove %d", r.Intn(6)))
		default:
			ops = append(ops, "look")
		}
	}
	return append(ops, "build", "look")
}

// fit replaces tiles that are not in the grid of the settings.
func (w *builderWorld) fit(ops []string) []string {
	lset, set, geom := 0, 1, false
	var res []string
	for _, o := range ops {
		f := strings.Fields(o)
		switch f[0] {
		case "load":
			geom = true
		case "broken":
			geom = false
		case "set":
			set, _ = strconv.Atoi(f[1])
		case "build":
			if geom && w.sets[set].cells > 0 {
				lset = set
			}
		case "tile", "remove":
			if w.kind == "solo" || (lset == 0 && w.sets[set].cells == 0) {
				continue
			}
			if lset != 0 {
				tw, th := w.grid(lset)
				p, _ := strconv.Atoi(f[1])
				o = fmt.Sprintf("%s %d", f[0], p%(tw*th))
			}
		}
		res = append(res, o)
	}
	return res
}

func (o *oneB) run(ops []string, emit func(string, M)) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = clip(fmt.Sprint(x))
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	for _, s := range ops {
		o.op(s)
	}
	return ""
}

func (o *oneB) flush(tr *Trace) {
	for _, e := range o.evs {
		name := e["ev"].(string)
		delete(e, "ev")
		tr.Emit(name, e)
	}
	o.evs = nil
}

func builderTrace(tr *Trace, r *rng, w *builderWorld, seqs [][]string, par bool) {
	tr.Emit("Begin", M{"kind": w.kind})
	done := map[string]bool{}
	for i := range seqs {
		seqs[i] = w.fit(seqs[i])
		if !w.refs(tr, done, keys(seqs[i]), r.p(50)) {
			return
		}
	}
	nm := 0
	var ctx *recast.BuildContext
	if !par && r.p(30) {
		ctx = recast.NewBuildContext(r.p(50)) // shared by builders one after the other
	}
	obs := make([]*oneB, len(seqs))
	msgs := make([]string, len(seqs))
	if !tr.try("new builder", func() {
		for i := range seqs {
			n := &nm
			if par {
				n = new(int)
			}
			obs[i] = w.newOne(i+1, n, ctx)
		}
		if par {
			var wg sync.WaitGroup
			for i := range seqs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					msgs[i] = obs[i].run(seqs[i], nil)
				}(i)
			}
			wg.Wait()
		} else {
			for i := range seqs {
				msgs[i] = obs[i].run(seqs[i], nil)
			}
		}
	}) {
		return
	}
	for i := range seqs {
		obs[i].flush(tr)
		if msgs[i] != "" {
			tr.Emit("Panic", M{"op": "builder", "msg": msgs[i]})
			return
		}
	}
}

func builderCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		f, err := os.Open(a.Sched)
		if err != nil {
			die(err)
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		var w *builderWorld
		for n := 0; sc.Scan(); n++ {
			if n%a.Shards != a.Shard {
				continue
			}
			if w == nil || n%11 == 0 {
				w = newBuilderWorld(r, []string{"tile", "solo"}[r.Intn(5)/4], 2, 2)
			}
			var ops []string
			if json.Unmarshal(sc.Bytes(), &ops) != nil {
				die(fmt.Errorf("bad schedule"))
			}
			ops = ops[1:]
			for i, o := range ops {
				switch o {
				case "broken", "mark", "log":
					ops[i] = o + " 1"
				}
			}
			builderTrace(tr, r, w, [][]string{append(ops, "look", "build", "look")}, false)
		}
		return
	}
	for i := 0; i < a.N; i++ {
		w := newBuilderWorld(r, []string{"tile", "solo"}[r.Intn(3)/2], r.in(1, 4), r.in(2, 5))
		par := a.Opt == "par"
		var seqs [][]string
		n := r.in(1, 3)
		if par {
			n = r.in(2, 6)
		}
		for k := 0; k < n; k++ {
			seqs = append(seqs, w.randOps(r, r.in(4, 25)))
		}
		builderTrace(tr, r, w, seqs, par)
	}
}
