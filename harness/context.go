package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/arl/go-detour/recast"
)

// C34: the build context.

func init() { cmds["context"] = contextCmd }

const nTimers = 30 // more than there are labels known by name; see labels()

type ctxWorld struct {
	tr   *Trace
	r    *rng
	ctx  *recast.BuildContext
	t0   time.Time
	maxT int
}

// us is the time in microseconds since the start, rounded down.
func (c *ctxWorld) us() int { return int(time.Since(c.t0) / time.Microsecond) }

func (c *ctxWorld) times() []int {
	acc := make([]int, nTimers)
	for k := range acc {
		acc[k] = -1
		if k < c.maxT {
			d := c.ctx.AccumulatedTime(recast.TimerLabel(k))
			switch {
			case d == -1:
			case d < 0:
				acc[k] = -2
			default:
				acc[k] = int(d / time.Microsecond)
			}
		}
	}
	return acc
}

func (c *ctxWorld) texts() []string {
	out := []string{}
	for i := 0; i < c.ctx.LogCount(); i++ {
		out = append(out, c.ctx.LogText(int32(i)))
	}
	return out
}

// do calls one operation and records what can be seen afterwards.
func (c *ctxWorld) do(e M, fn func()) bool {
	if !c.tr.try("BuildContext", func() {
		e["t0"] = c.us()
		fn()
		e["t1"] = c.us() + 1
		n := c.ctx.LogCount()
		e["count"] = n
		last := []string{}
		for i := imax(0, n-2); i < n; i++ {
			last = append(last, c.ctx.LogText(int32(i)))
		}
		e["last"] = last
		e["acc"] = c.times()
	}) {
		return false
	}
	c.tr.Emit("Op", e)
	return true
}

func (c *ctxWorld) logf(cat string) func(string, ...interface{}) {
	switch cat {
	case "progress":
		return c.ctx.Progressf
	case "warning":
		return c.ctx.Warningf
	}
	return c.ctx.Errorf
}

func (c *ctxWorld) op(o string) bool {
	var k int
	switch {
	case o == "progress" || o == "warning" || o == "error":
		n := c.r.Intn(1000)
		text := fmt.Sprintf("n %d 100%% of %s", n, o)
		return c.do(M{"op": "log", "cat": o, "text": text}, func() { c.logf(o)("n %d 100%% of %s", n, o) })
	case strings.HasSuffix(o, " many"):
		cat := strings.TrimSuffix(o, " many")
		n := c.r.in(300, 600)
		return c.do(M{"op": "logs", "cat": cat, "text": "x", "n": n}, func() {
			for i := 0; i < n; i++ {
				c.logf(cat)("x")
			}
		})
	case o == "resetlog":
		return c.do(M{"op": o}, c.ctx.ResetLog)
	case o == "resettimers":
		return c.do(M{"op": o}, c.ctx.ResetTimers)
	case o == "log on" || o == "log off":
		return c.do(M{"op": "enablelog", "state": o == "log on"}, func() { c.ctx.EnableLog(o == "log on") })
	case o == "timer on" || o == "timer off":
		return c.do(M{"op": "enabletimer", "state": o == "timer on"}, func() { c.ctx.EnableTimer(o == "timer on") })
	case strings.HasPrefix(o, "start "):
		fmt.Sscan(o[6:], &k)
		return c.do(M{"op": "start", "label": k}, func() { c.ctx.StartTimer(recast.TimerLabel(k)) })
	case strings.HasPrefix(o, "stop "):
		fmt.Sscan(o[5:], &k)
		return c.do(M{"op": "stop", "label": k}, func() { c.ctx.StopTimer(recast.TimerLabel(k)) })
	case o == "wait":
		time.Sleep(time.Duration(c.r.in(1, 1500)) * time.Microsecond)
		return true
	case o == "dump":
		var b bytes.Buffer
		e := M{}
		n := c.r.Intn(100)
		if !c.tr.try("DumpLog", func() {
			c.ctx.DumpLog(&b, "log %d:", n)
			e["texts"] = c.texts()
		}) {
			return false
		}
		lines := strings.Split(b.String(), "\n")
		if len(lines) > 0 && lines[len(lines)-1] == "" {
			lines = lines[:len(lines)-1]
		} else {
			lines = append(lines, "(no end of line)")
		}
		e["lines"], e["header"] = lines, fmt.Sprintf("log %d:", n)
		c.tr.Emit("Dump", e)
		return true
	}
	return false
}

// step runs a build step.
func (c *ctxWorld) step(what string, label recast.TimerLabel, fn func() bool) bool {
	e := M{"what": what, "label": int(label)}
	good := false
	if !c.tr.try(what, func() {
		e["t0"] = c.us()
		good = fn()
		e["t1"] = c.us() + 1
		e["ok"] = good
		e["texts"] = c.texts()
		e["acc"] = c.times()
		for k := 0; k < c.maxT; k++ { // does nothing unless one is left running
			c.ctx.StopTimer(recast.TimerLabel(k))
		}
		e["acc2"] = c.times()
	}) {
		return false
	}
	c.tr.Emit("Build", e)
	return good
}

func newCtxWorld(tr *Trace, r *rng, state bool) *ctxWorld {
	c := &ctxWorld{tr: tr, r: r, t0: time.Now(), maxT: int(recast.TimerBuildPolyMeshDetail) + 1}
	c.ctx = recast.NewBuildContext(state)
	tr.Emit("Begin", M{"state": state})
	return c
}

// build runs all steps of a build, each time on or off.
func (c *ctxWorld) build() {
	r := c.r
	w, h := r.in(3, 16), r.in(3, 16)
	f := &vfield{w: w, h: h, rows: 20, q: 4, cs: 1, ch: 1, exact: true}
	var cols [][]vspan
	if r.p(50) {
		cols = plain(r, w, h)
	} else {
		cols = randCols(r, w, h, 20, 0)
	}
	flip := func() bool {
		switch r.Intn(12) {
		case 0:
			return c.op("timer off")
		case 1, 2:
			return c.op("timer on")
		case 3:
			return c.op("log off")
		case 4, 5:
			return c.op("log on")
		case 6:
			return c.op("resettimers")
		case 7:
			return c.op("resetlog")
		}
		return true
	}
	var hf *recast.Heightfield
	chf := &recast.CompactHeightfield{}
	var verts []float32
	var tris []int32
	var areas []uint8
	for i, col := range cols {
		for _, s := range col {
			tris = append(tris, int32(len(verts)/3), int32(len(verts)/3+1), int32(len(verts)/3+2))
			verts = append(verts, f.verts(sliver(4, i%w, i/w, s[0], s[1], s[2]))...)
			areas = append(areas, uint8(s[2]))
		}
	}
	n := int32(len(tris) / 3)
	if !c.tr.try("NewHeightfield", func() { hf = f.heightfield() }) {
		return
	}
	height, climb := int32(r.in(2, 6)), int32(r.in(0, 3))
	nvp := int32(r.in(3, 6))
	cset := &recast.ContourSet{}
	var pm *recast.PolyMesh
	steps := []struct {
		what  string
		label recast.TimerLabel
		fn    func() bool
	}{
		{"RasterizeTriangles", recast.TimerRasterizeTriangles, func() bool {
			return recast.RasterizeTriangles(c.ctx, verts, int32(len(verts)/3), tris, areas, n, hf, 1)
		}},
		{"RasterizeTriangles2", recast.TimerRasterizeTriangles, func() bool { return recast.RasterizeTriangles2(c.ctx, verts, areas, n, hf, 1) }},
		{"RasterizeTriangle", recast.TimerRasterizeTriangles, func() bool {
			return n == 0 || recast.RasterizeTriangle(c.ctx, verts[0:3], verts[3:6], verts[6:9], areas[0], hf, 1)
		}},
		{"FilterLowHangingWalkableObstacles", recast.TimerFilterLowObstacles, func() bool { recast.FilterLowHangingWalkableObstacles(c.ctx, climb, hf); return true }},
		{"FilterLedgeSpans", recast.TimerFilterBorder, func() bool { recast.FilterLedgeSpans(c.ctx, height, climb, hf); return true }},
		{"FilterWalkableLowHeightSpans", recast.TimerFilterWalkable, func() bool { recast.FilterWalkableLowHeightSpans(c.ctx, height, hf); return true }},
		{"BuildCompactHeightfield", recast.TimerBuildCompactHeightfield, func() bool { return recast.BuildCompactHeightfield(c.ctx, height, climb, hf, chf) }},
		{"ErodeWalkableArea", recast.TimerErodeArea, func() bool { return recast.ErodeWalkableArea(c.ctx, 1, chf) }},
		{"MarkConvexPolyArea", recast.TimerMarkConvexPolyArea, func() bool {
			v := []float32{0, 0, 0, 5, 0, 0, 5, 0, 5}
			if r.p(50) {
				for i := range v { // outside of the field
					v[i] += 900
				}
			}
			recast.MarkConvexPolyArea(c.ctx, v, 3, 0, 20, 5, chf)
			return true
		}},
		{"BuildRegionsMonotone", recast.TimerBuildRegions, func() bool { return recast.BuildRegionsMonotone(c.ctx, chf, 0, 2, 4) }},
		{"BuildContours", recast.TimerBuildContours, func() bool { return recast.BuildContours(c.ctx, chf, 1, 12, cset, recast.ContourTessWallEdges) }},
		{"BuildPolyMesh", recast.TimerBuildPolymesh, func() bool {
			var ok bool
			pm, ok = recast.BuildPolyMesh(c.ctx, cset, nvp)
			return ok
		}},
		{"BuildPolyMeshDetail", recast.TimerBuildPolyMeshDetail, func() bool {
			_, ok := recast.BuildPolyMeshDetail(c.ctx, pm, chf, 2, 1)
			return ok
		}},
	}
	for _, s := range steps {
		if !flip() || !c.step(s.what, s.label, s.fn) {
			return
		}
	}
}

func contextCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		f, err := os.Open(a.Sched)
		if err != nil {
			die(err)
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		for n := 0; sc.Scan(); n++ {
			if n%a.Shards != a.Shard {
				continue
			}
			var ops []string
			if json.Unmarshal(sc.Bytes(), &ops) != nil {
				die(fmt.Errorf("bad schedule"))
			}
			c := newCtxWorld(tr, r, ops[0] == "new on")
			for _, o := range ops[1:] {
				if !c.op(o) {
					break
				}
			}
			c.op("dump")
		}
		return
	}
	for i := 0; i < a.N; i++ {
		c := newCtxWorld(tr, r, r.p(70))
		if i%4 == 3 {
			c.build()
			continue
		}
		many := r.p(30)
		ok := true
		for k := r.in(5, 60); k > 0 && ok; k-- {
			var o string
			t := []int{r.Intn(c.maxT), r.Intn(3), c.maxT - 1}[r.Intn(3)]
			switch p := r.Intn(100); {
			case p < 25:
				o = []string{"progress", "warning", "error"}[r.Intn(3)]
				if many && r.p(30) {
					o += " many"
				}
			case p < 45:
				o = fmt.Sprintf("start %d", t)
			case p < 65:
				o = fmt.Sprintf("stop %d", t)
			case p < 80:
				o = "wait"
			case p < 84:
				o = "dump"
			case p < 88:
				o = []string{"resetlog", "resettimers"}[r.Intn(2)]
			case p < 94:
				o = []string{"log on", "timer on"}[r.Intn(2)]
			case p < 97:
				o = []string{"log off", "timer off"}[r.Intn(2)]
			default:
				continue
			}
			ok = c.op(o)
		}
	}
}
