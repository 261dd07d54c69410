package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
	yaml "gopkg.in/yaml.v2"
)

// C36: the command line tool, run as a process in a scratch directory.

func init() { cmds["cli"] = cliCmd }

const (
	cliText  = "# notes of mine\nnot settings: [\n"
	cliGood  = "v 0 0 0\nv 12 0 0\nv 12 0 12\nv 0 0 12\nf 1 4 3\nf 1 3 2\n"
	cliBad   = "v 0 0 0\nv 1 0 x\nf 1 2 3\n"
	cliLimit = 60 * time.Second
)

type cliWorld struct {
	tr    *Trace
	r     *rng
	dir   string
	geo   string
	names []string
	links map[string]string
	solo  detour.NavMeshParams
	tile  detour.NavMeshParams
}

func polys(m *detour.NavMesh) int {
	n := 0
	for i := range m.Tiles {
		if m.Tiles[i].Header != nil {
			n += int(m.Tiles[i].Header.PolyCount)
		}
	}
	return n
}

func newCliWorld(tr *Trace, r *rng, root string) *cliWorld {
	c := &cliWorld{tr: tr, r: r, dir: filepath.Join(root, "work"), geo: filepath.Join(root, "geo")}
	if err := os.MkdirAll(c.geo, 0755); err != nil {
		die(err)
	}
	if ioutil.WriteFile(filepath.Join(c.geo, "good.obj"), []byte(cliGood), 0644) != nil ||
		ioutil.WriteFile(filepath.Join(c.geo, "broken.obj"), []byte(cliBad), 0644) != nil {
		die(fmt.Errorf("no scratch directory"))
	}
	sm := solomesh.New(recast.NewBuildContext(false))
	if err := sm.LoadGeometry(strings.NewReader(cliGood)); err != nil {
		die(err)
	}
	m, ok := sm.Build()
	if !ok {
		die(fmt.Errorf("reference solo mesh"))
	}
	c.solo = m.Params
	tm := tilemesh.New(recast.NewBuildContext(false))
	if err := tm.LoadGeometry(strings.NewReader(cliGood)); err != nil {
		die(err)
	}
	if m, ok = tm.Build(); !ok {
		die(fmt.Errorf("reference tile mesh"))
	}
	c.tile = m.Params
	return c
}

// class says what a file contains.
func (c *cliWorld) class(p string) string {
	fi, err := os.Lstat(p)
	switch {
	case os.IsNotExist(err):
		return "none"
	case err != nil:
		return "?"
	case fi.IsDir():
		return "dir"
	case fi.Mode()&os.ModeSymlink != 0:
		t, _ := os.Readlink(p)
		return "link to " + t
	case !fi.Mode().IsRegular():
		return "?"
	}
	b, err := ioutil.ReadFile(p)
	if err != nil {
		return "?"
	}
	if string(b) == cliText {
		return "text"
	}
	var cfg recast.BuildSettings
	if yaml.UnmarshalStrict(b, &cfg) == nil {
		switch {
		case cfg == solomesh.DefaultSettings():
			return "csolo"
		case cfg == tilemesh.DefaultSettings():
			return "ctile"
		}
		return "settings?"
	}
	var m *detour.NavMesh
	if c.tr.guard("Decode", func() { m, err = detour.Decode(bytes.NewReader(b)) }) == "" && err == nil && polys(m) > 0 {
		switch m.Params {
		case c.solo:
			return "msolo"
		case c.tile:
			return "mtile"
		}
		return "mesh?"
	}
	return fmt.Sprintf("%d bytes", len(b))
}

// files is what all names stand for, and whatever else is there.
func (c *cliWorld) files() M {
	out := M{}
	for _, n := range c.names {
		out[n] = c.class(filepath.Join(c.dir, n))
	}
	filepath.Walk(c.dir, func(p string, fi os.FileInfo, err error) error {
		if rel, e := filepath.Rel(c.dir, p); e == nil && rel != "." {
			if _, ok := out[rel]; !ok {
				out[rel] = c.class(p)
			}
		}
		return nil
	})
	return out
}

// start empties the directory.
func (c *cliWorld) start(names []string, content map[string]string, links map[string]string) bool {
	os.RemoveAll(c.dir)
	if err := os.MkdirAll(c.dir, 0755); err != nil {
		die(err)
	}
	c.names, c.links = names, links
	for n, k := range content {
		p := filepath.Join(c.dir, n)
		switch k {
		case "text":
			if err := ioutil.WriteFile(p, []byte(cliText), 0644); err != nil {
				die(err)
			}
		case "dir":
			if err := os.Mkdir(p, 0755); err != nil {
				die(err)
			}
		case "csolo", "ctile":
			s := solomesh.DefaultSettings()
			if k == "ctile" {
				s = tilemesh.DefaultSettings()
			}
			b, _ := yaml.Marshal(s)
			ioutil.WriteFile(p, b, 0644)
		case "msolo", "mtile":
			var m *detour.NavMesh
			if k == "msolo" {
				sm := solomesh.New(recast.NewBuildContext(false))
				sm.LoadGeometry(strings.NewReader(cliGood))
				m, _ = sm.Build()
			} else {
				tm := tilemesh.New(recast.NewBuildContext(false))
				tm.LoadGeometry(strings.NewReader(cliGood))
				m, _ = tm.Build()
			}
			var b bytes.Buffer
			if !c.tr.try("ToWriter", func() {
				if err := m.ToWriter(&b); err != nil {
					panic(err)
				}
			}) {
				return false
			}
			ioutil.WriteFile(p, b.Bytes(), 0644)
		}
	}
	for n, t := range links {
		if err := os.Symlink(t, filepath.Join(c.dir, n)); err != nil {
			die(err)
		}
	}
	c.tr.Emit("Begin", M{"files": c.files()})
	return true
}

var cliAnswers = map[string]string{"y": "y\n", "later y": "what?\n  y\nYes please\n", "yes, no newline": "yes", "n": "N\n", "enter": "\ny\n", "none": "", "junk": "?\n maybe\n"}

func (c *cliWorld) real(n string) string {
	n = strings.TrimPrefix(n, "./")
	if t, ok := c.links[n]; ok {
		return t
	}
	return n
}

// call runs the tool once. Empty names leave the argument out.
func (c *cliWorld) call(cmd, typ, out, cfg, geom, ans string, given bool) bool {
	e := M{"cmd": cmd, "type": typ, "out": out, "real": c.real(out), "cfg": cfg, "realcfg": c.real(cfg), "geom": geom, "ans": ans,
		"infos": M{}, "params": M{}}
	args := []string{cmd}
	switch cmd {
	case "config":
		if typ != "solo" || given {
			args = append(args, "--type", typ)
		}
		if out != "recast.yml" || given {
			args = append(args, out)
		}
	case "build":
		if typ != "solo" || given {
			args = append(args, "--type="+typ)
		}
		if cfg != "recast.yml" || given {
			args = append(args, "--config", cfg)
		}
		if geom != "not given" {
			args = append(args, "--input", filepath.Join(c.geo, geom+".obj"))
		}
		if out != "navmesh.bin" || given {
			args = append(args, out)
		}
	case "infos":
		if out != "" {
			args = append(args, out)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), cliLimit)
	defer cancel()
	p := exec.CommandContext(ctx, os.Getenv("CLI"), args...)
	p.Dir = c.dir
	in := cliAnswers[ans]
	if ans != "none" { // lines that are no answer
		for n := c.r.in(0, 3); n > 0; n-- {
			k := byte(c.r.in(1, 255))
			if c.r.p(70) {
				k = "abcdefghijklmopqrstuvwxz ABCDJOT01."[c.r.Intn(35)]
			}
			if strings.IndexByte("yYnN\n", k) < 0 {
				in = string([]byte{k}) + "no yes\n" + in
			}
		}
	}
	p.Stdin = strings.NewReader(in)
	var so, se bytes.Buffer
	p.Stdout, p.Stderr = &so, &se
	err := p.Run()
	if ctx.Err() != nil {
		c.tr.Emit("Hang", M{"op": strings.Join(args, " ")})
		return false
	}
	if p.ProcessState == nil {
		die(err)
	}
	e["exit"] = p.ProcessState.ExitCode()
	e["claims"] = p.ProcessState.ExitCode() == 0 && strings.Contains(so.String(), "success")
	e["crash"] = strings.Contains(se.String(), "goroutine ") && strings.Contains(se.String(), "panic")
	if cmd == "infos" {
		t := so.String()
		if k := strings.Index(t, "{"); k >= 0 {
			var in map[string]interface{}
			if json.Unmarshal([]byte(t[k:]), &in) == nil {
				e["infos"] = in
			}
		}
		if k := c.class(filepath.Join(c.dir, c.real(out))); k == "msolo" || k == "mtile" {
			b, _ := json.Marshal(c.solo)
			if k == "mtile" {
				b, _ = json.Marshal(c.tile)
			}
			var want map[string]interface{}
			json.Unmarshal(b, &want)
			e["params"] = want
		}
		// numbers as texts
		for _, k := range []string{"infos", "params"} {
			e[k] = flat(e[k])
		}
	}
	e["files"] = c.files()
	c.tr.Emit("Call", e)
	return true
}

func flat(v interface{}) M {
	out := M{}
	m, ok := v.(map[string]interface{})
	if !ok {
		return out
	}
	for k, x := range m {
		out[k] = fmt.Sprint(x)
	}
	return out
}

// some gives a name of a file of the given kind, most of the time.
func (c *cliWorld) some(r *rng, other, kind string) string {
	if r.p(70) {
		for i := 0; i < 8; i++ {
			n := c.names[r.Intn(len(c.names))]
			if strings.HasPrefix(c.class(filepath.Join(c.dir, n)), kind) {
				return n
			}
		}
	}
	return other
}

func cliCmd(tr *Trace, r *rng, a *Args) {
	c := newCliWorld(tr, r, a.Dir)
	if a.Sched != "" {
		f, err := os.Open(a.Sched)
		if err != nil {
			die(err)
		}
		sc := bufio.NewScanner(f)
		for i := 0; sc.Scan(); i++ {
			if i%a.Shards != a.Shard {
				continue
			}
			var q []string
			if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
				die(err)
			}
			if c.start([]string{"recast.yml", "navmesh.bin"}, map[string]string{"recast.yml": q[0], "navmesh.bin": q[1]}, nil) {
				c.call(q[2], q[3], q[4], q[5], q[6], q[7], r.p(50))
			}
		}
		f.Close()
	}
	for k := 0; k < a.N; k++ {
		names := []string{"recast.yml", "navmesh.bin", "a file", "b", "deep/one", "target", "notyet"}
		content := map[string]string{"deep": "dir"}
		for _, n := range names {
			if n != "deep/one" && r.p(40) {
				content[n] = []string{"text", "csolo", "ctile", "msolo", "mtile"}[r.Intn(5)]
			}
		}
		if !c.start(names, content, map[string]string{"link": "target", "dangling": "notyet"}) {
			continue
		}
		outs := []string{"recast.yml", "navmesh.bin", "a file", "b", "./a file", "deep/one", "deep", "link", "dangling", "/dev/full", "nodir/x", "target", "notyet"}
		ans := []string{"y", "y", "y", "later y", "yes, no newline", "n", "enter", "none", "junk"}
		types := []string{"solo", "solo", "tile", "tile", "tiled", ""}
		geoms := []string{"good", "good", "good", "broken", "absent", "not given"}
		pick := func(l []string) string { return l[r.Intn(len(l))] }
		ok := true
		for n := r.in(3, 14); n > 0 && ok; n-- {
			switch r.Intn(5) {
			case 0, 1:
				ok = c.call("config", pick(types), pick(outs), "", "", pick(ans), r.p(50))
			case 2, 3:
				cfgs := append([]string{"absent"}, outs...)
				for i, n := range cfgs { // reading /dev/full never ends
					if n == "/dev/full" {
						cfgs[i] = "recast.yml"
					}
				}
				cfg := c.some(r, pick(cfgs), "c")
				ok = c.call("build", pick(types), pick(outs), cfg, pick(geoms), pick(ans), r.p(50))
			default:
				o := pick(append([]string{"", "absent"}, outs...))
				if o == "/dev/full" {
					o = "navmesh.bin"
				}
				o = c.some(r, o, "m")
				ok = c.call("infos", "", o, "", "", pick(ans), true)
			}
		}
	}
	os.RemoveAll(c.dir)
}
