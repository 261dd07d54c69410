package main

import (
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
	"github.com/arl/gogeo/f32/d3"
)

// C38: ramps between two platforms, through the whole pipeline.

func init() { cmds["ramps"] = rampsCmd }

func rampTrace(tr *Trace, r *rng) {
	// in cells, and voxels for the height
	pl, ln, wd := r.in(14, 20), r.in(10, 30), r.in(16, 20)
	k := r.in(3, 10)
	limit := []float32{0, 0.18, 0.36, 0.41, 0.58, 0.84, 1, 1.19, 1.73, 2.41, 2.75, 5.67, 11.4}[k]
	rise := int(limit*float32(ln)*2) + []int{-9, -5, -3, -2, -1, 0, 1, 2, 3, 4, 8}[r.Intn(11)]
	rise = imax(1, rise)
	per := (rise + ln - 1) / ln // voxels each cell rises
	climb := 2*per + r.in(3, 5)
	h := climb + r.in(2, 6)
	radius := r.in(1, 3)
	turn, back := r.p(50), r.p(50)
	at := func(x, z float32, y float32) [3]float32 {
		if back {
			x = float32(2*pl+ln) - x
		}
		if turn {
			x, z = z, x
		}
		return [3]float32{x * wcs, y * wch, z * wcs}
	}
	o := &objw{}
	quad := func(x0, x1, y0, y1 float32) {
		w := float32(wd)
		p := [][3]float32{at(x0, 0, y0), at(x0, w, y0), at(x1, w, y1), at(x1, 0, y1)}
		if turn != back {
			p[1], p[3] = p[3], p[1]
		}
		o.quad(p...)
	}
	a, b, top := float32(pl), float32(pl+ln), float32(rise)
	quad(0, a, 0, 0)
	quad(a, b, 0, top)
	quad(b, b+a, top, top)
	pts := [][3]float32{at(a/2, float32(wd)/2, 0), at(a+float32(ln)/2, float32(wd)/2, top/2), at(b+a/2, float32(wd)/2, top)}
	tr.Emit("Begin", M{"len": ln, "rise": rise, "k": k + 1, "climb": climb, "per": per, "radius": radius})
	for _, kind := range []string{"solo", "tile"} {
		s := solomesh.DefaultSettings()
		if kind == "tile" {
			s = tilemesh.DefaultSettings()
			s.TileSize = float32(r.in(16, 40))
		}
		s.CellSize, s.CellHeight = wcs, wch
		s.AgentHeight, s.AgentMaxClimb, s.AgentRadius = float32(h)*wch, float32(climb)*wch, float32(radius)*wcs
		s.AgentMaxSlope = slopeAngles[k]
		s.RegionMinSize = 0
		s.EdgeMaxError = float32(r.in(1, 5)) / 4
		s.DetailSampleDist, s.DetailSampleMaxError = 2, 1
		if !tr.try("Build", func() {
			b := newBuilder(kind, recast.NewBuildContext(false))
			b.SetSettings(s)
			if err := b.LoadGeometry(strings.NewReader(o.b.String())); err != nil {
				die(err)
			}
			m, ok := b.Build()
			if !ok {
				tr.Emit("Ramp", M{"kind": kind, "ok": ok, "on": []bool{}, "up": false, "down": false})
				return
			}
			_, q := detour.NewNavMeshQuery(m, 2048)
			f := detour.NewStandardQueryFilter()
			f.SetIncludeFlags(0xffff)
			on := []bool{}
			refs := []detour.PolyRef{}
			found := []d3.Vec3{}
			for _, p := range pts {
				c := d3.NewVec3XYZ(p[0], p[1], p[2])
				lim := float32(3+per) * wch
				_, ref, pt := q.FindNearestPoly(c, d3.NewVec3XYZ(wcs/4, lim, wcs/4), f)
				if ref != 0 {
					d := pt.Sub(c)
					if abs32(d[0]) > wcs/4 || abs32(d[2]) > wcs/4 || abs32(d[1]) > lim {
						ref = 0
					}
				}
				on, refs, found = append(on, ref != 0), append(refs, ref), append(found, pt)
			}
			way := func(i, j int) bool {
				if refs[i] == 0 || refs[j] == 0 {
					return false
				}
				path := make([]detour.PolyRef, 512)
				n, s := q.FindPath(refs[i], refs[j], found[i], found[j], f, path)
				return detour.StatusSucceed(s) && n > 0 && path[n-1] == refs[j] && !detour.StatusDetail(s, detour.PartialResult)
			}
			tr.Emit("Ramp", M{"kind": kind, "ok": ok, "on": on, "up": way(0, 2), "down": way(2, 0)})
		}) {
			return
		}
	}
}

func rampsCmd(tr *Trace, r *rng, a *Args) {
	for i := 0; i < a.N; i++ {
		rampTrace(tr, r)
	}
}
