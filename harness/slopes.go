package main

import (
	"encoding/json"
	"fmt"

	"github.com/arl/go-detour/recast"
)

// C38: walkable triangles.

func init() { cmds["slopes"] = slopesCmd }

var slopeAngles = []float32{0, 10, 20, 22.5, 30, 40, 45, 50, 60, 67.5, 70, 80, 85}

func slopeBatch(tr *Trace, r *rng, vs [][3]int, ts [][3]int, k, op int) {
	sc := []float32{0.125, 1, 1, 0.75, 256}[r.Intn(5)]
	off := [3]float32{float32(r.in(-8, 8)), float32(r.in(-8, 8)), float32(r.in(-8, 8))}
	var v []float32
	for _, p := range vs {
		for i := range p {
			v = append(v, (float32(p[i])+off[i])*sc)
		}
	}
	var t []int32
	for _, x := range ts {
		t = append(t, int32(x[0]), int32(x[1]), int32(x[2]))
	}
	areas := make([]uint8, len(ts)+r.in(0, 2))
	before := []int{}
	for i := range areas {
		areas[i] = uint8([]int{0, 0, 1, 5, 62, 63, 63}[r.Intn(7)])
		before = append(before, int(areas[i]))
	}
	tr.try("Slope", func() {
		ctx := recast.NewBuildContext(false)
		if op == 1 {
			recast.MarkWalkableTriangles(ctx, slopeAngles[k], v, int32(len(vs)), t, int32(len(ts)), areas)
		} else {
			recast.ClearUnwalkableTriangles(ctx, slopeAngles[k], v, int32(len(vs)), t, int32(len(ts)), areas)
		}
	})
	after := []int{}
	for _, a := range areas {
		after = append(after, int(a))
	}
	tr.Emit("Batch", M{"v": vs, "t": ts, "k": k + 1, "op": op, "before": before, "after": after})
}

func slopesCmd(tr *Trace, r *rng, a *Args) {
	if a.Sched != "" {
		for _, ln := range schedLines(a) {
			var vs [][3]int
			if json.Unmarshal(ln, &vs) != nil {
				die(fmt.Errorf("slopes: %s", ln))
			}
			tr.Emit("Begin", M{})
			for k := range slopeAngles {
				for op := 1; op <= 2; op++ {
					slopeBatch(tr, r, vs, [][3]int{{0, 1, 2}, {0, 2, 1}}, k, op)
				}
			}
		}
		return
	}
	for i := 0; i < a.N; i++ {
		tr.Emit("Begin", M{})
		for j := 0; j < 10; j++ {
			var vs, ts [][3]int
			m := []int{1, 2, 4}[r.Intn(3)]
			for n := r.in(3, 10); n > 0; n-- {
				vs = append(vs, [3]int{r.in(-4, 4), r.in(-m, m), r.in(-4, 4)})
			}
			for n := r.in(0, 12); n > 0; n-- {
				ts = append(ts, [3]int{r.Intn(len(vs)), r.Intn(len(vs)), r.Intn(len(vs))})
			}
			if ts == nil {
				ts = [][3]int{}
			}
			slopeBatch(tr, r, vs, ts, r.Intn(len(slopeAngles)), r.in(1, 2))
		}
	}
}
