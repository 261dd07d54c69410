package recast_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/arl/go-detour/recast"
)

var _ = strings.NewReader
var _ = fmt.Sprint

// rField is an empty heightfield of unit cells.
func rField(w, h int, ox, oz float32, top float32) *recast.Heightfield {
	return recast.NewHeightfield(int32(w), int32(h), []float32{ox, 0, oz}, []float32{ox + float32(w), top, oz + float32(h)}, 1, 1)
}

// rBlock makes the rows lo..hi-1 of a cell solid.
func rBlock(hf *recast.Heightfield, x, z int, lo, hi float32, area uint8) {
	fx, fz := hf.BMin[0]+float32(x)+0.5, hf.BMin[2]+float32(z)+0.5
	recast.RasterizeTriangle(recast.NewBuildContext(false), []float32{fx, lo + 0.25, fz}, []float32{fx + 0.25, hi - 0.25, fz}, []float32{fx, hi - 0.25, fz + 0.25}, area, hf, 1)
}

func rCompact(hf *recast.Heightfield, height, climb int32) *recast.CompactHeightfield {
	chf := &recast.CompactHeightfield{}
	recast.BuildCompactHeightfield(recast.NewBuildContext(false), height, climb, hf, chf)
	return chf
}

// rCell lists the open spaces of a cell as [floor clearance area].
func rCell(chf *recast.CompactHeightfield, x, z int) [][3]int {
	var out [][3]int
	c := chf.Cells[x+z*int(chf.Width)]
	for k := c.Index; k < c.Index+uint32(c.Count); k++ {
		out = append(out, [3]int{int(chf.Spans[k].Y), int(chf.Spans[k].H), int(chf.Areas[k])})
	}
	return out
}

// rMesh goes on with the spaces of a field: regions, contours, polygons.
func rMesh(chf *recast.CompactHeightfield, border int32, err float32, nvp int32) (*recast.ContourSet, *recast.PolyMesh) {
	ctx := recast.NewBuildContext(false)
	recast.BuildRegionsMonotone(ctx, chf, border, 0, 0)
	cset := &recast.ContourSet{}
	recast.BuildContours(ctx, chf, err, 0, cset, 0)
	pm, _ := recast.BuildPolyMesh(ctx, cset, nvp)
	return cset, pm
}
