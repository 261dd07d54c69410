From e96549631ecda0728e16a3c8084598a14ed4ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 01/55] fix: do not overflow 16 bits when indexing vertices of
 large tiles

Vertex indices are uint16; multiplying them by 3 before widening wraps for
indices >= 21846, although up to 0xfffe vertices per tile are accepted.
---
 detour/mesh.go          | 17 +++++++++--------
 detour/navmeshcreate.go | 18 +++++++++---------
 detour/query.go         | 29 ++++++++++++++++-------------
 3 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 82ac9ca..d919247 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -815,7 +815,8 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 			continue
 		}
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = tile.Verts[poly.Verts[0]*3 : poly.Verts[0]*3+3]
+		vbase := uint32(poly.Verts[0]) * 3
+		var v d3.Vec3 = tile.Verts[vbase : vbase+3]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1046,7 +1047,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := uint32(poly.Verts[i]) * 3
 		copy(verts[idx:], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1086,7 +1087,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 		)
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				vidx := poly.Verts[t[k]] * 3
+				vidx := uint32(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[vidx : vidx+3]
 			} else {
 				vidx := (pd.VertBase + uint32(t[k]-poly.VertCount)) * 3
@@ -1179,7 +1180,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		}
 
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = target.Verts[targetPoly.Verts[1]*3:]
+		var v d3.Vec3 = target.Verts[uint32(targetPoly.Verts[1])*3:]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1276,8 +1277,8 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 			}
 
 			// Create new links
-			va := tile.Verts[poly.Verts[j]*3:]
-			vb := tile.Verts[poly.Verts[(j+1)%int32(nv)]*3:]
+			va := tile.Verts[uint32(poly.Verts[j])*3:]
+			vb := tile.Verts[uint32(poly.Verts[(j+1)%int32(nv)])*3:]
 			nei := make([]PolyRef, 4)
 			neia := make([]float32, 4*2)
 			nnei := m.findConnectingPolys(va, vb, target, oppositeTile(dir), nei, neia, 4)
@@ -1356,9 +1357,9 @@ func (m *NavMesh) findConnectingPolys(
 				continue
 			}
 
-			idx := poly.Verts[j] * 3
+			idx := uint32(poly.Verts[j]) * 3
 			vc := tile.Verts[idx : idx+3]
-			idx = poly.Verts[(j+1)%nv] * 3
+			idx = uint32(poly.Verts[(j+1)%nv]) * 3
 			vd := tile.Verts[idx : idx+3]
 			bpos := slabCoord(vc, side)
 
diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5512bd1..17d837e 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -291,9 +291,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 		} else {
 			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
-			it.BMin[0] = params.Verts[p[0]*3+0]
-			it.BMin[1] = params.Verts[p[0]*3+1]
-			it.BMin[2] = params.Verts[p[0]*3+2]
+			it.BMin[0] = params.Verts[uint32(p[0])*3+0]
+			it.BMin[1] = params.Verts[uint32(p[0])*3+1]
+			it.BMin[2] = params.Verts[uint32(p[0])*3+2]
 
 			it.BMax[0] = it.BMin[0]
 			it.BMax[1] = it.BMin[1]
@@ -303,9 +303,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 				if p[j] == meshNullIdx {
 					break
 				}
-				x := params.Verts[p[j]*3+0]
-				y := params.Verts[p[j]*3+1]
-				z := params.Verts[p[j]*3+2]
+				x := params.Verts[uint32(p[j])*3+0]
+				y := params.Verts[uint32(p[j])*3+1]
+				z := params.Verts[uint32(p[j])*3+2]
 
 				if x < it.BMin[0] {
 					it.BMin[0] = x
@@ -831,13 +831,13 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// The nav polygon vertices are stored as the first vertices on each mesh.
 	// We compress the mesh data by skipping them and using the navmesh coordinates.
 	if params.DetailMeshes != nil && len(params.DetailMeshes) > 0 {
-		var vbase uint16
+		var vbase uint32
 		for i2 := int32(0); i2 < params.PolyCount; i2++ {
 			dtl := &navDMeshes[i2]
 			vb := params.DetailMeshes[i2*4+0]
 			ndv := params.DetailMeshes[i2*4+1]
 			nv := int32(navPolys[i2].VertCount)
-			dtl.VertBase = uint32(vbase)
+			dtl.VertBase = vbase
 			dtl.VertCount = uint8(ndv - nv)
 			dtl.TriBase = uint32(params.DetailMeshes[i2*4+2])
 			dtl.TriCount = uint8(params.DetailMeshes[i2*4+3])
@@ -845,7 +845,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 			if ndv-nv != 0 {
 				start, length := int32(vb+nv)*3, 3*int32(ndv-nv)
 				copy(navDVerts[vbase*3:], params.DetailVerts[start:start+length])
-				vbase += uint16(ndv - nv)
+				vbase += uint32(ndv - nv)
 			}
 		}
 		// Store triangles.
diff --git a/detour/query.go b/detour/query.go
index 1dd9e18..6aceedd 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -830,7 +830,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if fromTile.Links[i].Ref == to {
 				// TODO: AR, repass here and test
 				v := fromTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := uint32(fromPoly.Verts[v]) * 3
 				copy(left, fromTile.Verts[vidx:vidx+3])
 				copy(right, fromTile.Verts[vidx:vidx+3])
 				return Success
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := uint32(fromPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
@@ -858,9 +858,9 @@ func (q *NavMeshQuery) portalPoints8(
 	v1 := fromPoly.Verts[(link.Edge+1)%fromPoly.VertCount]
 
 	// TODO: AR TO BE TESTED!
-	v0idx := v0 * 3
+	v0idx := uint32(v0) * 3
 	copy(left, fromTile.Verts[v0idx:v0idx+3])
-	v1idx := v1 * 3
+	v1idx := uint32(v1) * 3
 	copy(right, fromTile.Verts[v1idx:v1idx+3])
 
 	// If the link is at tile boundary, clamp the vertices to
@@ -958,9 +958,9 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		vidx := poly.Verts[0] * 3
+		vidx := uint32(poly.Verts[0]) * 3
 		v0 = tile.Verts[vidx : vidx+3]
-		vidx = poly.Verts[1] * 3
+		vidx = uint32(poly.Verts[1]) * 3
 		v1 = tile.Verts[vidx : vidx+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
@@ -983,7 +983,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := uint32(poly.Verts[i]) * 3
 		copy(verts[idx:idx+3], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1065,7 +1065,8 @@ func (q *NavMeshQuery) ClosestPointOnPolyBoundary(ref PolyRef, pos, closest d3.V
 		nv    int32
 	)
 	for i := uint8(0); i < poly.VertCount; i++ {
-		copy(verts[nv*3:nv*3+3], tile.Verts[poly.Verts[i]*3:poly.Verts[i]*3+3])
+		vidx := uint32(poly.Verts[i]) * 3
+		copy(verts[nv*3:nv*3+3], tile.Verts[vidx:vidx+3])
 		nv++
 	}
 
@@ -1317,12 +1318,12 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 				continue
 			}
 			// Calc polygon bounds.
-			vidx := p.Verts[0] * 3
+			vidx := uint32(p.Verts[0]) * 3
 			v := tile.Verts[vidx : vidx+3]
 			bmin.Assign(v)
 			bmax.Assign(v)
 			for j := uint8(1); j < p.VertCount; j++ {
-				vidx = p.Verts[j] * 3
+				vidx = uint32(p.Verts[j]) * 3
 				v = tile.Verts[vidx : vidx+3]
 				d3.Vec3Min(bmin, v)
 				d3.Vec3Max(bmax, v)
@@ -1486,7 +1487,8 @@ func (q *NavMeshQuery) Raycast(
 		// Collect vertices.
 		var nv int
 		for i := 0; i < int(poly.VertCount); i++ {
-			copy(verts[nv*3:], tile.Verts[poly.Verts[i]*3:3+poly.Verts[i]*3])
+			vidx := uint32(poly.Verts[i]) * 3
+			copy(verts[nv*3:], tile.Verts[vidx:vidx+3])
 			nv++
 		}
 
@@ -1571,8 +1573,9 @@ func (q *NavMeshQuery) Raycast(
 			// Check for partial edge links.
 			v0 := poly.Verts[link.Edge]
 			v1 := poly.Verts[(link.Edge+1)%poly.VertCount]
-			left := tile.Verts[v0*3 : 3+v0*3]
-			right := tile.Verts[v1*3 : 3+v1*3]
+			v0idx, v1idx := uint32(v0)*3, uint32(v1)*3
+			left := tile.Verts[v0idx : v0idx+3]
+			right := tile.Verts[v1idx : v1idx+3]
 
 			// Check that the intersection lies inside the link portal.
 			if link.Side == 0 || link.Side == 4 {
-- 
2.43.0


From a511d9402e26224ca602207e7331201223bee2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 02/55] fix: (un)serialize flags and side of off-mesh
 connections at their own offset

They were written to and read from bytes 30 and 31 of the tile, overwriting
a vertex and giving all connections the same flags and side.
---
 detour/tile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/detour/tile.go b/detour/tile.go
index 31dcf75..9a57d2c 100644
--- a/detour/tile.go
+++ b/detour/tile.go
@@ -191,8 +191,8 @@ func (s *MeshTile) unserialize(hdr *MeshHeader, src []byte) {
 		o.Pos[5] = math.Float32frombits(little.Uint32(src[off+20:]))
 		o.Rad = math.Float32frombits(little.Uint32(src[off+24:]))
 		o.Poly = little.Uint16(src[off+28:])
-		o.Flags = src[30]
-		o.Side = src[31]
+		o.Flags = src[off+30]
+		o.Side = src[off+31]
 		o.UserID = little.Uint32(src[off+32:])
 		off += 36
 	}
@@ -286,8 +286,8 @@ func serializeTileData(dst []byte,
 		little.PutUint32(dst[off+20:], uint32(math.Float32bits(o.Pos[5])))
 		little.PutUint32(dst[off+24:], uint32(math.Float32bits(o.Rad)))
 		little.PutUint16(dst[off+28:], o.Poly)
-		dst[30] = o.Flags
-		dst[31] = o.Side
+		dst[off+30] = o.Flags
+		dst[off+31] = o.Side
 		little.PutUint32(dst[off+32:], o.UserID)
 		off += 36
 	}
-- 
2.43.0


From ce3396df1073bf7ea9472a5cac4782612c1ad7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 03/55] fix: read whole tiles when decoding a navmesh

A single Read may legally return fewer bytes than requested: tiles read from
anything but a local file, or from a truncated file, were silently completed
with zeroes. Also refuse tile sizes too small to hold a tile header.
---
 detour/mesh.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index d919247..7349e0e 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -107,11 +107,14 @@ func Decode(r io.Reader) (*NavMesh, error) {
 			break
 		}
 
-		data := make([]byte, tileHdr.DataSize)
-		if data == nil {
-			break
+		var tile MeshHeader
+		if int(tileHdr.DataSize) < tile.size() {
+			return nil, fmt.Errorf("wrong size for tile %d: %d", i, tileHdr.DataSize)
 		}
-		_, err = r.Read(data)
+
+		data := make([]byte, tileHdr.DataSize)
+		// A single Read may return less than the whole tile.
+		_, err = io.ReadFull(r, data)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 07a72e75bc38a9829fc3e8804df11397b6cd4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 04/55] fix: close the file and report errors when saving a
 navmesh

---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 7349e0e..5f587a3 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -133,7 +133,11 @@ func (m *NavMesh) SaveToFile(fn string) error {
 		return err
 	}
 
-	return m.ToWriter(f)
+	if err = m.ToWriter(f); err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
 }
 
 // ToWriter writes binary navigation mesh to io.Writer.
-- 
2.43.0


From ca575e0c8632c2f1de0997201595109b1652725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 05/55] fix: AddTile reports failure instead of ending the
 process

A full mesh or a reference that cannot be restored called log.Fatal although
the documented failure status follows.
---
 detour/mesh.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 5f587a3..c8e7a8d 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -4,7 +4,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"log"
 	"math"
 	"os"
 	"unsafe"
@@ -343,7 +342,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		// Try to relocate the tile to specific index with same salt.
 		tileIndex := int32(m.decodePolyIDTile(PolyRef(lastRef)))
 		if tileIndex >= m.MaxTiles {
-			log.Fatalln("tileIndex >= m.m_maxTiles", tileIndex, m.MaxTiles)
 			return Failure | OutOfMemory, 0
 		}
 		// Try to find the specific tile id from the free list.
@@ -356,7 +354,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		}
 		// Could not find the correct location.
 		if tile != target {
-			log.Fatalln("couldn't find the correct tile location")
 			return Failure | OutOfMemory, 0
 		}
 		// Remove from freelist
@@ -372,7 +369,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 
 	// Make sure we could allocate a tile.
 	if tile == nil {
-		log.Fatalln("couldn't allocate tile")
 		return Failure | OutOfMemory, 0
 	}
 
-- 
2.43.0


From 5d15a3b7d1b1abb4b79ef9e3f2df2adbc1f7b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 06/55] fix: RemoveTile fails on a reference to a tile slot
 that holds no tile

It dereferenced the missing tile header when the salt happened to match.
---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index c8e7a8d..1eea624 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -463,7 +463,7 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 		return data, Failure | InvalidParam
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return data, Failure | InvalidParam
 	}
 	if tile.Data != nil {
-- 
2.43.0


From db6742ef15df8b3b1a4ee125197be5773da45b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 07/55] fix: InitForSingleTile must not use the tile flags as
 tile reference

Non-zero flags were passed to AddTile as the reference to restore, giving the
tile a zero salt or failing.
---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 1eea624..bbedacb 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -237,7 +237,11 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 		return status
 	}
 
-	status, _ = m.AddTile(data, TileRef(flags))
+	var ref TileRef
+	status, ref = m.AddTile(data, 0)
+	if StatusSucceed(status) {
+		m.TileByRef(ref).Flags = int32(flags)
+	}
 	return status
 }
 
-- 
2.43.0


From d22ee58f573f4fcff0bc5366b5127aee99b1381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 08/55] fix: do not overflow 16 bits when looking up the height
 of a polygon

---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 6aceedd..4e1dd7b 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1023,7 +1023,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 		var k int
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				idx = int(poly.Verts[t[k]] * 3)
+				idx = int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[idx : idx+3]
 			} else {
 				idx = int((pd.VertBase + uint32(t[k]-poly.VertCount)) * 3)
-- 
2.43.0


From 998e3e06a1c9e6a3166d57523d8b7a20d6198ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 09/55] fix: portal onto an off-mesh connection is at a vertex
 of that connection

---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 4e1dd7b..81a31cf 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := uint32(fromPoly.Verts[v]) * 3
+				vidx := uint32(toPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
-- 
2.43.0


From db768ed8e6d3b3cfd719a43fbb63f8473f01bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 10/55] fix: querying a tile without BV-tree must not end the
 process

---
 detour/query.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 81a31cf..69318ee 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1308,8 +1308,6 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 			p := &tile.Polys[i]
 			// Do not return off-mesh connection polygons.
 			if p.Type() == polyTypeOffMeshConnection {
-
-				log.Fatalf("do return off-mesh connection polygons")
 				continue
 			}
 			// Must pass filter
-- 
2.43.0


From 13264d02c4f87aa9fa4db0a21943210cc6856931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 11/55] fix: Raycast must not depend on previous content of the
 hit structure

---
 detour/query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 69318ee..10c2e70 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1459,6 +1459,9 @@ func (q *NavMeshQuery) Raycast(
 	curPos = d3.NewVec3From(startPos)
 	dir = endPos.Sub(startPos)
 	hit.HitNormal = d3.NewVec3()
+	hit.T = 0
+	hit.PathCount = 0
+	hit.PathCost = 0
 
 	st = Success
 
-- 
2.43.0


From a4280af4e16a816aa4fc094aad63edab297ac516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 12/55] fix: NewNavMeshQuery accepts small node counts and
 refuses non-positive ones

---
 detour/query.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 10c2e70..82aac86 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -109,7 +109,7 @@ func newQueryData() queryData {
 // functions are used.
 // This function can be used multiple times.
 func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
-	if maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
+	if maxNodes <= 0 || maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
 		return Failure | InvalidParam, nil
 	}
 
@@ -120,7 +120,11 @@ func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
 		if q.nodePool != nil {
 			q.nodePool = nil
 		}
-		q.nodePool = newNodePool(maxNodes, int32(math32.NextPow2(uint32(maxNodes/4))))
+		hashSize := int32(math32.NextPow2(uint32(maxNodes / 4)))
+		if hashSize == 0 {
+			hashSize = 1
+		}
+		q.nodePool = newNodePool(maxNodes, hashSize)
 		if q.nodePool == nil {
 			return Failure | OutOfMemory, nil
 		}
-- 
2.43.0


From 175a534501fb365f8132632c9913b6a74c55b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 13/55] fix: CreateNavMeshData without BV-tree

---
 detour/navmeshcreate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 17d837e..5d5b1be 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -719,7 +719,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	navDMeshes := make([]PolyDetail, params.PolyCount)
 	navDVerts := make([]float32, 3*uniqueDetailVertCount)
 	navDTris := make([]uint8, 4*detailTriCount)
-	navBvtree := make([]BvNode, params.PolyCount*2)
+	var navBvtree []BvNode
+	if params.BuildBvTree {
+		navBvtree = make([]BvNode, params.PolyCount*2)
+	}
 	offMeshCons := make([]OffMeshConnection, storedOffMeshConCount)
 
 	// Fill header
-- 
2.43.0


From 5c490c74a7ebe12bd846498851f3be38860b3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 14/55] fix: CreateNavMeshData with BV-tree but without detail
 meshes

---
 detour/navmeshcreate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5d5b1be..b8f6186 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -289,7 +289,6 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[1] = uint16(int32Clamp(int32((bmax[1]-params.BMin[1])*quantFactor), 0, 0xffff))
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
 		} else {
-			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
 			it.BMin[0] = params.Verts[uint32(p[0])*3+0]
 			it.BMin[1] = params.Verts[uint32(p[0])*3+1]
-- 
2.43.0


From 99f9ec8ceb09dd62361f8d994a3f8433464a3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 15/55] fix: attach off-mesh connections to the polygon nearest
 to their end points

---
 detour/mesh.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index bbedacb..b548049 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -813,7 +813,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 		// Find polygon to connect to.
 		p = con.Pos[0:3] // First vertex
 		nearestPt := make([]float32, 3)
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.nearestPolyInTile(tile, p, ext, nearestPt)
 		if ref == 0 {
 			continue
 		}
@@ -858,6 +858,23 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 	}
 }
 
+// anyPolyFilter is a QueryFilter that lets every polygon pass.
+type anyPolyFilter struct{ StandardQueryFilter }
+
+func (anyPolyFilter) PassFilter(ref PolyRef, tile *MeshTile, poly *Poly) bool { return true }
+
+// nearestPolyInTile finds the polygon of a tile nearest to center, whatever its
+// flags, and assigns to nearestPt the point of that polygon nearest to center.
+func (m *NavMesh) nearestPolyInTile(tile *MeshTile, center, extents, nearestPt d3.Vec3) PolyRef {
+	q := NavMeshQuery{nav: m}
+	query := newFindNearestPolyQuery(&q, center)
+	q.queryPolygonsInTile(tile, center.Sub(extents), center.Add(extents), &anyPolyFilter{}, query)
+	if query.nearestRef != 0 {
+		nearestPt.Assign(query.nearestPoint)
+	}
+	return query.nearestRef
+}
+
 // FindNearestPolyInTile finds the nearest polygon within a tile.
 func (m *NavMesh) FindNearestPolyInTile(tile *MeshTile, center, extents, nearestPt d3.Vec3) PolyRef {
 	bmin := center.Sub(extents)
@@ -1176,7 +1193,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		// Find polygon to connect to.
 		p := targetCon.Pos[3:6]
 		nearestPt := d3.NewVec3()
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.nearestPolyInTile(tile, p, ext, nearestPt)
 		if ref == 0 {
 			continue
 		}
-- 
2.43.0


From b53ba2188b791c57c779159feb7e33c555b70b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 16/55] fix: do not overflow 16 bits when averaging polygon
 vertices

---
 detour/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/poly.go b/detour/poly.go
index 86c4026..3010372 100644
--- a/detour/poly.go
+++ b/detour/poly.go
@@ -59,7 +59,7 @@ func CalcPolyCenter(idx []uint16, nidx int32, verts []float32) d3.Vec3 {
 	tc := d3.NewVec3()
 	var j int32
 	for j = 0; j < nidx; j++ {
-		start := idx[j] * 3
+		start := uint32(idx[j]) * 3
 		v := verts[start : start+3]
 		tc[0] += v[0]
 		tc[1] += v[1]
-- 
2.43.0


From fa90fa5e6de40248b7a3d5d4ace5284cbd9a57e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 17/55] fix: removing a restored tile must not bring back
 references issued since

---
 detour/mesh.go | 15 +++++++++++----
 detour/tile.go |  4 ++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index b548049..8c73bfe 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -367,7 +367,9 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 			prev.Next = tile.Next
 		}
 
-		// Restore salt.
+		// Restore salt. Remember the one that was due, in order not to issue
+		// again, later on, a reference that has been in use since lastRef.
+		tile.nextSalt = tile.Salt
 		tile.Salt = m.decodePolyIDSalt(PolyRef(lastRef))
 	}
 
@@ -532,10 +534,15 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 	tile.DataSize = 0
 
 	// Update salt, salt should never be zero.
-	tile.Salt = (tile.Salt + 1) & ((1 << m.saltBits) - 1)
-	if tile.Salt == 0 {
-		tile.Salt++
+	if tile.nextSalt > tile.Salt {
+		tile.Salt = tile.nextSalt
+	} else {
+		tile.Salt = (tile.Salt + 1) & ((1 << m.saltBits) - 1)
+		if tile.Salt == 0 {
+			tile.Salt++
+		}
 	}
+	tile.nextSalt = 0
 
 	// Add to free list.
 	tile.Next = m.nextFree
diff --git a/detour/tile.go b/detour/tile.go
index 9a57d2c..7033bd5 100644
--- a/detour/tile.go
+++ b/detour/tile.go
@@ -96,6 +96,10 @@ type MeshTile struct {
 
 	// The next free tile, or the next tile in the spatial grid.
 	Next *MeshTile
+
+	// The salt that was due when the tile was restored under a former
+	// reference. (Zero if it was not.)
+	nextSalt uint32
 }
 
 func (s *MeshTile) serialize(dst []byte) {
-- 
2.43.0


From 42f8cbd1df8119e1c2f04e6dd93367edb64a76fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 18/55] fix: refuse tile source data outside the documented
 limits

---
 detour/navmeshcreate.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index b8f6186..4ed5d9c 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -544,18 +544,24 @@ type NavMeshCreateParams struct {
 //
 // see NavMesh, NavMesh.AddTile()
 func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
-	if params.Nvp > int32(VertsPerPolygon) {
+	if params.Nvp < 3 || params.Nvp > int32(VertsPerPolygon) {
 		return nil, fmt.Errorf("wrong value for params.Nvp")
 	}
 	if params.VertCount >= 0xffff {
 		return nil, fmt.Errorf("wrong value for params.VertCount")
 	}
-	if params.VertCount == 0 || params.Verts == nil {
+	if params.VertCount < 3 || params.Verts == nil {
 		return nil, fmt.Errorf("wrong value for params.VertCount or params.Verts")
 	}
-	if params.PolyCount == 0 || params.Polys == nil {
+	if params.PolyCount < 1 || params.Polys == nil {
 		return nil, fmt.Errorf("wrong value for params.PolyCount or params.Polys")
 	}
+	if params.OffMeshConCount < 0 {
+		return nil, fmt.Errorf("wrong value for params.OffMeshConCount")
+	}
+	if !(params.Cs > 0) || !(params.Ch > 0) {
+		return nil, fmt.Errorf("wrong value for params.Cs or params.Ch")
+	}
 
 	nvp := params.Nvp
 
-- 
2.43.0


From 36bc8cd18e393a8a0a9ba3aa178189fcab5b8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 19/55] fix: refuse more vertices than a polygon can index,
 off-mesh ones included

---
 detour/navmeshcreate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 4ed5d9c..7d1462b 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -632,6 +632,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// Off-mesh connectionss are stored as polygons, adjust values.
 	totPolyCount := int(params.PolyCount + storedOffMeshConCount)
 	totVertCount := int(params.VertCount + storedOffMeshConCount*2)
+	if totVertCount > math.MaxUint16+1 {
+		// polygons index vertices with 16 bits
+		return nil, fmt.Errorf("too many vertices: %d", totVertCount)
+	}
 
 	// Find portal edges which are at tile borders.
 	var (
-- 
2.43.0


From ecfb3aa9f94a0a67ee53fd967d99e58d5f2c48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 20/55] fix: polygon queries must not visit the unused nodes
 after the BV-tree

The array of nodes is twice as long as the number of polygons, one more
than the tree has: the zero node at its end was taken for a leaf of
polygon 0, which was found in every box around the tile's corner.
---
 detour/query.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 82aac86..7191d01 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1249,7 +1249,12 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		)
 
 		nodeIdx = 0
-		endIdx = tile.Header.BvNodeCount
+		// The tree ends where the root escapes to: the nodes that follow, up to
+		// BvNodeCount, are unused.
+		endIdx = 1
+		if root := tile.BvTree[0].I; root < 0 {
+			endIdx = -root
+		}
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
 		tbmax = d3.NewVec3From(tile.Header.BMax[:])
-- 
2.43.0


From dea1f46a68c50eef03d0f5641b54373eeac0a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 21/55] fix: surface height must not be taken from degenerate
 detail triangles

Three corners on a line give barycentric coordinates that are nothing
but rounding errors, and positions beside the triangle got its height.
---
 detour/common.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/detour/common.go b/detour/common.go
index a95e6c8..5a934f8 100644
--- a/detour/common.go
+++ b/detour/common.go
@@ -183,8 +183,15 @@ func closestHeightPointTriangle(p, a, b, c d3.Vec3, h *float32) bool {
 	dot11 := v1.Dot2D(v1)
 	dot12 := v1.Dot2D(v2)
 
+	// Degenerate triangles have no interior, their barycentric coordinates
+	// would only be rounding errors.
+	denom := dot00*dot11 - dot01*dot01
+	if denom <= 1e-6*dot00*dot11 {
+		return false
+	}
+
 	// Compute barycentric coordinates
-	invDenom := 1.0 / (dot00*dot11 - dot01*dot01)
+	invDenom := 1.0 / denom
 	u := (dot11*dot02 - dot01*dot12) * invDenom
 	v := (dot00*dot12 - dot01*dot02) * invDenom
 
-- 
2.43.0


From fb5ac9ef53e2eb433e6d9a4730edacc19f2bf4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 22/55] fix: finalizing a sliced path search that was not
 started must fail

---
 detour/query.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 7191d01..6910ad2 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2056,8 +2056,8 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 //
 // TODO: should remove maxPath as it should be the length of the path slice
 func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (pathCount int, st Status) {
-	if StatusFailed(q.query.status) {
-		// Reset query.
+	if !StatusSucceed(q.query.status) && !StatusInProgress(q.query.status) {
+		// The search failed, or there is none. Reset query.
 		q.query = queryData{}
 		return 0, Failure
 	}
@@ -2160,8 +2160,8 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 		return 0, Failure
 	}
 
-	if StatusFailed(q.query.status) {
-		// Reset query.
+	if !StatusSucceed(q.query.status) && !StatusInProgress(q.query.status) {
+		// The search failed, or there is none. Reset query.
 		q.query = queryData{}
 		return 0, Failure
 	}
-- 
2.43.0


From d9544b1cf381dc304cfbfdab4b69cd6808850aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 23/55] fix: a shortcut of an any-angle path must fit the
 result and still exist

---
 detour/query.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 6910ad2..22d1ee5 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2105,13 +2105,22 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				var (
 					normal [3]float32
 					m      int
+					t      float32
 				)
-				m, _, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				m, t, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				if StatusFailed(status) || m == 0 || t < 1 {
+					// The mesh has changed and the shortcut does not exist anymore, fail.
+					q.query = queryData{}
+					return 0, Failure
+				}
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
 				if path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
+				if n >= maxPath {
+					status |= BufferTooSmall
+				}
 			} else {
 				path[n] = node.ID
 				n++
@@ -2220,13 +2229,22 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				var (
 					normal [3]float32
 					m      int
+					t      float32
 				)
-				m, _, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				m, t, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				if StatusFailed(status) || m == 0 || t < 1 {
+					// The mesh has changed and the shortcut does not exist anymore, fail.
+					q.query = queryData{}
+					return 0, Failure
+				}
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
 				if path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
+				if n >= maxPath {
+					status |= BufferTooSmall
+				}
 			} else {
 				path[n] = node[0].ID
 				n++
-- 
2.43.0


From 884ee3797a5e0eb0aed34d40004f3f19b5f1e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 24/55] fix: an any-angle path must not jump to another floor

---
 detour/query.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 22d1ee5..2d5fbbe 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -52,6 +52,9 @@ type RaycastHit struct {
 
 	//  The cost of the path until hit.
 	PathCost float32
+
+	// The last polygon the ray visited.
+	lastRef PolyRef
 }
 
 // NavMeshQuery provides the ability to perform pathfinding related queries
@@ -883,6 +886,23 @@ func (q *NavMeshQuery) portalPoints8(
 	return Success
 }
 
+// linked returns true if there is a link from a polygon to another.
+func (q *NavMeshQuery) linked(from, to PolyRef) bool {
+	var (
+		tile *MeshTile
+		poly *Poly
+	)
+	if StatusFailed(q.nav.TileAndPolyByRef(from, &tile, &poly)) {
+		return false
+	}
+	for i := poly.FirstLink; i != nullLink; i = tile.Links[i].Next {
+		if tile.Links[i].Ref == to {
+			return true
+		}
+	}
+	return false
+}
+
 // pathToNode gets the path leading to the specified end node.
 func (q *NavMeshQuery) pathToNode(
 	endNode *Node,
@@ -1471,6 +1491,7 @@ func (q *NavMeshQuery) Raycast(
 	hit.T = 0
 	hit.PathCount = 0
 	hit.PathCost = 0
+	hit.lastRef = 0
 
 	st = Success
 
@@ -1514,6 +1535,7 @@ func (q *NavMeshQuery) Raycast(
 		}
 
 		hit.HitEdgeIndex = segMax
+		hit.lastRef = curRef
 
 		// Keep track of furthest t so far.
 		if tmax > hit.T {
@@ -1956,7 +1978,8 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 			rayHit.T = 0
 			if tryLOS {
 				_ = q.Raycast(parentRef, parentNode.Pos, neighbourNode.Pos, q.query.filter, RaycastUseCosts, &rayHit, grandpaRef)
-				foundShortCut = rayHit.T >= 1.0
+				// the ray moves in 2d, it must not have ended on another floor
+				foundShortCut = rayHit.T >= 1.0 && (rayHit.lastRef == bestRef || rayHit.lastRef == neighbourRef)
 			}
 
 			// update move cost
@@ -2108,7 +2131,8 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 					t      float32
 				)
 				m, t, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
-				if StatusFailed(status) || m == 0 || t < 1 {
+				if StatusFailed(status) || m == 0 || t < 1 ||
+					(!StatusDetail(status, BufferTooSmall) && path[n+m-1] != next.ID && !q.linked(path[n+m-1], next.ID)) {
 					// The mesh has changed and the shortcut does not exist anymore, fail.
 					q.query = queryData{}
 					return 0, Failure
@@ -2232,7 +2256,8 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 					t      float32
 				)
 				m, t, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
-				if StatusFailed(status) || m == 0 || t < 1 {
+				if StatusFailed(status) || m == 0 || t < 1 ||
+					(!StatusDetail(status, BufferTooSmall) && path[n+m-1] != next.ID && !q.linked(path[n+m-1], next.ID)) {
 					// The mesh has changed and the shortcut does not exist anymore, fail.
 					q.query = queryData{}
 					return 0, Failure
-- 
2.43.0


From 00e395328940412c0fefc204b4564324c30783af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 25/55] fix: straight path of a broken corridor must not write
 past the result

---
 detour/query.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 2d5fbbe..b1ecef2 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -501,9 +501,12 @@ func (q *NavMeshQuery) FindStraightPath(
 					}
 
 					// Ignore status return value as we're just about to return anyway.
-					q.appendVertex(closestEndPos, 0, path[i],
-						straightPath, straightPathFlags, straightPathRefs,
-						&count)
+					// The portals may have used up the space.
+					if count < len(straightPath) {
+						q.appendVertex(closestEndPos, 0, path[i],
+							straightPath, straightPathFlags, straightPathRefs,
+							&count)
+					}
 
 					stat = Success | PartialResult
 					if count >= len(straightPath) {
-- 
2.43.0


From 32c6b64985b9ad21aa2c2404f77324489df3c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 26/55] fix: straight path must not take detours where tiles
 meet at different heights

---
 detour/query.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index b1ecef2..209fa7c 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -532,7 +532,7 @@ func (q *NavMeshQuery) FindStraightPath(
 
 			// Right vertex.
 			if TriArea2D(portalApex, portalRight, right) <= 0.0 {
-				if portalApex.Approx(portalRight) || TriArea2D(portalApex, portalLeft, right) > 0.0 {
+				if approx2D(portalApex, portalRight) || TriArea2D(portalApex, portalLeft, right) > 0.0 {
 					portalRight.Assign(right)
 					if i+1 < len(path) {
 						rightPolyRef = path[i+1]
@@ -587,7 +587,7 @@ func (q *NavMeshQuery) FindStraightPath(
 
 			// Left vertex.
 			if TriArea2D(portalApex, portalLeft, left) >= 0.0 {
-				if portalApex.Approx(portalLeft) || TriArea2D(portalApex, portalRight, left) < 0.0 {
+				if approx2D(portalApex, portalLeft) || TriArea2D(portalApex, portalRight, left) < 0.0 {
 					portalLeft.Assign(left)
 					if i+1 < len(path) {
 						leftPolyRef = path[i+1]
@@ -666,6 +666,11 @@ func (q *NavMeshQuery) FindStraightPath(
 	return count, stat
 }
 
+// approx2D reports whether two points are approximately equal on the xz-plane.
+func approx2D(a, b d3.Vec3) bool {
+	return math32.Approx(a[0], b[0]) && math32.Approx(a[2], b[2])
+}
+
 // appendPortals appends intermediate portal points to a straight path.
 func (q *NavMeshQuery) appendPortals(
 	startIdx, endIdx int,
-- 
2.43.0


From 4216120af406af786a012a4f728dcfdeeebf3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 27/55] fix: crossing points of a straight path lie on the
 portals

---
 detour/query.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 209fa7c..2f7ecae 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -721,6 +721,8 @@ func (q *NavMeshQuery) appendPortals(
 
 		// Append intersection
 		if hit, _, t := IntersectSegSeg2D(startPos, endPos, left, right); hit {
+			// When the segment runs along the portal, t is not reliable.
+			t = f32.Clamp(t, 0, 1)
 			pt := d3.NewVec3()
 			d3.Vec3Lerp(pt, left, right, t)
 
-- 
2.43.0


From 0483f4268eecb599ae01ea34a5e1d73e2134eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:51 +0000
Subject: [PATCH 28/55] fix: finalizing a sliced path search must not use more
 than the given slices

---
 detour/query.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 2f7ecae..7cfbd51 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2089,6 +2089,14 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 //
 // TODO: should remove maxPath as it should be the length of the path slice
 func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (pathCount int, st Status) {
+	// parameter check
+	if maxPath > len(path) {
+		maxPath = len(path)
+	}
+	if maxPath <= 0 {
+		return 0, Failure | InvalidParam
+	}
+
 	if !StatusSucceed(q.query.status) && !StatusInProgress(q.query.status) {
 		// The search failed, or there is none. Reset query.
 		q.query = queryData{}
@@ -2198,9 +2206,12 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 //	 pathCount    The number of polygons returned in the path array.
 //	 st           The status flags for the query.
 func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existingSize int, path []PolyRef, maxPath int) (pathCount int, st Status) {
-
-	if existingSize == 0 {
-		return 0, Failure
+	// parameter check
+	if maxPath > len(path) {
+		maxPath = len(path)
+	}
+	if maxPath <= 0 || existingSize <= 0 || existingSize > len(existing) {
+		return 0, Failure | InvalidParam
 	}
 
 	if !StatusSucceed(q.query.status) && !StatusInProgress(q.query.status) {
-- 
2.43.0


From 5abc814c4ecc30b19439f30a8ac940beca4c1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 29/55] fix: queries must refuse missing positions, filters and
 results

---
 detour/query.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 7cfbd51..f8c3650 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -434,6 +434,10 @@ func (q *NavMeshQuery) FindStraightPath(
 	if len(path) == 0 {
 		return 0, Failure | InvalidParam
 	}
+	if (len(straightPathFlags) > 0 && len(straightPathFlags) < len(straightPath)) ||
+		(len(straightPathRefs) > 0 && len(straightPathRefs) < len(straightPath)) {
+		return 0, Failure | InvalidParam
+	}
 
 	var (
 		stat  Status
@@ -982,7 +986,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	if StatusFailed(q.nav.TileAndPolyByRef(ref, &tile, &poly)) {
 		return Failure | InvalidParam
 	}
-	if tile == nil {
+	if tile == nil || len(pos) < 3 || len(closest) < 3 {
 		return Failure | InvalidParam
 	}
 
@@ -1090,6 +1094,9 @@ func (q *NavMeshQuery) ClosestPointOnPolyBoundary(ref PolyRef, pos, closest d3.V
 	if StatusFailed(q.nav.TileAndPolyByRef(ref, &tile, &poly)) {
 		return Failure | InvalidParam
 	}
+	if len(pos) < 3 || len(closest) < 3 {
+		return Failure | InvalidParam
+	}
 
 	// Collect vertices.
 	var (
@@ -1414,7 +1421,7 @@ func (q *NavMeshQuery) IsValidPolyRef(ref PolyRef, filter QueryFilter) bool {
 		return false
 	}
 	// If cannot pass filter, assume flags has changed and boundary is invalid.
-	if !filter.PassFilter(ref, tile, poly) {
+	if filter == nil || !filter.PassFilter(ref, tile, poly) {
 		return false
 	}
 	return true
@@ -1479,6 +1486,10 @@ func (q *NavMeshQuery) Raycast(
 	prevRef PolyRef) (st Status) {
 
 	// Validate input
+	if len(startPos) < 3 || len(endPos) < 3 || filter == nil || hit == nil {
+		st = Failure | InvalidParam
+		return
+	}
 	if startRef == 0 || !q.nav.IsValidPolyRef(startRef) {
 		st = Failure | InvalidParam
 		return
@@ -1553,7 +1564,7 @@ func (q *NavMeshQuery) Raycast(
 		}
 
 		// Store visited polygons.
-		if n < hit.MaxPath {
+		if n < hit.MaxPath && n < len(hit.Path) {
 			hit.Path[n] = curRef
 			n++
 		} else {
@@ -1807,6 +1818,9 @@ func (q *NavMeshQuery) InitSlicedFindPath(startRef, endRef PolyRef,
 	if startRef == 0 || endRef == 0 {
 		return Failure | InvalidParam
 	}
+	if len(startPos) < 3 || len(endPos) < 3 || filter == nil {
+		return Failure | InvalidParam
+	}
 
 	// Validate input
 	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) {
-- 
2.43.0


From 554742b58d21c0fd85e1cecfb3684a6c6e805a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 30/55] fix: queries must refuse positions that are not finite

---
 detour/query.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index f8c3650..2d09cac 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -190,7 +190,7 @@ func (q *NavMeshQuery) FindPath(
 	path []PolyRef) (pathCount int, st Status) {
 	// Validate input
 	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) ||
-		len(startPos) < 3 || len(endPos) < 3 || filter == nil || path == nil || len(path) == 0 {
+		!finite(startPos) || !finite(endPos) || filter == nil || path == nil || len(path) == 0 {
 		return pathCount, Failure | InvalidParam
 	}
 
@@ -900,6 +900,20 @@ func (q *NavMeshQuery) portalPoints8(
 	return Success
 }
 
+// finite returns true if a position has three components that are all finite.
+func finite(pos d3.Vec3) bool {
+	if len(pos) < 3 {
+		return false
+	}
+	for _, x := range pos[:3] {
+		// the difference is NaN for infinities and NaN
+		if x-x != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 // linked returns true if there is a link from a polygon to another.
 func (q *NavMeshQuery) linked(from, to PolyRef) bool {
 	var (
@@ -986,7 +1000,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	if StatusFailed(q.nav.TileAndPolyByRef(ref, &tile, &poly)) {
 		return Failure | InvalidParam
 	}
-	if tile == nil || len(pos) < 3 || len(closest) < 3 {
+	if tile == nil || !finite(pos) || len(closest) < 3 {
 		return Failure | InvalidParam
 	}
 
@@ -1094,7 +1108,7 @@ func (q *NavMeshQuery) ClosestPointOnPolyBoundary(ref PolyRef, pos, closest d3.V
 	if StatusFailed(q.nav.TileAndPolyByRef(ref, &tile, &poly)) {
 		return Failure | InvalidParam
 	}
-	if len(pos) < 3 || len(closest) < 3 {
+	if !finite(pos) || len(closest) < 3 {
 		return Failure | InvalidParam
 	}
 
@@ -1237,7 +1251,7 @@ func (q *NavMeshQuery) queryPolygons4(
 	filter QueryFilter,
 	query polyQuery) Status {
 	// parameter check
-	if len(center) != 3 || len(extents) != 3 || filter == nil || query == nil {
+	if len(center) != 3 || len(extents) != 3 || !finite(center) || !finite(extents) || filter == nil || query == nil {
 		return Failure | InvalidParam
 	}
 
@@ -1486,7 +1500,7 @@ func (q *NavMeshQuery) Raycast(
 	prevRef PolyRef) (st Status) {
 
 	// Validate input
-	if len(startPos) < 3 || len(endPos) < 3 || filter == nil || hit == nil {
+	if !finite(startPos) || !finite(endPos) || filter == nil || hit == nil {
 		st = Failure | InvalidParam
 		return
 	}
@@ -1818,7 +1832,7 @@ func (q *NavMeshQuery) InitSlicedFindPath(startRef, endRef PolyRef,
 	if startRef == 0 || endRef == 0 {
 		return Failure | InvalidParam
 	}
-	if len(startPos) < 3 || len(endPos) < 3 || filter == nil {
+	if !finite(startPos) || !finite(endPos) || filter == nil {
 		return Failure | InvalidParam
 	}
 
-- 
2.43.0


From b507b1dae6dc8e5efe27b57f3d235391c285c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 31/55] fix: triangles must be clipped at the lower borders of
 the heightfield

---
 recast/rasterization.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/recast/rasterization.go b/recast/rasterization.go
index ff6f20c..9f9927d 100644
--- a/recast/rasterization.go
+++ b/recast/rasterization.go
@@ -152,9 +152,10 @@ func rasterizeTri(v0, v1, v2 []float32,
 	}
 
 	// Calculate the footprint of the triangle on the grid's y-axis
-	y0 := int32((tmin[2] - bmin[2]) * ics)
-	y1 := int32((tmax[2] - bmin[2]) * ics)
-	y0 = int32Clamp(y0, 0, h-1)
+	y0 := int32(math32.Floor((tmin[2] - bmin[2]) * ics))
+	y1 := int32(math32.Floor((tmax[2] - bmin[2]) * ics))
+	// -1 rather than 0 cuts off what lies before the first row
+	y0 = int32Clamp(y0, -1, h-1)
 	y1 = int32Clamp(y1, 0, h-1)
 
 	// Clip the triangle into all grid cells it touches.
@@ -177,7 +178,7 @@ func rasterizeTri(v0, v1, v2 []float32,
 		cz := bmin[2] + float32(y)*cs
 		nvrow, nvIn = dividePoly(in, nvIn, inrow, p1, cz+cs, 2)
 		in, p1 = p1, in
-		if nvrow < 3 {
+		if nvrow < 3 || y < 0 {
 			continue
 		}
 
@@ -191,9 +192,12 @@ func rasterizeTri(v0, v1, v2 []float32,
 				maxX = inrow[i*3]
 			}
 		}
-		x0 := int32((minX - bmin[0]) * ics)
-		x1 := int32((maxX - bmin[0]) * ics)
-		x0 = int32Clamp(x0, 0, w-1)
+		x0 := int32(math32.Floor((minX - bmin[0]) * ics))
+		x1 := int32(math32.Floor((maxX - bmin[0]) * ics))
+		if x1 < 0 {
+			continue
+		}
+		x0 = int32Clamp(x0, -1, w-1)
 		x1 = int32Clamp(x1, 0, w-1)
 
 		var nv, nv2 int32
@@ -204,7 +208,7 @@ func rasterizeTri(v0, v1, v2 []float32,
 			cx := bmin[0] + float32(x)*cs
 			nv, nv2 = dividePoly(inrow, nv2, p1, p2, cx+cs, 0)
 			inrow, p2 = p2, inrow
-			if nv < 3 {
+			if nv < 3 || x < 0 {
 				continue
 			}
 
-- 
2.43.0


From 78d211457e18aa91cf8e67e4d55fe04d2c5ed7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 32/55] fix: merging a lower span must not change the area of a
 much higher one

---
 recast/heightfield.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/recast/heightfield.go b/recast/heightfield.go
index 2928aa2..a0a93a7 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -146,7 +146,16 @@ func (hf *Heightfield) addSpan(x, y int32, smin, smax uint16,
 			prev = cur
 			cur = cur.next
 		} else {
-			// Merge spans.
+			// Merge spans. The area is that of the higher one or, if their
+			// heights are close, the one with the higher id.
+			mergeFlags := int32(s.smax) - int32(cur.smax)
+			if iAbs(mergeFlags) <= flagMergeThr {
+				if cur.area > s.area {
+					s.area = cur.area
+				}
+			} else if mergeFlags < 0 {
+				s.area = cur.area
+			}
 			if cur.smin < s.smin {
 				s.smin = cur.smin
 			}
@@ -154,17 +163,6 @@ func (hf *Heightfield) addSpan(x, y int32, smin, smax uint16,
 				s.smax = cur.smax
 			}
 
-			// Merge flags.
-			mergeFlags := int32(s.smax) - int32(cur.smax)
-			if mergeFlags < 0 {
-				mergeFlags = -mergeFlags
-			}
-			if mergeFlags <= flagMergeThr {
-				if cur.area > s.area {
-					s.area = cur.area
-				}
-			}
-
 			// Remove current span.
 			next := cur.next
 			hf.freeSpan(cur)
-- 
2.43.0


From 1777945000b36a8fce1978474576776cc6f3b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:35 +0000
Subject: [PATCH 33/55] fix: eroding must not lose count of large distances

---
 recast/area.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 8f2b833..7c67669 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -30,11 +30,11 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 	ctx.StartTimer(TimerErodeArea)
 	defer ctx.StopTimer(TimerErodeArea)
 
-	dist := make([]uint8, chf.SpanCount)
+	dist := make([]uint16, chf.SpanCount)
 
 	// Init distance.
 	for i := range dist {
-		dist[i] = 0xff
+		dist[i] = 0xffff
 	}
 
 	// Mark boundary cells.
@@ -67,7 +67,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	var nd uint8
+	var nd uint16
 
 	// Pass 1
 	for y := int32(0); y < h; y++ {
@@ -83,7 +83,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(0)
 					ai := int32(chf.Cells[ax+ay*w].Index) + int32(GetCon(s, 0))
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -93,7 +93,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(3)
 						aay := ay + GetDirOffsetY(3)
 						aai := int32(chf.Cells[aax+aay*w].Index) + int32(GetCon(as, 3))
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -106,7 +106,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(3)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 3)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -116,7 +116,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(2)
 						aay := ay + GetDirOffsetY(2)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 2)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -140,7 +140,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(2)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 2)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -150,7 +150,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(1)
 						aay := ay + GetDirOffsetY(1)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 1)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -162,7 +162,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(1)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 1)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -172,7 +172,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(0)
 						aay := ay + GetDirOffsetY(0)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 0)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -182,7 +182,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	thr := uint8(radius * 2)
+	thr := uint16(radius * 2)
 	for i := int32(0); i < chf.SpanCount; i++ {
 		if dist[i] < thr {
 			chf.Areas[i] = nullArea
-- 
2.43.0


From 2965b95283f8f8e26222f0003bf2350f79babffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:47 +0000
Subject: [PATCH 34/55] fix: convex volumes must be marked with all their
 vertices

---
 recast/area.go      | 2 +-
 recast/inputgeom.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 7c67669..2075e5c 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -222,7 +222,7 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	var bmin, bmax [3]float32
 	copy(bmin[:], verts[:3])
 	copy(bmax[:], verts[:3])
-	for i := int32(1); i*3 < nverts; i++ {
+	for i := int32(1); i < nverts; i++ {
 		v := verts[i*3:]
 		d3.Vec3Min(bmin[:], v)
 		d3.Vec3Max(bmax[:], v)
diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index eec5939..4046849 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -211,7 +211,7 @@ func (ig *InputGeom) OffMeshConnectionCount() int32 {
 // The convex volume is defined by the verts slice [x, y, z] * Number of
 // vertices.
 func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area uint8) {
-	if ig.volumeCount >= maxVolumes {
+	if ig.volumeCount >= maxVolumes || len(verts)/3 > maxConvexVolPts {
 		return
 	}
 	vol := &ig.volumes[ig.volumeCount]
@@ -219,7 +219,7 @@ func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area u
 	copy(vol.Verts[:], verts)
 	vol.HMin = minh
 	vol.HMax = maxh
-	vol.NVerts = int32(len(verts))
+	vol.NVerts = int32(len(verts) / 3)
 	vol.Area = int32(area)
 }
 
-- 
2.43.0


From d3b0db9d35cfdc189e3465d8773eb7b12444efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 35/55] fix: changing a connection of a span must replace the
 old one

---
 recast/recast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/recast.go b/recast/recast.go
index dd10b7c..6d6fd86 100644
--- a/recast/recast.go
+++ b/recast/recast.go
@@ -238,7 +238,7 @@ func init() {
 func SetCon(s *CompactSpan, dir, i int32) {
 	shift := uint32(uint32(dir * 6))
 	con := uint32(s.Con)
-	s.Con = (con ^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
+	s.Con = (con &^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
 }
 
 // GetCon gets neighbor connection data for the specified direction.
-- 
2.43.0


From 520de80045eeb762e9442c982b3cd1c921714c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 36/55] fix: build steps must stop the timers they start

---
 recast/filter.go      | 3 +++
 recast/heightfield.go | 1 +
 recast/region.go      | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/recast/filter.go b/recast/filter.go
index 90f1905..059f8c3 100644
--- a/recast/filter.go
+++ b/recast/filter.go
@@ -24,6 +24,7 @@ import "github.com/arl/assertgo"
 func FilterLowHangingWalkableObstacles(ctx *BuildContext, walkableClimb int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterLowObstacles)
+	defer ctx.StopTimer(TimerFilterLowObstacles)
 
 	w := solid.Width
 	h := solid.Height
@@ -77,6 +78,7 @@ func FilterLowHangingWalkableObstacles(ctx *BuildContext, walkableClimb int32, s
 func FilterLedgeSpans(ctx *BuildContext, walkableHeight, walkableClimb int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterBorder)
+	defer ctx.StopTimer(TimerFilterBorder)
 
 	w := solid.Width
 	h := solid.Height
@@ -187,6 +189,7 @@ func FilterLedgeSpans(ctx *BuildContext, walkableHeight, walkableClimb int32, so
 func FilterWalkableLowHeightSpans(ctx *BuildContext, walkableHeight int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterWalkable)
+	defer ctx.StopTimer(TimerFilterWalkable)
 
 	w := solid.Width
 	h := solid.Height
diff --git a/recast/heightfield.go b/recast/heightfield.go
index a0a93a7..3b7d86c 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -266,6 +266,7 @@ func BuildCompactHeightfield(ctx *BuildContext, walkableHeight, walkableClimb in
 
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerBuildCompactHeightfield)
+	defer ctx.StopTimer(TimerBuildCompactHeightfield)
 
 	w := hf.Width
 	h := hf.Height
diff --git a/recast/region.go b/recast/region.go
index dbeebdd..74d88cd 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -338,7 +338,7 @@ func BuildRegions(ctx *BuildContext, chf *CompactHeightfield,
 		srcDist, dstDist = dstDist, srcDist
 	}
 
-	ctx.StartTimer(TimerBuildRegionsWatershed)
+	ctx.StopTimer(TimerBuildRegionsWatershed)
 
 	{
 		ctx.StartTimer(TimerBuildRegionsFilter)
-- 
2.43.0


From 073772dde803c8c0704f6a1e543af846f0fa02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 37/55] fix: unused or disabled timers have no time, stopping a
 timer that is not running adds none

---
 recast/buildcontext.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/recast/buildcontext.go b/recast/buildcontext.go
index 84b1920..977bca3 100644
--- a/recast/buildcontext.go
+++ b/recast/buildcontext.go
@@ -21,8 +21,9 @@ const maxMessages = 1000
 // BuildContext provides an interface for optional logging and performance
 // tracking of the recast build process.
 type BuildContext struct {
-	startTime [maxTimers]time.Time
+	startTime [maxTimers]time.Time // zero if the timer is not running
 	accTime   [maxTimers]time.Duration
+	timerUsed [maxTimers]bool
 
 	messages    [maxMessages]string
 	numMessages int
@@ -66,6 +67,7 @@ func (ctx *BuildContext) ResetTimers() {
 	if ctx.timerEnabled {
 		for i := 0; i < maxTimers; i++ {
 			ctx.accTime[i] = time.Duration(0)
+			ctx.timerUsed[i] = false
 		}
 	}
 }
@@ -147,13 +149,10 @@ func (ctx *BuildContext) StartTimer(label TimerLabel) {
 
 // StopTimer stops the specified performance timer.
 func (ctx *BuildContext) StopTimer(label TimerLabel) {
-	if ctx.timerEnabled {
-		deltaTime := time.Since(ctx.startTime[label])
-		if ctx.accTime[label] == 0 {
-			ctx.accTime[label] = deltaTime
-		} else {
-			ctx.accTime[label] += deltaTime
-		}
+	if ctx.timerEnabled && !ctx.startTime[label].IsZero() {
+		ctx.accTime[label] += time.Since(ctx.startTime[label])
+		ctx.timerUsed[label] = true
+		ctx.startTime[label] = time.Time{}
 	}
 }
 
@@ -161,10 +160,10 @@ func (ctx *BuildContext) StopTimer(label TimerLabel) {
 // performance timer.
 //
 // Returns the accumulated time of the timer, or -1 if timers are disabled or
-// the timer has never been started.
+// the timer has never been used.
 func (ctx *BuildContext) AccumulatedTime(label TimerLabel) time.Duration {
-	if ctx.timerEnabled {
+	if ctx.timerEnabled && ctx.timerUsed[label] {
 		return ctx.accTime[label]
 	}
-	return time.Duration(0)
+	return time.Duration(-1)
 }
-- 
2.43.0


From f60afead47ed5013f37cb4b1d8cc92f976ed54a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 38/55] fix: loading a mesh again must replace its triangles

---
 recast/meshloaderobj.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recast/meshloaderobj.go b/recast/meshloaderobj.go
index 2a1909e..161fe64 100644
--- a/recast/meshloaderobj.go
+++ b/recast/meshloaderobj.go
@@ -46,6 +46,7 @@ func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 	vertcount := int32(len(verts))
 
 	// add polygons
+	mlo.tris = make([]int32, 0)
 	for _, p := range obj.Polys() {
 		for i := 2; i < len(p); i++ {
 			a := p[0]
-- 
2.43.0


From c50d42a597b3b8cbb5ab259c9e70b9225967cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 39/55] fix: loading a mesh without vertices must fail, not
 panic

---
 recast/inputgeom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index 4046849..f319a6b 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -102,6 +102,9 @@ func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
 	if err = ig.mesh.Load(r); err != nil {
 		return err
 	}
+	if ig.mesh.VertCount() == 0 {
+		return fmt.Errorf("mesh has no vertices")
+	}
 
 	CalcBounds(ig.mesh.Verts(), ig.mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
 
-- 
2.43.0


From 0dfe0ea6dac05f05e49d61d8cc7a00c32c51b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 40/55] fix: a face with an undefined vertex must be reported
 as an error, not panic

---
 recast/meshloaderobj.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/recast/meshloaderobj.go b/recast/meshloaderobj.go
index 161fe64..f409cfd 100644
--- a/recast/meshloaderobj.go
+++ b/recast/meshloaderobj.go
@@ -1,6 +1,7 @@
 package recast
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/arl/gobj"
@@ -24,11 +25,7 @@ func NewMeshLoaderOBJ() *MeshLoaderOBJ {
 }
 
 func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
-	var (
-		obj *gobj.OBJFile
-		err error
-	)
-	obj, err = gobj.Decode(r)
+	obj, err := decodeOBJ(r)
 	if err != nil {
 		return err
 	}
@@ -87,6 +84,17 @@ func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 	return nil
 }
 
+// decodeOBJ decodes an OBJ file. The decoder panics on faces referring to
+// vertices that are not defined (yet), this is an error of the input.
+func decodeOBJ(r io.Reader) (obj *gobj.OBJFile, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			obj, err = nil, fmt.Errorf("error decoding OBJ: %v", e)
+		}
+	}()
+	return gobj.Decode(r)
+}
+
 func (mlo *MeshLoaderOBJ) Scale() float32 {
 	return mlo.scale
 }
-- 
2.43.0


From 15c1d31e261b9b06b8132f087d81875998afb54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 41/55] fix: no answer to the overwrite question means no,
 instead of a panic

---
 cmd/recast/cmd/utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/recast/cmd/utils.go b/cmd/recast/cmd/utils.go
index ac367c9..3dda9a6 100644
--- a/cmd/recast/cmd/utils.go
+++ b/cmd/recast/cmd/utils.go
@@ -22,14 +22,18 @@ func fileExists(path string) (err error) {
 }
 
 // askForConfirmation show msg and ask for the user to type y or n
-// (typing ENTER defaults to no)
+// (typing ENTER, or giving no answer at all, defaults to no)
 func askForConfirmation(msg string) bool {
 	fmt.Println(msg)
 	reader := bufio.NewReader(os.Stdin)
 	defaultInput := byte('N')
 
 	for {
-		input, _ := reader.ReadString('\n')
+		input, err := reader.ReadString('\n')
+		if len(input) == 0 && err != nil {
+			// no (more) answer
+			return false
+		}
 		c := string([]byte(input)[0])[0]
 		if c == 10 {
 			// ENTER
-- 
2.43.0


From 0d2b138e2d872e27c99214176d7dcd2af257d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 42/55] fix: building tiles of size 0 must fail, not panic

---
 sample/tilemesh/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index eae53f1..0637ce6 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -81,6 +81,10 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 	bmax := tm.geom.NavMeshBoundsMax()
 	gw, gh := recast.CalcGridSize(bmin[:], bmax[:], tm.settings.CellSize)
 	ts := int32(tm.settings.TileSize)
+	if ts <= 0 {
+		tm.ctx.Errorf("TileMesh.Build: Tile size must be at least one cell (%v)", tm.settings.TileSize)
+		return nil, false
+	}
 	tw := (gw + ts - 1) / ts
 	th := (gh + ts - 1) / ts
 
-- 
2.43.0


From c68cd4974daef7b0b0d0049286df306e85b2d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:10 +0000
Subject: [PATCH 43/55] fix: rows with more sweeps than cells must not make the
 partitioning panic

---
 recast/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index 74d88cd..98e03a3 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -102,6 +102,10 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 				if previd == 0 {
 					previd = rid
 					rid++
+					if int(previd) >= len(sweeps) {
+						// A row may have more sweeps than cells.
+						sweeps = append(sweeps, sweepSpan{})
+					}
 					sweeps[previd].rid = previd
 					sweeps[previd].ns = 0
 					sweeps[previd].nei = 0
-- 
2.43.0


From f0da65bd6da75a57302bcfcb1face8a1229b0b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 44/55] fix: partitioning must fail when there are more regions
 than ids, instead of mixing them with the border

---
 recast/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index 98e03a3..95f9b9d 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -137,6 +137,10 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 			if sweeps[i].nei != RC_NULL_NEI && sweeps[i].nei != 0 && prev[sweeps[i].nei] == int32(sweeps[i].ns) {
 				sweeps[i].id = sweeps[i].nei
 			} else {
+				if id >= borderReg {
+					ctx.Errorf("BuildRegionsMonotone: Region ID overflow")
+					return false
+				}
 				sweeps[i].id = id
 				id++
 			}
-- 
2.43.0


From e38b4de118eeb974465e7f75877fcb282babbc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 45/55] fix: cornerHeight: keep area ids when looking for
 border vertices

Region and area were combined into 16 bits, which drops the area, so
border vertices between two areas were marked for removal.
---
 recast/contour.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index c5e07f5..3c1daf4 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -11,11 +11,11 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 	ch = int32(s.Y)
 	dirp := (dir + 1) & 0x3
 
-	regs := [4]uint16{0, 0, 0, 0}
+	regs := [4]uint32{0, 0, 0, 0}
 
 	// Combine region and area codes in order to prevent
 	// border vertices which are in between two areas to be removed.
-	regs[0] = uint16(uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16))
+	regs[0] = uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16)
 
 	if GetCon(s, dir) != notConnected {
 		ax := x + GetDirOffsetX(dir)
@@ -23,13 +23,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dir)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[1] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[1] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dirp) != notConnected {
 			ax2 := ax + GetDirOffsetX(dirp)
 			ay2 := ay + GetDirOffsetY(dirp)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dirp)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 	if GetCon(s, dirp) != notConnected {
@@ -38,13 +38,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dirp)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[3] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[3] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dir) != notConnected {
 			ax2 := ax + GetDirOffsetX(dir)
 			ay2 := ay + GetDirOffsetY(dir)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dir)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 
@@ -57,9 +57,9 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 
 		// The vertex is a border vertex there are two same exterior cells in a row,
 		// followed by two interior cells and none of the regions are out of bounds.
-		twoSameExts := (regs[a]&regs[b]&borderReg) != 0 && regs[a] == regs[b]
-		twoInts := ((regs[c] | regs[d]) & borderReg) == 0
-		intsSameArea := (uint32(regs[c]) >> 16) == (uint32(regs[d]) >> 16)
+		twoSameExts := (regs[a]&regs[b]&uint32(borderReg)) != 0 && regs[a] == regs[b]
+		twoInts := ((regs[c] | regs[d]) & uint32(borderReg)) == 0
+		intsSameArea := (regs[c] >> 16) == (regs[d] >> 16)
 		noZeros := regs[a] != 0 && regs[b] != 0 && regs[c] != 0 && regs[d] != 0
 		if twoSameExts && twoInts && intsSameArea && noZeros {
 			isBorderVertex = true
-- 
2.43.0


From c90c7b4acf455bb1bf16f66666019001fdfc7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 46/55] fix: addVertex: compare heights without wrapping around

The difference of two uint16 wraps, so whether two vertices were merged
depended on the order they came in.
---
 recast/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 1596911..73c9e19 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -112,7 +112,7 @@ func addVertex(x, y, z uint16, verts []uint16, firstVert, nextVert []int32, nv *
 
 	for i != -1 {
 		v := verts[i*3:]
-		if v[0] == x && (iAbs(int32(v[1]-y)) <= 2) && v[2] == z {
+		if v[0] == x && (iAbs(int32(v[1])-int32(y)) <= 2) && v[2] == z {
 			return uint16(i)
 		}
 		i = nextVert[i] // next
-- 
2.43.0


From 755893b78e56c5e35be23ecd3ffbb95344d82c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 47/55] fix: BuildPolyMesh: drop triangles whose corners were
 merged

Contour corners can share a vertex; the check for degenerate triangles
compared contour indices and let polygons repeat a corner.
---
 recast/polymesh.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/recast/polymesh.go b/recast/polymesh.go
index 2ae38e1..f73318d 100644
--- a/recast/polymesh.go
+++ b/recast/polymesh.go
@@ -165,11 +165,13 @@ func BuildPolyMesh(ctx *BuildContext, cset *ContourSet, nvp int32) (*PolyMesh, b
 		}
 
 		for j := int32(0); j < ntris; j++ {
+			// Corners of the contour may have been merged.
 			t := tris[j*3:]
-			if t[0] != t[1] && t[0] != t[2] && t[1] != t[2] {
-				polys[npolys*nvp+0] = uint16(indices[t[0]])
-				polys[npolys*nvp+1] = uint16(indices[t[1]])
-				polys[npolys*nvp+2] = uint16(indices[t[2]])
+			i0, i1, i2 := indices[t[0]], indices[t[1]], indices[t[2]]
+			if i0 != i1 && i0 != i2 && i1 != i2 {
+				polys[npolys*nvp+0] = uint16(i0)
+				polys[npolys*nvp+1] = uint16(i1)
+				polys[npolys*nvp+2] = uint16(i2)
 				npolys++
 			}
 		}
-- 
2.43.0


From bb46e161add3c2d1e6fd5cbf029522f1c975b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 48/55] fix: canRemoveVertex: go over the edges of the polygons

The previous-corner index was always equal to the corner index, so
open edges were not counted and vertices removed that must not be,
losing polygons or running out of range.
---
 recast/mesh.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 73c9e19..88d326e 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -496,8 +496,7 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 		nv := countPolyVerts(p, nvp)
 
 		// Collect edges which touches the removed vertex.
-		var j int32
-		for k := nv - 1; j < nv; k = j {
+		for j, k := int32(0), nv-1; j < nv; j, k = j+1, j {
 			if p[j] == rem || p[k] == rem {
 				// Arrange edge so that a=rem.
 				a, b := p[j], p[k]
@@ -524,7 +523,6 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 					nedges++
 				}
 			}
-			j++
 		}
 	}
 
-- 
2.43.0


From ca83df2607d2e1a32fb7953282c421fc322c3e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 49/55] fix: BuildContours: room for more contours instead of a
 panic

A region has more than one contour when there is a step inside of it
that is not passable.
---
 recast/contour.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/recast/contour.go b/recast/contour.go
index 3c1daf4..ce2c3b6 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -303,7 +303,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 				// Create contour.
 				if len(simplified)/4 >= 3 {
 					if cset.NConts >= maxContours {
-						panic("ENTERING")
 						// Allocate more contours.
 						// This happens when a region has holes.
 						oldMax := maxContours
-- 
2.43.0


From bcfc5bc8a378a2e5ef474d28f145d655d70e2c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 50/55] fix: BuildPolyMeshDetail: a sample distance of 0 must
 not panic

Without tessellation the hull was empty; it is made of the corners of
the polygon then.
---
 recast/meshdetail.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 5ed97ef..e6d1494 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -926,6 +926,13 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 		}
 	}
 
+	if nhull == 0 {
+		// The outline has not been tessellated.
+		for ; nhull < nin; nhull++ {
+			hull[nhull] = nhull
+		}
+	}
+
 	// If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
 	if minExtent < sampleDist*2 {
 		triangulateHull(*nverts, verts, nhull, hull[:], tris)
-- 
2.43.0


From 2c82808055ac699837ac5f1e76e2f58fa8a9acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:19 +0000
Subject: [PATCH 51/55] fix: delaunayHull: remove dangling faces instead of a
 panic

---
 recast/meshdetail.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index e6d1494..5a9e709 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -701,7 +701,6 @@ func delaunayHull(ctx *BuildContext, npts int32, pts []float32,
 		t := (*tris)[i*4:]
 		if t[0] == -1 || t[1] == -1 || t[2] == -1 {
 			ctx.Warningf("delaunayHull: Removing dangling face %d [%d,%d,%d].", i, t[0], t[1], t[2])
-			panic("untested")
 			// TODO: simplify
 			t[0] = (*tris)[len(*tris)-4]
 			t[1] = (*tris)[len(*tris)-3]
-- 
2.43.0


From d85c608c39ce107ae36466e75aba307cbbac90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 52/55] fix: InputGeom.LoadOBJMesh: no geometry is left after a
 failed load

The mesh that could not be loaded stayed in place, so that tile meshes were
built (without any polygon, on the bounds of the geometry before) and the
build was reported as a success.
---
 recast/inputgeom.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index f319a6b..52b8739 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -90,7 +90,6 @@ type InputGeom struct {
 
 // LoadOBJMesh loads the geometry from a reader on a OBJ file.
 func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
-	var err error
 	if ig.mesh != nil {
 		ig.chunkyMesh = nil
 		ig.mesh = nil
@@ -98,21 +97,24 @@ func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
 	ig.offMeshConCount = 0
 	ig.volumeCount = 0
 
-	ig.mesh = NewMeshLoaderOBJ()
-	if err = ig.mesh.Load(r); err != nil {
+	// A mesh that can't be loaded must not be built.
+	mesh := NewMeshLoaderOBJ()
+	if err := mesh.Load(r); err != nil {
 		return err
 	}
-	if ig.mesh.VertCount() == 0 {
+	if mesh.VertCount() == 0 {
 		return fmt.Errorf("mesh has no vertices")
 	}
 
-	CalcBounds(ig.mesh.Verts(), ig.mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
+	CalcBounds(mesh.Verts(), mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
 
-	ig.chunkyMesh = new(ChunkyTriMesh)
-	if !createChunkyTriMesh(ig.mesh.Verts(), ig.mesh.Tris(), ig.mesh.TriCount(), 256, ig.ChunkyMesh()) {
+	chunkyMesh := new(ChunkyTriMesh)
+	if !createChunkyTriMesh(mesh.Verts(), mesh.Tris(), mesh.TriCount(), 256, chunkyMesh) {
 		return fmt.Errorf("failed to build chunky mesh")
 	}
 
+	ig.mesh = mesh
+	ig.chunkyMesh = chunkyMesh
 	return nil
 }
 
-- 
2.43.0


From 4d373f3c687e753cb22f80c3a97288778d3fc4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:35 +0000
Subject: [PATCH 53/55] fix: TileMesh: building again must not overwrite the
 mesh that was returned before

Every build reused one navigation mesh, so a mesh that had been returned was
replaced by the next one built.  BuildTile and RemoveTile before a build
crashed.
---
 sample/tilemesh/builder.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 0637ce6..b3dd765 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -19,7 +19,7 @@ import (
 type TileMesh struct {
 	ctx               *recast.BuildContext
 	geom              recast.InputGeom
-	navMesh           detour.NavMesh
+	navMesh           *detour.NavMesh // last mesh built
 	meshName          string
 	cfg               recast.Config
 	partitionType     sample.PartitionType
@@ -104,20 +104,23 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 	params.TileHeight = tm.settings.TileSize * tm.settings.CellSize
 	params.MaxTiles = tm.maxTiles
 	params.MaxPolys = tm.maxPolysPerTile
-	status = tm.navMesh.Init(&params)
+	navMesh := &detour.NavMesh{}
+	status = navMesh.Init(&params)
 	if detour.StatusFailed(status) {
 		tm.ctx.Errorf("TileMesh.Build: Could not init navmesh")
 		return nil, false
 	}
-	status, _ = detour.NewNavMeshQuery(&tm.navMesh, 2048)
+	status, _ = detour.NewNavMeshQuery(navMesh, 2048)
 	if detour.StatusFailed(status) {
 		tm.ctx.Errorf("TileMesh.Build: Could not init detour navmesh query")
 		return nil, false
 	}
 
+	// Meshes returned by previous builds are left as they are.
+	tm.navMesh = navMesh
 	tm.buildAllTiles()
 
-	return &tm.navMesh, true
+	return tm.navMesh, true
 }
 
 func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
@@ -158,7 +161,7 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 	tm.totalBuildTime = tm.ctx.AccumulatedTime(recast.TimerTemp)
 
 	// TODO: probably useless
-	return &tm.navMesh, true
+	return tm.navMesh, true
 }
 
 func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
@@ -535,6 +538,11 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 }
 
 func (tm *TileMesh) BuildTile(pos d3.Vec3) {
+	if tm.navMesh == nil {
+		tm.ctx.Errorf("TileMesh.BuildTile: The mesh has not been built")
+		return
+	}
+
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
 
@@ -577,6 +585,11 @@ func (tm *TileMesh) TilePos(pos d3.Vec3) (x, y int32) {
 }
 
 func (tm *TileMesh) RemoveTile(pos d3.Vec3) {
+	if tm.navMesh == nil {
+		tm.ctx.Errorf("TileMesh.RemoveTile: The mesh has not been built")
+		return
+	}
+
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
 
-- 
2.43.0


From 21f870f2183b44ee6d806e30ab7830cdb32dfda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:38 +0000
Subject: [PATCH 54/55] fix: NodePool.MemUsed must not end the program

---
 detour/node.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/detour/node.go b/detour/node.go
index dfae4a8..c7f964c 100644
--- a/detour/node.go
+++ b/detour/node.go
@@ -1,7 +1,6 @@
 package detour
 
 import (
-	"log"
 	"unsafe"
 
 	assert "github.com/arl/assertgo"
@@ -218,7 +217,6 @@ func (np *NodePool) NodeAtIdx(idx int32) *Node {
 // MemUsed returns the number of bytes currently in use in this
 // node pool.
 func (np *NodePool) MemUsed() int32 {
-	log.Fatal("use of unsafe in getMemUsed")
 	return int32(unsafe.Sizeof(*np)) +
 		int32(unsafe.Sizeof(Node{}))*np.maxNodes +
 		int32(unsafe.Sizeof(NodeIndex(0)))*np.maxNodes +
-- 
2.43.0


From 172d91b0aabd213d975282bdc44c06f1ce820d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:37 +0000
Subject: [PATCH 55/55] fix: TileMesh: tiles with more than 512 chunks of
 geometry must not lose some

---
 sample/tilemesh/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index b3dd765..386951e 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -291,8 +291,8 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tbmin[1] = tm.cfg.BMin[2]
 	tbmax[0] = tm.cfg.BMax[0]
 	tbmax[1] = tm.cfg.BMax[2]
-	var cid [512]int32 // TODO: Make grow when returning too many items.
-	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid[:])
+	cid := make([]int32, chunkyMesh.Nnodes)
+	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid)
 	if ncid == 0 {
 		return nil
 	}
-- 
2.43.0

