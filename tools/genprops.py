#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/genprops.py > properties.jsonl)."""
import json, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

M, Q, T, NC = "detour/mesh.go", "detour/query.go", "detour/tile.go", "detour/navmeshcreate.go"

prop("C01", "Tile lookups always agree with the history of tile additions and removals",
 "After any sequence of tile additions and removals, looking a tile up by grid position and layer, by position alone, or by reference finds exactly the tiles that were added and not yet removed, each with the content it was added with. Adding a tile where one is already present fails, and removing a tile returns the data it was added with.",
 ["histories", "inputs"], "every sequence of add / remove / restore calls over any tile positions (negative and far positions, several layers, colliding hash buckets, any table size)",
 "Existing tests add tiles once, in grid order, and never remove one; no finite list of call sequences covers hash collisions combined with removal order.",
 [M, T], [("position hash and chains", "AddTile, RemoveTile, TileAt, TilesAt, TileRefAt in detour/mesh.go"), ("tile slots and free list", "Init, AddTile, RemoveTile")],
 [("posLookup", "hash buckets of tiles by grid position"), ("nextFree", "free tile slots"), ("Tiles[i].Salt", "generation of a slot")], ["AddTile", "RemoveTile", "TileAt", "TilesAt", "TileRefAt", "TileByRef", "CalcTileLoc"])
prop("C02", "A reference is valid exactly as long as the tile it was issued for",
 "A tile or polygon reference resolves to the tile and polygon it was issued for as long as that tile stays in the mesh, and is reported invalid after the tile is removed, even when its storage is reused by other tiles; a tile that is put back under its former reference gets all of its former polygon references back. No two polygons in the mesh ever share a reference and no polygon has the null reference.",
 ["histories"], "every sequence of add / remove / restore calls, up to the documented size of the reuse counter (restores name the slot's latest reference)",
 "Tests never reuse a tile slot, so stale references are never exercised.",
 [M], [("salted references", "encodePolyID, decodePolyID*, IsValidPolyRef, TileAndPolyByRef, TileByRef in detour/mesh.go"), ("salt update", "RemoveTile and restore branch of AddTile")],
 [("Tiles[i].Salt", "generation number put into references")], ["IsValidPolyRef", "TileAndPolyByRef", "TileByRef", "TileRef"])
prop("C03", "A tile operation that fails leaves the mesh usable and unchanged",
 "Adding a tile to a full mesh, under a reference that cannot be honoured, at an occupied position, or from data of the wrong kind or version, and removing with a reference that names no present tile, each report failure and leave every tile, reference and link of the mesh exactly as it was. A mesh always accepts exactly as many tiles as it was configured for, no matter how many tiles came and went before or how many calls failed.",
 ["histories", "fault_sequences"], "every history of successful and failing tile operations on meshes of any capacity",
 "No existing test makes a tile operation fail or fills a mesh.",
 [M], [("allocation and rejection paths", "AddTile, RemoveTile, InitForSingleTile in detour/mesh.go")],
 [("nextFree", "free tile slots")], ["AddTile", "RemoveTile", "InitForSingleTile"])
prop("C04", "Connections between tiles depend only on which tiles are present",
 "At any moment each polygon is connected exactly to its neighbours inside its tile and to the polygons of the present neighbouring tiles and layers whose border edges overlap it within the climb height, over exactly the overlapping part of the edge. This holds whatever the order in which tiles were added and removed: no connection to a removed tile survives, connections come back when the tile comes back, and connection records are never leaked.",
 ["histories", "inputs"], "every set of tiles and every add/remove order leading to it, with border edges overlapping partly, at different heights and slopes",
 "Tests check a few stored meshes that were only ever built by adding tiles in one order.",
 [M], [("edge stitching", "connectIntLinks, connectExtLinks, findConnectingPolys, overlapSlabs, calcSlabEndPoints in detour/mesh.go"), ("unstitching", "unconnectLinks, RemoveTile"), ("link records", "allocLink, freeLink")],
 [("Tiles[i].Links", "connection records"), ("LinksFreeList", "unused records")], ["MeshTile.Polys/Links"])
prop("C05", "Saving and loading a navigation mesh loses nothing",
 "A navigation mesh read back from what was written has the same configuration, the same tiles with the same content (off-mesh connections and run-time changes to polygon flags and areas included), the same references and the same connections, and answers queries alike. Saving never changes the mesh, the announced size equals the number of bytes written, and a mesh that was loaded is written with the same bytes whenever it is saved and loaded again.",
 ["histories", "inputs"], "every mesh state reachable by adding, removing and restoring tiles and changing polygon flags/areas, read back through readers that deliver any sizes of chunks",
 "Tests only load stored files and compare freshly built ones; no test round-trips a mesh that has off-mesh connections, holes in its slot table or changed flags.",
 [M, T, "detour/structs.go"], [("file format", "ToWriter, SaveToFile, Decode, Size in detour/mesh.go; serialize/unserialize in detour/tile.go and structs.go")],
 [("serialized bytes", "navmesh file")], ["ToWriter", "SaveToFile", "Decode", "Size"])
prop("C06", "A damaged or interrupted navigation mesh file is reported, never misread",
 "Reading a navigation mesh from a stream that ends early at any byte, fails at any point, or carries a wrong magic number or version reports an error instead of returning a mesh, crashing or ending the process. Writing to a destination that fails at any point reports the error.",
 ["fault_sequences", "crash_points"], "every truncation point, every read/write failure point and every way a reader may split the stream",
 "Tests only read complete, intact files through os.File.",
 [M, T, "detour/structs.go"], [("stream handling", "Decode, ToWriter, SaveToFile in detour/mesh.go; WriteTo in structs.go, tile.go")], None, ["Decode", "ToWriter", "SaveToFile"])
prop("C07", "Compiled tile data reproduces the source polygon mesh",
 "The tile obtained from compiling a polygon mesh has the same polygons with the same corner positions, areas, flags and neighbours, the same border portals, detail surface, header values and off-mesh connections that start in the tile, whether or not a search tree or a detail mesh is included. Source data outside the documented limits is refused with an error and never crashes.",
 ["inputs", "configurations"], "every polygon mesh within the documented limits (any polygon sizes, borders, detail meshes, off-mesh connections, with and without search tree) and the documented limit violations",
 "Tests compile a handful of recast-built meshes, all with search tree and detail mesh; off-mesh connections are only loaded from a stored file.",
 [NC, T], [("tile compiler", "CreateNavMeshData, createBVTree, classifyOffMeshPoint in detour/navmeshcreate.go")], None, ["CreateNavMeshData", "AddTile", "MeshTile"])
prop("C08", "Off-mesh connections join exactly the polygons at their end points",
 "An off-mesh connection can be traversed from the polygon within its radius at the start to the polygon within its radius at the end, in the reverse direction only if declared bidirectional, and across tiles as soon as and only as long as both tiles are present, in any order of arrival. A connection whose start or end has no walkable polygon within its radius is not traversable.",
 ["inputs", "histories"], "every placement, radius and direction of connections and every add/remove order of the tiles at either end",
 "One stored file with off-mesh connections is queried for a few paths; order of arrival, removal and misses are never exercised.",
 [M, NC, Q], [("end point stitching", "baseOffMeshLinks, connectExtOffMeshLinks, FindNearestPolyInTile, closestPointOnPoly in detour/mesh.go"), ("start/end classification", "classifyOffMeshPoint in navmeshcreate.go")], None, ["FindPath", "MeshTile.Links", "AddTile", "RemoveTile"])
prop("C10", "The nearest-polygon query never misses a nearer permitted polygon",
 "For any position and search box, the nearest-polygon query returns a permitted polygon that is at least as near as every permitted polygon overlapping the box, together with the closest point on it, and returns none only if no permitted polygon overlaps the box. A polygon straight above or below counts as its vertical distance beyond the climb height. This holds whether or not tiles were compiled with a search tree.",
 ["inputs", "configurations"], "all positions, boxes (also spanning several tiles or lying partly outside the mesh), filters and meshes",
 "Tests probe a few hand-picked positions on a few stored meshes with search trees only.",
 [Q, "detour/polyquery.go", NC, "detour/common.go"], [("tree traversal", "queryPolygonsInTile in detour/query.go"), ("tree building", "createBVTree, subdivide in navmeshcreate.go"), ("distance ranking", "findNearestPolyQuery.process"), ("closest point", "ClosestPointOnPoly, ClosestPointOnPolyBoundary")], None, ["FindNearestPoly", "ClosestPointOnPoly", "ClosestPointOnPolyBoundary"])
prop("C11", "A found path is a permitted corridor and is complete exactly when possible",
 "A successful path query returns a sequence of polygons that starts with the start polygon, moves only along existing connections, contains only permitted polygons after the start, and ends with the goal polygon exactly when the goal can be reached that way; otherwise it is flagged partial and ends at a reachable polygon that is nearest to the goal as far as the search can tell.",
 ["inputs"], "every mesh, every pair of polygons, every filter, given enough search nodes and result space",
 "Tests compare a few paths on a few stored meshes with recorded answers.",
 [Q, "detour/node.go", "detour/nodequeue.go"], [("A* search", "FindPath in detour/query.go"), ("node pool and queue", "detour/node.go, nodequeue.go")], [("nodePool", "search nodes"), ("openList", "priority queue")], ["FindPath"])
prop("C12", "A complete path is a cheapest one",
 "When traversal costs depend only on the polygons traversed (for a query that is not sliced: on the polygon and the one entered next) and are never below the straight-line distance, no permitted corridor from start to goal is cheaper than the one returned by a complete path query, sliced or not.",
 ["inputs", "schedules"], "every mesh, cost function of this kind, pair of polygons and slicing of the search",
 "No existing test checks that a path is the cheapest; a queue or node bookkeeping error shows only on graphs where a node's cost is improved late.",
 [Q, "detour/node.go", "detour/nodequeue.go"], [("relaxation and re-opening", "FindPath, UpdateSlicedFindPath in detour/query.go"), ("binary heap", "detour/nodequeue.go")], None, ["FindPath", "UpdateSlicedFindPath", "FinalizeSlicedFindPath"])
prop("C13", "Path queries stay correct when result space or search nodes run out",
 "With a result buffer that is too small a path query returns the first part of the corridor it would return with enough space and says so; with too few search nodes it returns a valid corridor starting at the start polygon and says that it ran out of nodes whenever it could not use a node it needed. It never writes past the buffer, crashes, or reports a complete path that is not one.",
 ["inputs", "configurations"], "every mesh, query, buffer length from 1 and node limit from 1 to the documented maximum",
 "Tests always use ample buffers and 1000+ nodes.",
 [Q, "detour/node.go"], [("path extraction", "getPathToNode, FindPath in detour/query.go"), ("bounded pool", "NodePool.Node in detour/node.go")], None, ["FindPath", "NewNavMeshQuery"])
prop("C14", "A sliced path search gives the same answer however it is sliced",
 "A path search run in slices returns the same corridor and status as the search run in one call, for every way of splitting the work and with any number of position or ray queries on the same query object in between. Each update does at most the requested number of steps, reports in-progress until the search is decided, stays decided afterwards, and finalizing returns the result once and leaves no search in progress.",
 ["schedules", "histories"], "every mesh, query, splitting of the search into updates of any size, and interleaving with other read-only queries",
 "Existing tests run one fixed slice size on a few stored paths.",
 [Q], [("sliced search", "InitSlicedFindPath, UpdateSlicedFindPath, FinalizeSlicedFindPath, FinalizeSlicedFindPathPartial in detour/query.go")], [("query data", "status, last best node of the search in progress")], ["InitSlicedFindPath", "UpdateSlicedFindPath", "FinalizeSlicedFindPath", "FinalizeSlicedFindPathPartial"])
prop("C15", "A sliced search survives tiles being removed or added while it runs",
 "If tiles are removed or added between the slices of a path search, the search never crashes and either fails or returns a corridor; when the tile of the start or goal polygon is gone, the next step fails. After a failure the same query object serves new searches correctly.",
 ["histories", "schedules"], "every interleaving of tile removals/additions with the slices of a search",
 "No existing test changes a mesh during a search.",
 [Q, M], [("reference re-validation", "UpdateSlicedFindPath in detour/query.go")], None, ["UpdateSlicedFindPath", "FinalizeSlicedFindPath"])
prop("C16", "The straight path is the shortest line through the corridor",
 "For any corridor of connected polygons the straight path starts at the start point and ends at the end point (clamped onto the first and last polygon), every leg passes through all the portals of the corridor it spans in order, and every intermediate corner is a portal end point around which the path turns, so that no shorter line exists inside the corridor (which side a path takes where a portal lies on the line itself, or where a corner coincides with the end of a partly open edge up to the 1/255 resolution of such ends, is left open). Each corner carries the reference of the polygon being entered there, and only the first and last points are flagged start and end; points that coincide are reported once, with the flags and reference of the last of them.",
 ["inputs"], "all corridors of connected polygons and all start and end points",
 "Tests compare a few recorded corner lists.",
 [Q, "detour/common.go"], [("funnel", "FindStraightPath, appendVertex, portalPoints6/8 in detour/query.go"), ("orientation tests", "TriArea2D, distancePtSegSqr2D in detour/common.go")], None, ["FindStraightPath"])
prop("C17", "Straight-path options and small buffers add or cut points, nothing else",
 "Asking for area or all crossings inserts exactly the points where the straight path crosses the corresponding portals and leaves the corners unchanged. An off-mesh connection appears as a corner at each of its ends, flagged where it is entered (unless the line bends or begins at that very point). With a buffer too small the result is the leading part of the full result, flagged as such (a result that fills the buffer exactly may be flagged too), and nothing is written beyond the buffer.",
 ["inputs", "configurations"], "all corridors, end points, options, buffer sizes, with and without flag/reference outputs",
 "Tests use no options with their own checks and ample buffers.",
 [Q], [("portal crossings", "appendPortals, appendVertex, FindStraightPath in detour/query.go")], None, ["FindStraightPath"])
prop("C18", "A ray is stopped exactly by the first wall or forbidden polygon",
 "Walking a straight line along the mesh surface reaches the end exactly when the line stays on permitted connected polygons, and otherwise stops at the point where it first leaves them, with the direction out of the wall there (a ray that runs exactly through a corner or the end of an opening may be stopped there); the polygons reported are those the line passes through, in order. The outcome depends only on the arguments of the call, not on what a reused result object held before.",
 ["inputs"], "all start positions, directions, lengths, filters and meshes of strictly convex polygons, and reused result objects",
 "A handful of recorded rays on one stored mesh.",
 [Q, "detour/common.go"], [("ray walk", "Raycast, Raycast2, IntersectSegmentPoly2D in detour/query.go and common.go")], None, ["Raycast", "Raycast2"])
prop("C19", "No query ever enters a polygon that the filter forbids",
 "A polygon is permitted when it carries at least one included flag and no excluded flag, evaluated with the filter and polygon flags at the time of the call; polygons that are not permitted never appear in the results of nearest-polygon, path (after the start), sliced path or ray queries, and validity checks under the filter agree with this. Area costs set on a filter affect later searches only through that filter.",
 ["inputs", "histories"], "all flag words, include/exclude masks, run-time changes of flags, areas and costs, and queries",
 "Tests use two or three masks on meshes where nearly all polygons share one flag.",
 [Q, "detour/queryfilter.go", "detour/polyquery.go"], [("filter", "StandardQueryFilter in detour/queryfilter.go"), ("use of the filter", "FindPath, UpdateSlicedFindPath, Raycast, queryPolygonsInTile")], None, ["PassFilter", "FindNearestPoly", "FindPath", "Raycast", "IsValidPolyRef"])
prop("C20", "Invalid references and arguments are refused without side effects",
 "Every query given a null, stale, forged or out-of-range polygon reference or an invalid argument reports failure with an invalid-parameter indication where documented, without crashing, and does not disturb the mesh or, apart from a refused start of a new sliced search, which leaves none in progress, a search in progress. Query objects can be created for every documented node limit and are refused for others.",
 ["inputs", "histories"], "all reference values and argument combinations, in any query state",
 "Tests only pass valid arguments.",
 [Q, M], [("argument checks", "head of every NavMeshQuery method in detour/query.go; NewNavMeshQuery")], None, ["all NavMeshQuery methods"])
prop("C21", "Queries do not influence each other",
 "The result of a query depends only on the mesh, the arguments and the filter: not on what the same query object computed before, nor on what other query objects on the same mesh are computing, including at the same time in other goroutines. Queries never modify the mesh.",
 ["schedules", "histories"], "every history of queries on a query object and every concurrent execution of several query objects on one mesh",
 "Tests run one query at a time on fresh or lightly used query objects.",
 [Q, "detour/node.go", "detour/nodequeue.go"], [("per-query state", "NavMeshQuery fields: node pool, open list, query data")], [("nodePool", "nodes of the last search"), ("tinyNodePool", "small pool"), ("openList", "queue of the last search")], ["all NavMeshQuery methods"])
prop("C22", "The search node pool finds or creates exactly one node per polygon and state",
 "The node pool returns the same node for the same polygon and state until it is cleared, distinct nodes for distinct ones, and no node once its capacity is used up; lookups find exactly the nodes created since the last clear, and node numbers and nodes correspond one to one.",
 ["histories", "configurations"], "every sequence of pool operations on pools of any size",
 "The pool is only exercised indirectly.",
 ["detour/node.go"], [("hash table of nodes", "NodePool in detour/node.go")], None, ["NodePool methods via NavMeshQuery.NodePool"])

R = "recast/"
prop("C23", "Rasterization makes solid exactly the voxels the triangles touch",
 "After rasterizing any triangles in any order, the solid voxels of the heightfield are exactly those that the triangles touch inside the field (from the voxel row containing the lowest to that containing the highest point of the triangle within each cell), and the spans of each column are ordered, disjoint and not touching. A merged span takes the area of the higher of two tops; where the tops are within the merge threshold it takes the larger area id, so that walkable wins.",
 ["inputs", "histories"], "all triangle sets, orders and area ids, inside, across and outside the field bounds",
 "Tests rasterize two triangles and compare whole-mesh output files.",
 [R+"rasterization.go", R+"heightfield.go"], [("span insertion", "addSpan"), ("clipping", "rasterizeTri, dividePoly")], None, ["RasterizeTriangle", "RasterizeTriangles", "Heightfield.Spans"])
prop("C24", "The heightfield filters change walkability exactly as documented",
 "Filtering low obstacles makes a non-walkable span walkable exactly when it lies directly above a walkable span within the climb height; filtering ledges makes a span non-walkable exactly when the lowest neighbour that can be entered (an opening of more than the agent height) drops more than the climb height or the neighbours within climbing differ by more than it; filtering low ceilings does so exactly when the clearance does not exceed the agent height. No filter changes the geometry of any span.",
 ["inputs", "configurations"], "all heightfields, climb and height values",
 "Only exercised through whole-mesh output comparison with one configuration.",
 [R+"filter.go"], [("filters", "FilterLowHangingWalkableObstacles, FilterLedgeSpans, FilterWalkableLowHeightSpans")], None, ["Filter* functions"])
prop("C25", "The compact heightfield holds exactly the open walkable spaces and adjacency",
 "The compact heightfield has one entry for each walkable span of the source, with its floor height, clearance and area, and two entries of neighbouring cells are connected exactly when the agent fits through the common opening and the step is within the climb height; where this is so for one neighbour only (climb not above height), adjacency is symmetric. Spaces beyond the 63rd of a cell cannot be connected to, which is reported.",
 ["inputs", "configurations"], "all heightfields, climb and height values (up to the documented number of layers)",
 "Only exercised through whole-mesh output comparison with one configuration.",
 [R+"heightfield.go", R+"recast.go"], [("compaction", "BuildCompactHeightfield"), ("connections", "SetCon, GetCon")], None, ["BuildCompactHeightfield", "CompactHeightfield"])
prop("C26", "Eroding removes exactly the walkable space within the radius of an obstacle",
 "After eroding by a radius, a walkable span stays walkable exactly if its grid distance (straight step 1, diagonal step 1.5) from the nearest space that touches the border of the field, an unconnected side or non-walkable space is at least the radius (measured on surfaces that do not wind around a corner onto another level); spans are never made walkable and nothing else changes.",
 ["inputs", "configurations"], "all heightfields and radii of the documented range",
 "Only exercised through whole-mesh output comparison with one radius.",
 [R+"area.go"], [("distance sweeps", "ErodeWalkableArea")], None, ["ErodeWalkableArea"])
prop("C27", "Marking a convex area affects exactly the spans inside it",
 "Marking a convex polygon volume changes the area of exactly those walkable spans whose cell centre lies inside the polygon and whose floor lies within the height range, wherever the polygon lies relative to the field and in whichever order its vertices are given; volumes (up to 256, of up to 12 corners) added to an input geometry are stored as given until they are deleted or other geometry is loaded.",
 ["inputs", "histories"], "all convex polygons, height ranges, fields and add/delete sequences",
 "No test marks an area.",
 [R+"area.go", R+"inputgeom.go"], [("area marking", "MarkConvexPolyArea, pointInPoly"), ("volume list", "InputGeom.AddConvexVolume, DeleteConvexVolume")], None, ["MarkConvexPolyArea", "InputGeom"])
prop("C28", "Regions partition the walkable space into connected uniform areas",
 "After monotone partitioning every walkable span belongs to exactly one region or, if it lies in the border or in a part smaller than the minimum size, to none; small regions that touch a neighbour along one stretch are merged with it; every region is connected, has a single area type and does not overlap itself vertically, and border spans are never part of an inner region.",
 ["inputs", "configurations"], "all compact heightfields, border sizes and size thresholds",
 "Only exercised through whole-mesh output comparison.",
 [R+"region.go"], [("sweep partitioning", "BuildRegionsMonotone"), ("region merging", "mergeAndFilterRegions")], None, ["BuildRegionsMonotone", "CompactSpan.Reg"])
prop("C29", "Contours and polygons cover exactly the region they outline",
 "The raw contour of a region follows its outline exactly. The simplified contour keeps every corner at which the neighbouring region or the border of an area changes, leaves sides between regions straight and identical for both regions, and lies within the configured error of the outline along walls and area borders (twice the error where sides are also split by length). The polygons built from the contours cover each of them exactly once, keep its area id and region, and stay within the field. (Regions that enclose an impassable step, and outlines that touch themselves, are exempt from the conditions on simplification and cover.)",
 ["inputs", "configurations"], "all monotone region layouts, edge lengths and error settings",
 "Only exercised through whole-mesh output comparison.",
 [R+"contour.go", R+"mesh.go"], [("outline tracing", "walkContour, simplifyContour, BuildContours"), ("triangulation and merging", "BuildPolyMesh")], None, ["BuildContours", "BuildPolyMesh"])
prop("C30", "The polygon mesh is made of convex polygons with consistent adjacency",
 "Every polygon of the polygon mesh is convex, has between three and the configured maximum number of distinct corners, and shares an edge with a neighbour exactly when the neighbour lists the same edge back; sides of contours stay sides of polygons, so regions that touch stay connected; edges without neighbour on the border of a tile are marked as portals of the right side, all other edges without neighbour are walls; polygons of the same outline that could be one convex polygon within the maximum have been merged. (Convexity is required where the simplified contour does not cross itself.)",
 ["inputs", "configurations"], "all contour sets and maximum polygon sizes",
 "Only exercised through whole-mesh output comparison with one polygon size.",
 [R+"mesh.go", R+"polymesh.go"], [("polygon merging", "polyMergeValue, mergePolyVerts"), ("adjacency", "buildMeshAdjacency")], None, ["BuildPolyMesh"])
prop("C31", "The detail mesh triangulates every polygon",
 "The detail mesh has one sub-mesh per polygon whose first vertices are the polygon's corners and whose triangles cover the polygon exactly once when seen from above, with every index in range and within the documented limits; where samples are taken, its heights follow the field within the configured error.",
 ["inputs", "configurations"], "all polygon meshes and sampling settings",
 "Only exercised through whole-mesh output comparison with one sampling setting.",
 [R+"meshdetail.go"], [("detail triangulation", "BuildPolyMeshDetail, buildPolyDetail, delaunayHull, triangulateHull")], None, ["BuildPolyMeshDetail"])
prop("C32", "Spatial partitioning of the input triangles never loses one",
 "Every input triangle is in exactly one chunk, chunks respect the size limit, and the chunks reported for a rectangle include every triangle whose bounds overlap it and no chunk that does not overlap it.",
 ["inputs"], "all triangle soups, and query rectangles",
 "Only exercised through whole-mesh output comparison.",
 [R+"chunkytrimesh.go", R+"inputgeom.go"], [("tree", "createChunkyTriMesh, subdivide, ChunksOverlappingRect")], None, ["InputGeom.ChunkyMesh", "ChunksOverlappingRect"])
prop("C33", "Loading a mesh file yields exactly its valid faces as triangles",
 "Loading geometry yields the vertices of the file in order and, for each face, the fan of triangles over its vertices faces of fewer than three corners left out, unit normals following the winding, and the exact bounds of the vertices; loading again replaces the geometry completely. Malformed input, such as a face of a vertex that is not listed before it, is reported as an error.",
 ["inputs", "histories"], "all OBJ inputs of the supported subset and reload sequences",
 "Tests load well-formed files only.",
 [R+"meshloaderobj.go", R+"inputgeom.go", R+"recast.go"], [("loader", "MeshLoaderOBJ.Load, InputGeom.LoadOBJMesh, CalcBounds")], None, ["LoadOBJMesh"])
prop("C34", "Build log and timers record exactly what was asked while enabled",
 "The build log holds exactly the messages written while logging was enabled since the last reset (at most 1000), in order and by category, and timers accumulate exactly the intervals between start and stop while enabled; calls while disabled do nothing, and enabling, disabling and resetting affect nothing else. Build steps leave no timer running.",
 ["histories"], "every sequence of log and timer calls",
 "Tests check a few calls.",
 [R+"buildcontext.go"], [("log and timers", "BuildContext")], None, ["BuildContext methods"])
prop("C35", "Building is deterministic and leaves nothing behind",
 "Building a navigation mesh from the same geometry and settings always gives the same bytes: with a fresh builder, with a builder that built other geometry or failed before, with logging on or off, and with several builders working at the same time.",
 ["histories", "schedules"], "every sequence of load/configure/build calls on a builder and every concurrent execution of several builders",
 "Tests build each mesh once with a fresh builder.",
 ["sample/solomesh/builder.go", "sample/tilemesh/builder.go", R+"meshdetail.go"], [("builders", "SoloMesh.Build, TileMesh.Build")], None, ["Build", "ToWriter"])
prop("C36", "The command line tool never destroys a file without consent",
 "Generating a configuration or building a mesh onto an existing file replaces it only when the user confirms, and leaves it untouched when the user declines, gives no answer or the operation fails beforehand; a generated configuration is accepted by a build, and a built mesh is accepted by the info command. Bad arguments write nothing, files that are no mesh are refused by the info command, and a failed write is reported.",
 ["histories", "fault_sequences"], "every sequence of config / build / infos invocations, answers and pre-existing files",
 "The command line tool has no tests.",
 ["cmd/recast/cmd/build.go", "cmd/recast/cmd/config.go", "cmd/recast/cmd/infos.go", "cmd/recast/cmd/utils.go"], [("overwrite confirmation", "askForConfirmation, fileExists"), ("commands", "doBuild, doConfig, doInfos")], None, ["recast binary"])
prop("C37", "The built navigation mesh lets agents walk exactly where they fit",
 "On terrain made of level blocks, a point is on the built mesh if the agent's whole footprint there has level ground and headroom with margin, and is off it if no ground is there, and two places on it are joined by a complete path if the agent can walk between them given its radius, height and climb (not above its height), and by none if it cannot; splitting the world into tiles does not change this, save that tiles may join floors above each other up to twice the climb apart.",
 ["inputs", "configurations"], "all block terrains and agent settings (solo and tiled builds)",
 "Tests compare output files for ten fixed geometries.",
 ["sample/solomesh/builder.go", "sample/tilemesh/builder.go", R+"heightfield.go", R+"area.go", R+"mesh.go", NC, Q], [("whole pipeline", "Build, FindNearestPoly, FindPath")], None, ["Build", "FindNearestPoly", "FindPath"])
prop("C38", "A triangle is walkable exactly when it faces up and slopes less than the limit",
 "Marking walkable triangles sets the area of exactly the triangles that face up and slope less than the limit angle to walkable, and clearing unwalkable triangles sets the area of exactly the others to none, whichever vertex comes first, whichever direction they slope to and wherever they are; all other areas stay as they were. A ramp between two platforms, with room for the agent, is part of the built mesh and joins them exactly when its slope is less than the limit of the agent.",
 ["inputs"], "all triangles, angles and areas",
 "The tests try a level and an upright triangle; the stored meshes are built with one angle.",
 [R+"recast.go", "sample/solomesh/builder.go", "sample/tilemesh/builder.go"], [("slope of triangles", "MarkWalkableTriangles, ClearUnwalkableTriangles")], None, ["MarkWalkableTriangles", "ClearUnwalkableTriangles"])
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(json.dumps(p))
