"""Which models, drivers and trace specifications decide each property."""
from vkit import CheckError

CHECKS = {}


def check(pid, technique, note, assumptions=(), level='model_checking'):
    def deco(fn):
        CHECKS[pid] = {'fn': fn, 'technique': technique, 'level': level, 'level_note': note, 'assumptions': assumptions}
        return fn
    return deco


def tiles(r, aspect):
    q = r.tier == 'quick'
    r.model_check('TileSlots', 'TileSlots_mc.cfg', {'MaxOps': 9 if q else 11})
    sched = r.schedules('TileSlots', 'TileSlots_mc.cfg', 'tiles', {'MaxOps': 5 if q else 7}, add='ACTION_CONSTRAINT Edges\n')
    r.conform('tiles', 'TileStore_trace', 12 if q else 120, aspect=aspect, sched=sched)


TILES = 'TLC model checking of the tile slot design; replay of its transitions and random histories into NavMesh, TLC trace validation'
TNOTE = ('The slot/salt design is checked exhaustively for two slots; the code is bound by replaying every transition of that model and by '
         'long random histories (wrap-around of the counter included), every lookup after every step judged by the specification.')


@check('C01', TILES, TNOTE)
def c01(r):
    tiles(r, 'C01')


@check('C02', TILES, TNOTE)
def c02(r):
    tiles(r, 'C02')


@check('C03', TILES, TNOTE)
def c03(r):
    tiles(r, 'C03')


@check('C04', 'TLC model checking of the stitching design; exact oracle for connections in TLA+; TLC validation of recorded histories',
       'Connections expected by an exact integer/rational specification of overlap; compared with every connection of every tile after '
       'every addition and removal of random irregular worlds and of every transition of the design model. Assumes edges are not so '
       'nearly at the climb limit that single precision decides (left free there).')
def c04(r):
    q = r.tier == 'quick'
    r.model_check('TileStitch', 'TileStitch_mc.cfg')
    sched = r.schedules('TileStitch', 'TileStitch_mc.cfg', 'links', add='ACTION_CONSTRAINT Edges\n')
    r.conform('links', 'TileLinks_trace', 10 if q else 150, sched=sched)


STREAM = ('TLC model checking of the file stream design; replay of its behaviours into Decode; TLC validation of recorded save/load '
          'histories of random meshes')


@check('C05', STREAM,
       'Random meshes (layers, gaps in the slots, off-mesh connections, detail, run-time flag and area changes) saved and loaded through '
       'every chunking of the stream model and random ones; content compared by digest of every field, links and query answers included.')
def c05(r):
    q = r.tier == 'quick'
    r.model_check('FileStream', 'FileStream_mc.cfg', {'Tiles': 2 if q else 4})
    r.conform('persist', 'Persist_trace', 40 if q else 600, aspect='C05')


@check('C06', STREAM,
       'Every cut position of small files, both by end of stream and by failure, every fault position of the model for every chunking, '
       'damaged magic and version bytes, failing destinations; anything but an error is rejected by the specification.')
def c06(r):
    q = r.tier == 'quick'
    r.model_check('FileStream', 'FileStream_mc.cfg', {'Tiles': 2 if q else 4})
    sched = r.schedules('FileStream', 'FileStream_mc.cfg', 'stream', add='ACTION_CONSTRAINT Edges\n')
    r.conform('persist', 'Persist_trace', 12 if q else 80, aspect='C06', sched=sched, opt='c06')


@check('C07', 'TLA+ specification of compiled tiles; TLC validation of recorded compilations of random sources',
       'Random irregular polygon meshes with arbitrary neighbour codes, flags, areas, detail and off-mesh connections at and around the '
       'tile borders, vertex indices up to the limit; every field of the added tile compared with the TLA+ specification; every documented '
       'limit violated.')
def c07(r):
    q = r.tier == 'quick'
    r.conform('compile', 'TileCompile_trace', 40 if q else 800)


@check('C08', 'TLC model checking of the attachment design; geometric specification of attachments in TLA+; TLC validation of recorded histories',
       'Random flat tiles with holes, layers and random connections around polygon borders and the radius limit, added and removed in '
       'random orders and along every transition of the design model; all links of every connection compared after every step. Choices '
       'between polygons at the same distance, and distances within 1/8 quarter cell of the radius on slanted edges, are left free.')
def c08(r):
    q = r.tier == 'quick'
    r.model_check('OffMesh', 'OffMesh_mc.cfg')
    sched = r.schedules('TileStitch', 'TileStitch_mc.cfg', 'off', add='ACTION_CONSTRAINT Edges\n')
    r.conform('offmesh', 'OffMesh_trace', 25 if q else 400, sched=sched)


@check('C10', 'Geometric specification of nearest polygons and closest points in TLA+; TLC validation of recorded queries',
       'Random multi-tile, multi-layer meshes of random convex polygons at random heights with detail surfaces, with and without search '
       'trees, changed at run time; every answer compared with an integer model of the surface (resolution 1/16 cell). Answers that '
       'differ by less than the resolution, and polygons that only touch the box, are left free.')
def c10(r):
    q = r.tier == 'quick'
    r.conform('nearest', 'Nearest_trace', 20 if q else 500)


SEARCH = ('TLC model checking of the search design on all small graphs; replay of those graphs and of random meshes into the code; TLC '
          'validation of recorded searches')


def searchgraphs(r, n=None):
    q = r.tier == 'quick'
    r.model_check('PathSearch', 'PathSearch_mc.cfg')
    if not q:
        r.model_check('PathSearch', 'PathSearch_mc.cfg', {'N': 5, 'Weights': '{1, 2}', 'Bounded': 'FALSE'})
    sched = r.schedules('PathSearch', 'PathSearch_mc.cfg', 'graphs', {'Gen': 'TRUE', 'Bounded': 'FALSE', 'N': 4 if q else 5},
                        tag='GRAPH', add='INVARIANT Emit\n', limit=400 if q else 6000)
    r.conform('paths', 'Paths_trace', 0, sched=sched, opt='graphs', aspect=r.pid)


@check('C11', SEARCH,
       'The search design is checked on every digraph of 4 (5) polygons with every lower bound and tie order; those graphs and random '
       'multi-tile, multi-layer meshes with connections, filters and run-time changes are searched by the code, every corridor judged '
       'against reachability in the recorded connections. Which of several entry points of a polygon counts for nearness is left free.')
def c11(r):
    searchgraphs(r)
    r.conform('paths', 'Paths_trace', 20 if r.tier == 'quick' else 500, opt='path', aspect='C11')


@check('C12', SEARCH,
       'As C11, with cost functions of both kinds named in the property; cheapest cost is established by a feasible potential that the '
       'specification verifies (lower bound of every corridor).')
def c12(r):
    searchgraphs(r)
    r.conform('paths', 'Paths_trace', 20 if r.tier == 'quick' else 500, opt='cost', aspect='C12')


@check('C13', SEARCH,
       'As C11 with node pools of every size from 1 and result buffers of every length up to the corridor, compared with the result for '
       'ample space.')
def c13(r):
    searchgraphs(r)
    r.conform('paths', 'Paths_trace', 30 if r.tier == 'quick' else 700, opt='limits', aspect='C13')


LIFE = ('TLC model checking of the life of a sliced search; replay of its transitions and random slicings into the code; TLC validation '
        'of the recorded calls')


def life(r, limit):
    q = r.tier == 'quick'
    r.model_check('SliceLife', 'SliceLife_mc.cfg', {'MaxOps': 7 if q else 9})
    sched = r.schedules('SliceLife', 'SliceLife_mc.cfg', 'life', {'MaxOps': 7 if q else 9}, add='ACTION_CONSTRAINT Edges\n', limit=limit)
    r.conform('paths', 'Paths_trace', 0, sched=sched, opt='life', aspect=r.pid)


@check('C14', LIFE,
       'Every transition of the life cycle model and random slicings (with other queries in between, any-angle option, small pools and '
       'buffers) compared call by call with the same search made in one call.')
def c14(r):
    q = r.tier == 'quick'
    life(r, 600 if q else 6000)
    r.conform('paths', 'Paths_trace', 30 if q else 700, opt='sliced', aspect='C14')


@check('C15', LIFE,
       'Every transition of the life cycle model and random searches with tiles removed, restored and replaced and flags changed between '
       'slices; corridors judged against all connections that existed during the search.')
def c15(r):
    q = r.tier == 'quick'
    life(r, 600 if q else 6000)
    r.conform('paths', 'Paths_trace', 30 if q else 700, opt='change', aspect='C15')


@check('C19', 'TLA+ specification of permission; TLC validation of recorded queries of every kind',
       'Random flag words, masks and run-time flag changes; every polygon in every result of path, sliced, ray and nearest queries and '
       'every validity check judged against the flags at the time of the call; area costs of two filters after random settings.')
def c19(r):
    q = r.tier == 'quick'
    r.conform('paths', 'Paths_trace', 20 if q else 500, opt='filter', aspect='C19')
    r.conform('paths', 'Paths_trace', 12 if q else 300, opt='change', aspect='C19')
    r.conform('nearest', 'Nearest_trace', 10 if q else 200, opt='c19')


WALK = 'TLA+ specification of taut lines and rays; TLC validation of recorded results on random meshes'


@check('C16', WALK,
       'Random corridors (found by searches, random walks, broken ones) on random meshes of many tiles with off-mesh connections and floors '
       'at different heights; every corner and every leg judged against the open portals of the corridor.')
def c16(r):
    r.conform('walk', 'Walk_trace', 60 if r.tier == 'quick' else 1500, opt='straight', aspect='C16')


@check('C17', WALK,
       'The same with area or all crossings, buffers from one point to more than enough, with and without flags and references; the crossings '
       'are judged against the portals between the corners, short results against the full ones.')
def c17(r):
    r.conform('walk', 'Walk_trace', 50 if r.tier == 'quick' else 1300, opt='options', aspect='C17')


@check('C18', WALK,
       'Random rays (within and across tiles, along axes, through corners, ending on edges) with random filters, on strictly convex meshes; '
       'path, stopping point, wall, normal and cost judged, repeated with reused results, smaller buffers and Raycast2.')
def c18(r):
    r.conform('walk', 'Walk_trace', 100 if r.tier == 'quick' else 2500, opt='ray', aspect='C18')


@check('C22', 'TLC model checking of the pool as hash chains against a map; replay of its transitions and random operations; TLC validation',
       'All transitions of pools of 3 nodes over 4 polygons and 2 states, random operations on pools of 1 to 100 nodes with arbitrary '
       'references, and filling of pools up to the documented maximum of 65535 nodes.')
def c22(r):
    q = r.tier == 'quick'
    r.model_check('NodePool', 'NodePool_mc.cfg', {} if q else {'MaxOps': 7})
    sched = r.schedules('NodePool', 'NodePool_mc.cfg', 'nodes', {'MaxOps': 5} if q else {}, add='ACTION_CONSTRAINT Edges\n', limit=1500 if q else 20000)
    r.conform('nodes', 'NodePool_trace', 0, sched=sched)
    r.conform('nodes', 'NodePool_trace', 40 if q else 1500)


@check('C20', 'TLA+ specification of validity of calls; TLC validation of recorded invalid and odd calls, also during sliced searches',
       'Random calls of every query with null, stale, forged, out-of-range and valid references, missing, short, infinite and '
       'not-a-number positions, missing filters and results; fingerprints of the mesh around each call; searches in progress compared with '
       'undisturbed ones; node limits around the documented bounds.')
def c20(r):
    r.conform('refuse', 'Paths_trace', 10 if r.tier == 'quick' else 300)


@check('C21', 'TLC model checking of query objects with scratch space; replay of interleavings and random histories and concurrent runs (race '
       'detector); TLC validation against the results of the queries alone',
       'All interleavings of sliced and whole searches of two objects; histories of 60 queries of all kinds on one object; four objects at the '
       'same time in four goroutines, built with the race detector; fingerprints of the mesh.')
def c21(r):
    q = r.tier == 'quick'
    r.model_check('Indep', 'Indep_mc.cfg', {} if q else {'MaxOps': 9})
    sched = r.schedules('Indep', 'Indep_mc.cfg', 'indep', {} if q else {'MaxOps': 8}, add='ACTION_CONSTRAINT Edges\n', limit=800 if q else 8000)
    r.conform('indep', 'Indep_trace', 0, sched=sched)
    r.conform('indep', 'Indep_trace', 4 if q else 100, race=True)


@check('C23', 'TLC model checking of span insertion; replay of its insertions; TLC validation of recorded rasterizations in exact arithmetic',
       'All sequences of 3 (4) insertions into a column; random triangles of all shapes (walls, flat, across borders, outside) on random '
       'fields, in two orders, through all three functions; every voxel of every cell and every walkable span judged. Where the exact result '
       'lies on a boundary between voxels that the arithmetic of the code may miss, both sides are accepted.')
def c23(r):
    q = r.tier == 'quick'
    r.model_check('Column', 'Column_mc.cfg', {} if q else {'Height': 4, 'MaxOps': 4})
    sched = r.schedules('Column', 'Column_mc.cfg', 'column', {'Height': 4} if q else {}, add='ACTION_CONSTRAINT Edges\n', limit=4000 if q else 40000)
    r.conform('raster', 'Heightfield_trace', 0, sched=sched)
    r.conform('raster', 'Heightfield_trace', 50 if q else 3000)


FIELD = ('TLC model checking of the rules on all pairs of small columns; replay of those pairs; TLC validation of recorded steps on random '
         'heightfields')


def pairs(r, limit):
    r.model_check('Pairs', 'Pairs_mc.cfg')
    sched = r.schedules('Pairs', 'Pairs_mc.cfg', 'pairs', {} if r.tier == 'quick' else {'Rows_': 7}, add='ACTION_CONSTRAINT Edges\n', limit=limit)
    r.conform('fields', 'Fields_trace', 0, sched=sched, opt='pairs', aspect=r.pid)


@check('C24', FIELD,
       'Sequences of filters with changing agent sizes on landscapes of up to 7 x 7 columns with several floors, also near the largest height; '
       'walkable spans shown by a compact heightfield before and after each filter.')
def c24(r):
    q = r.tier == 'quick'
    pairs(r, 3000 if q else 30000)
    r.conform('fields', 'Fields_trace', 120 if q else 5000, opt='filter', aspect='C24')


@check('C25', FIELD,
       'As C24, with all open spaces, their numbering and all connections judged; columns with more layers than connections can name.')
def c25(r):
    q = r.tier == 'quick'
    pairs(r, 3000 if q else 30000)
    r.conform('fields', 'Fields_trace', 90 if q else 4000, opt='compact', aspect='C25')


@check('C26', 'TLC model checking of the two sweeps on all fields with few holes; replay of those shapes; TLC validation of recorded erosions',
       'All 7 x 7 fields with up to two (three) holes; random wide landscapes with holes, two floors and ramps; level fields of up to 515 x '
       '520 cells with radii up to 254.')
def c26(r):
    q = r.tier == 'quick'
    r.model_check('Sweep', 'Sweep_mc.cfg', {} if q else {'W': 6, 'Holes': 3})
    sched = r.schedules('Sweep', 'Sweep_mc.cfg', 'shapes', {}, add='ACTION_CONSTRAINT Edges\n', limit=250 if q else None)
    r.conform('fields', 'Fields_trace', 0, sched=sched, opt='shapes', aspect='C26')
    r.conform('fields', 'Fields_trace', 50 if q else 1500, opt='erode', aspect='C26')


@check('C27', 'TLA+ specification of marking and of the list of volumes; TLC validation of recorded calls on random heightfields',
       'Random convex polygons of 3 to 12 corners in both orders, within, across and outside the field, heights around floors; through the input '
       'geometry and directly; histories of up to 300 additions and deletions of volumes. Cells whose centre is on an edge may go either way.')
def c27(r):
    q = r.tier == 'quick'
    r.conform('fields', 'Fields_trace', 150 if q else 5000, opt='mark', aspect='C27')
    r.conform('volumes', 'Fields_trace', 10 if q else 200, aspect='C27')


@check('C32', 'TLC model checking of trees of chunks (built by halving, stored with escape offsets) and their search; TLC validation of recorded loads and searches',
       'All sequences of up to four boxes; triangle soups of 1 to 3000 triangles (limit 256 per chunk, sizes around its multiples), equal and '
       'duplicate triangles, flat fields; rectangles at the very borders of chunks, points, small result buffers.')
def c32(r):
    q = r.tier == 'quick'
    r.model_check('ChunkTree', 'ChunkTree_mc.cfg', {'N': 3} if q else {})
    r.conform('chunks', 'Geometry_trace', 40 if q else 800, aspect='C32')


@check('C33', 'TLA+ specification of the meaning of mesh files; TLC validation of recorded loads',
       'Random files of vertices, faces (0 to 6 corners, with texture and normal references), comments, malformed lines and faces of unknown '
       'vertices, failing readers; several loads with one loader or input geometry. Normals are judged for small coordinates only.')
def c33(r):
    q = r.tier == 'quick'
    r.conform('load', 'Geometry_trace', 400 if q else 12000, aspect='C33')


@check('C34', 'TLC model checking of the life of a build context, replay of all its transitions; TLC validation of recorded calls with measured times, '
       'and of all build steps',
       'Every transition of the context model from every of its states, random histories of up to 60 calls with thousands of messages; every step '
       'of builds of random fields with log and timers on and off. A timer that runs when timers are reset may count or not.')
def c34(r):
    q = r.tier == 'quick'
    r.model_check('BuildLog', 'BuildLog_mc.cfg')
    sched = r.schedules('BuildLog', 'BuildLog_mc.cfg', 'calls', {}, add='ACTION_CONSTRAINT Edges\n')
    r.conform('context', 'BuildLog_trace', 120 if q else 3000, sched=sched, aspect='C34')
    r.conform('context', 'BuildLog_trace', 120 if q else 3000, aspect='C34')


@check('C36', 'TLC model checking of what calls of the tool do to files, replay of all its transitions into the real binary; TLC validation of '
       'recorded histories of calls',
       'Every call (commands, types, settings, geometries, answers) in every state of two files; random histories of up to 14 calls over names with '
       'spaces, directories, links, missing directories and a full device. Answers come through a pipe, not a terminal.')
def c36(r):
    q = r.tier == 'quick'
    r.build_cli()
    r.model_check('Cli', 'Cli_mc.cfg')
    sched = r.schedules('Cli', 'Cli_mc.cfg', 'calls', {}, add='ACTION_CONSTRAINT Edges\n', limit=1600 if q else None)
    r.conform('cli', 'Cli_trace', 0, sched=sched, aspect='C36')
    r.conform('cli', 'Cli_trace', 15 if q else 400, aspect='C36')


@check('C28', 'TLC model checking of sweeping and merging on all small fields, replay of these; exact specification of partitions, TLC validation of '
       'recorded partitionings',
       'All 3 x 3 fields of three areas (4 x 4 of two); random landscapes up to 20 x 20 with patches, cliffs, ridges, floors above each other and '
       'winding ramps, borders and thresholds of all sizes; boards of up to 72000 regions.')
def c28(r):
    q = r.tier == 'quick'
    r.model_check('Regions', 'Regions_mc.cfg', {'H': 2} if q else {})
    if not q:
        r.model_check('Regions', 'Regions_mc.cfg', {'W': 4, 'H': 4, 'Areas': '{0, 1}', 'MinSize': 3, 'MergeSize': 6})
    sched = r.schedules('Regions', 'Regions_mc.cfg', 'fields', {}, add='ACTION_CONSTRAINT Fields\n',
                        limit=400 if q else 8000)
    r.conform('regions', 'Partition_trace', 0, sched=sched, aspect='C28')
    r.conform('regions', 'Partition_trace', 32 if q else 2000, opt='many', aspect='C28')


@check('C29', 'TLC model checking of outlines and their simplification for all small layouts, replay of these; exact specification of outlines in plane '
       'integer geometry, TLC validation of recorded contours and meshes',
       'All layouts of two regions on 3 x 3 cells (quick: 2 x 3) with the simplification in every order ties allow; layouts as fields, random landscapes '
       'up to 18 x 18 with cliffs, ridges and floors above each other, all error and edge length settings, borders.')
def c29(r):
    q = r.tier == 'quick'
    r.model_check('Simplify', 'Simplify_mc.cfg', {} if q else {'W': 3})
    if not q:
        r.model_check('Simplify', 'Simplify_mc.cfg', {'W': 3, 'Err': 5})
    sched = r.schedules('Simplify', 'Simplify_mc.cfg', 'layouts', {} if q else {'W': 3}, add='ACTION_CONSTRAINT Fields\n', limit=64 if q else 3000)
    r.conform('meshes', 'Mesh_trace', 0, sched=sched, aspect='C29')
    r.conform('meshes', 'Mesh_trace', 14 if q else 800, aspect='C29')
    r.conform('meshes', 'Mesh_trace', 2 if q else 60, opt='slits', aspect='C29')
    r.conform('meshes', 'Mesh_trace', 5 if q else 150, opt='tile', aspect='C29')


@check('C30', 'TLC model checking of cutting regions into triangles and merging them, for all small regions, replay of these; exact specification of '
       'polygon meshes in plane integer geometry, TLC validation of recorded meshes',
       'All regions of 3 x 2 cells (thorough: 4 x 3) with every choice of ears and merges that ties allow; random landscapes up to 18 x 18, all limits '
       'for the corners of a polygon, borders.')
def c30(r):
    q = r.tier == 'quick'
    r.model_check('Meshing', 'Meshing_mc.cfg', {})
    if not q:
        r.model_check('Meshing', 'Meshing_mc.cfg', {'W': 4, 'H': 3})
        r.model_check('Meshing', 'Meshing_mc.cfg', {'H': 3, 'Nvp': 4})
    sched = r.schedules('Simplify', 'Simplify_mc.cfg', 'layouts', {} if q else {'W': 3}, add='ACTION_CONSTRAINT Fields\n', limit=64 if q else 3000)
    r.conform('meshes', 'Mesh_trace', 0, sched=sched, aspect='C30')
    r.conform('meshes', 'Mesh_trace', 14 if q else 800, aspect='C30')
    r.conform('meshes', 'Mesh_trace', 2 if q else 60, opt='slits', aspect='C30')
    r.conform('meshes', 'Mesh_trace', 5 if q else 150, opt='tile', aspect='C30')


@check('C31', 'TLC model checking of sampling along sides and of cutting hulls into triangles, replay of its height profiles; exact specification of detail '
       'meshes in integer geometry, TLC validation of recorded detail meshes',
       'All height profiles of 6 samples (thorough: 9) and all hulls on a 2 x 2 (3 x 3) square; profiles with obstacles and random landscapes up to '
       '18 x 18, sampling distances from 0 to 6 cells, errors from 0 to 2 cells.')
def c31(r):
    q = r.tier == 'quick'
    r.model_check('Detail', 'Detail_mc.cfg', {} if q else {'N': 8, 'A': 3})
    sched = r.schedules('Detail', 'Detail_mc.cfg', 'profiles', {} if q else {'N': 6}, add='INVARIANT Profiles\n', limit=120 if q else 3000)
    r.conform('meshes', 'Detail_trace', 0, sched=sched, opt='detail', aspect='C31')
    r.conform('meshes', 'Detail_trace', 24 if q else 1200, opt='detail', aspect='C31')
    r.conform('meshes', 'Detail_trace', 3 if q else 12, opt='vast', aspect='C31')


@check('C35', 'TLC model checking of the life of a builder, replay of its transitions; TLC validation of recorded histories of builders against builds of '
       'fresh builders, also at the same time (race detector)',
       'Histories of up to 12 operations on a builder (loading, failing loads, volumes, settings, settings that cannot be built, log, builds, single '
       'tiles) and random ones of up to 25 with up to 4 geometries and 5 settings; up to 6 builders in as many goroutines. Small terrains (48 x 32 cells).')
def c35(r):
    q = r.tier == 'quick'
    r.model_check('Builder', 'Builder_mc.cfg')
    sched = r.schedules('Builder', 'Builder_mc.cfg', 'life', {}, add='ACTION_CONSTRAINT Edges\n', limit=1500 if q else 30000)
    r.conform('builder', 'Builder_trace', 0, sched=sched, aspect='C35')
    r.conform('builder', 'Builder_trace', 40 if q else 1500, aspect='C35')
    r.conform('builder', 'Builder_trace', 12 if q else 300, opt='par', race=True, aspect='C35')


@check('C37', 'TLC model checking of which floors of block terrains agents can stand on, replay of the layouts through the whole pipeline; TLC validation of '
       'navigation meshes built from random block terrains, one piece or tiles',
       'Layouts of 2 x 2 and 3 x 2 blocks of five kinds, climbs below, at and above the steps; random terrains of up to 56 x 44 cells (and up to 240,000 triangles) with holes, steps, bridges '
       'and agents of radius 2 to 5. The climb is not above the height; with floors above each other about twice the climb apart, tiles may join them (links reach so far). In passages of about the width of the agent either answer is accepted.')
def c37(r):
    q = r.tier == 'quick'
    r.model_check('Layouts', 'Layouts_mc.cfg', {'B': 4, 'Cs': '{6}'} if q else {'Rs': '{0, 1}'})
    sched = r.schedules('Layouts', 'Layouts_replay.cfg', 'layouts', {}, add='INVARIANT Replay\n', limit=96 if q else 2400)
    r.conform('world', 'Terrain_trace', 0, sched=sched, aspect='C37')
    r.conform('world', 'Terrain_trace', 12 if q else 300, aspect='C37')
    r.conform('world', 'Terrain_trace', 1 if q else 8, opt='vast', aspect='C37')


@check('C38', 'TLC model checking of when triangles are walkable, replay of all small triangles; TLC validation of recorded markings of random triangles '
       'and of navigation meshes of ramps',
       'Triangles with vertices in a cube of 3 (thorough: 5) around the first one, 13 angles from 0 to 85 degrees; random ones in a cube of 9, scaled and moved; ramps of 10 to 30 cells between platforms, in four directions, one piece or tiles. '
       'Slopes within a ten thousandth of the limit (in squared cosines) and triangles without area are accepted either way.')
def c38(r):
    q = r.tier == 'quick'
    r.model_check('Slopes', 'Slopes_mc.cfg', {} if q else {'R': 2})
    sched = r.schedules('Slopes', 'Slopes_mc.cfg', 'triangles', {} if q else {'R': 2}, add='INVARIANT Replay\n', limit=None if q else 6000)
    r.conform('slopes', 'Slope_trace', 0, sched=sched, aspect='C38')
    r.conform('slopes', 'Slope_trace', 60 if q else 3000, aspect='C38')
    r.conform('ramps', 'Ramp_trace', 60 if q else 3000, aspect='C38')
