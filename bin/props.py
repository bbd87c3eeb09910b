# Configuration of the checks: one entry per property id.
PROPS = {}

PROPS['C10'] = {
    'note': 'Random programs over the arithmetic machine, word-boundary values and aliased operands; every result is decided by the TLA+ definition of exact integers.',
    'parts': [
        {'driver': 'bigint', 'spec': 'BigIntMachine.tla', 'cfg': 'BigIntMachine.cfg',
         'quick': 2400, 'thorough': 15000,
         'require': {'divrem': 100, 'gcd': 100, 'udivrem': 100, 'roundup': 50}},
    ],
}

PROPS['C01'] = {
    'note': 'Random scenes of closed meshes (boxes, hulls, voxel solids, affine images, subdivided facets, shared features), random histories and thresholds; every result surface is decided by exact winding numbers, chain closure and volumes in TLA+.',
    'parts': [
        {'driver': 'boolean', 'spec': 'BooleanMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 1000, 'thorough': 6000,
         'require': {'trav': 500, 'volumes': 100}},
    ],
}

PROPS['C02'] = {
    'note': 'The boolean machine with a connecting traversal: links are mutual, join the two directions of one segment, and pair neighbours around the edge; inputs with missing facets must be reported.',
    'parts': [
        {'driver': 'boolean', 'mode': 'links', 'spec': 'ConnectMachine.tla', 'cfg': 'Connect.cfg',
         'quick': 900, 'thorough': 6000,
         'require': {'trav': 400, 'open': 100}},
    ],
}

PROPS['C05'] = {
    'note': 'Walk model: composition rule of the answers explored exhaustively; every reachable state is put to every filter of a fixed list, random nested filters and states beside it, and traversals with three and more meshes.',
    'models': [{'spec': 'FilterModel.tla', 'cfg': 'FilterModel.cfg', 'emit_prefix': 'STATE', 'scripts': 'states.txt'}],
    'parts': [
        {'name': 'states', 'driver': 'filter', 'spec': 'FilterMachine.tla', 'cfg': 'Trace.cfg', 'scripts': 'states.txt',
         'quick': 0, 'thorough': 0, 'require': {'ask': 1000}},
        {'name': 'random', 'driver': 'filter', 'spec': 'FilterMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 500, 'thorough': 8000, 'require': {'ask': 1000}},
        {'name': 'traverse', 'driver': 'boolean', 'mode': 'multi', 'spec': 'BooleanMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 250, 'thorough': 3000, 'require': {'trav': 400}},
    ],
}

PROPS['C07'] = {
    'note': 'Facet machine: random convex facets (3 to 24 vertices, collinear ones, any plane, negative denominators) split repeatedly by planes through, beside and along them; children, flags, ranges of both searches and the searches themselves are decided in TLA+.',
    'parts': [
        {'driver': 'facet', 'mode': 'split', 'spec': 'FacetMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 4000, 'thorough': 40000,
         'require': {'split': 5000, 'search': 2000}},
    ],
}

PROPS['C08'] = {
    'note': 'Facet machine: random histories of rotations, sorts, copies, moves, inversions, edge splits, splits, merges and comparisons over facets whose sides carry data.',
    'parts': [
        {'driver': 'facet', 'mode': 'edit', 'spec': 'FacetMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 4000, 'thorough': 40000,
         'require': {'merge': 2000, 'eq': 500, 'splitedge': 500, 'invert': 500, 'copy': 500}},
    ],
}

PROPS['C11'] = {
    'note': 'Line machine: wedges of solid around up to 3 lines of a plane, in columns, perturbed (missing, flipped, doubled sides) or random; sides split into stretches; every stretch linked iff the next facet across the interior faces it, errors reported iff some stretch stays open or doubled.',
    'parts': [
        {'name': 'lines', 'driver': 'line', 'spec': 'LineMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 4000, 'thorough': 80000, 'require': {'line': 6000}},
    ],
}
PROPS['C12'] = {
    'note': 'Deeds model: every state of a few objects and deeds explored exhaustively (invariants: one owner, loans pair up, holder and owner agree); every step out of every state is carried out on the real classes and all holders are read after each step; long random histories; deeds to polygon sides under splits, sorting and moves.',
    'models': [{'spec': 'DeedModel.tla', 'cfg': 'DeedModel.cfg', 'thorough_cfg': 'DeedModelBig.cfg', 'emit_prefix': 'RUN', 'scripts': 'runs.txt'}],
    'parts': [
        {'name': 'runs', 'driver': 'deed', 'spec': 'DeedMachine.tla', 'cfg': 'DeedTrace.cfg', 'scripts': 'runs.txt',
         'quick': 0, 'thorough': 0, 'require': {'step': 20000}},
        {'name': 'history', 'driver': 'deed', 'spec': 'DeedMachine.tla', 'cfg': 'DeedTrace.cfg',
         'quick': 3000, 'thorough': 60000, 'require': {'step': 30000}},
        {'name': 'ring', 'driver': 'deed', 'mode': 'ring', 'spec': 'DeedMachine.tla', 'cfg': 'DeedTrace.cfg',
         'quick': 1500, 'thorough': 20000, 'require': {'ring': 3000}},
    ],
}
PROPS['C13'] = {
    'note': 'Redirects model: every shape of reference chains over a few handles explored exhaustively, every step out of every state carried out on real handles; long random histories; fans and rings of triangles whose shared vertices round to different doubles, mapped in any order.',
    'models': [{'spec': 'RedirectModel.tla', 'cfg': 'RedirectModel.cfg', 'thorough_cfg': 'RedirectModelBig.cfg', 'emit_prefix': 'RUN', 'scripts': 'runs.txt'}],
    'parts': [
        {'name': 'runs', 'driver': 'redirect', 'spec': 'RedirectMachine.tla', 'cfg': 'Trace.cfg', 'scripts': 'runs.txt',
         'quick': 0, 'thorough': 0, 'require': {'step': 8000}},
        {'name': 'history', 'driver': 'redirect', 'spec': 'RedirectMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 3000, 'thorough': 40000, 'require': {'step': 20000}},
        {'name': 'meshes', 'driver': 'redirect', 'mode': 'map', 'spec': 'RedirectMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 800, 'thorough': 15000, 'require': {'map': 5000, 'ring': 200}},
    ],
}
PROPS['C14'] = {
    'note': 'Facets that keep a bounding box go through the facet machine; boxes answer points, planes, walls and comparisons decided in TLA+.',
    'parts': [
        {'name': 'history', 'driver': 'facet', 'mode': 'box', 'spec': 'FacetMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 3000, 'thorough': 30000,
         'require': {'split': 2000, 'convert': 500, 'copy': 500, 'merge': 1000, 'sort': 200, 'rotate': 200}},
        {'name': 'boxes', 'driver': 'facet', 'mode': 'boxes', 'spec': 'BoxMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 600, 'thorough': 8000, 'require': {'box': 2000}},
    ],
}

PROPS['C16'] = {
    'note': 'Geometry machine: pools of points, vectors, half-spaces and lines (small integers with forced coincidences, word-boundary sizes, denominators of either sign) grow by constructions; every construction and predicate is decided by exact rational arithmetic in TLA+.',
    'parts': [
        {'driver': 'geometry', 'spec': 'GeometryMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 5000, 'thorough': 60000,
         'require': {'pp': 4000, 'twist': 2000, 'hh': 2000, 'order': 2000, 'meet': 1000, 'linehh': 1000, 'vec2': 2000, 'shadow': 300}},
    ],
}

PROPS['C06'] = {
    'note': 'Walk machine: one partitioner runs over several sets of coplanar facets (rectangles, hulls, repeats, shifts, both orientations, any plane, clipped by earlier splits); the visitor wants every facet and the machine decides each call; with filters, the facets given at sampled points are decided by peeling.',
    'parts': [
        {'driver': 'partition', 'spec': 'PartitionMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 1500, 'thorough': 15000,
         'require': {'run': 1500, 'filter': 800, 'accept': 20000}},
    ],
}

PROPS['C03'] = {
    'note': 'Tree machine: histories that interleave adding facets (single, batches, moved, with boxes, cut by another tree) and splitting leaves (given planes, the picked plane, axis planes with incremental event lists); every piece, its notes about coincident splits, counts and winding numbers are decided from the added facets and the planes alone.',
    'parts': [
        {'name': 'history', 'driver': 'tree', 'spec': 'TreeMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 2500, 'thorough': 25000,
         'require': {'split': 10000, 'dump': 2500, 'add': 5000}},
    ],
}

PROPS['C04'] = {
    'note': 'Cell machine: ways through random splits (axis planes, planes through corners and points of the box, planes that miss it) and boxes with denominators; the returned surface and sheets are decided from the half-spaces alone.',
    'parts': [
        {'driver': 'tree', 'mode': 'border', 'spec': 'CellMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 3000, 'thorough': 40000,
         'require': {'cell': 4000, 'sheets': 4000}},
    ],
}

PROPS['C09'] = {
    'note': 'Decompose machine: outlines (random, untangled, polyomino, star, zig-zag; repeated and collinear vertices, spikes; planar or not; list or vector iterators) and pairs of monotone chains; the directed sides of the pieces must add up to the outline, every piece must be convex.',
    'parts': [
        {'name': 'outlines', 'driver': 'decompose', 'mode': 'cut', 'spec': 'DecomposeMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 4000, 'thorough': 60000, 'require': {'cut': 8000}},
        {'name': 'chains', 'driver': 'decompose', 'mode': 'chains', 'spec': 'DecomposeMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 3000, 'thorough': 40000, 'require': {'chains': 6000}},
    ],
}
PROPS['C21'] = {
    'note': 'Range model: all small compositions of concatenated parts under append and prepend explored exhaustively and replayed; every element, distance, step, jump and comparison of the real iterators is compared with the specified sequence; transforming iterators with state.',
    'models': [{'spec': 'RangeModel.tla', 'cfg': 'RangeModel.cfg', 'thorough_cfg': 'RangeModelBig.cfg', 'emit_prefix': 'RUN', 'scripts': 'runs.txt'}],
    'parts': [
        {'name': 'runs', 'driver': 'range', 'spec': 'RangeMachine.tla', 'cfg': 'Trace.cfg', 'scripts': 'runs.txt',
         'quick': 0, 'thorough': 0, 'require': {'change': 1000}},
        {'name': 'random', 'driver': 'range', 'spec': 'RangeMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 3000, 'thorough': 60000, 'require': {'walk': 3000}},
        {'name': 'transform', 'driver': 'range', 'mode': 'transform', 'spec': 'RangeMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 3000, 'thorough': 60000, 'require': {'walk': 3000}},
    ],
}
PROPS['C22'] = {
    'note': 'Estimator model: every call out of every remembered bit length, answers checked against an enclosure of the logarithm; each is carried out on the real estimator, beside random histories with counts up to 64 bits and split costs.',
    'models': [{'spec': 'EstimatorModel.tla', 'cfg': 'EstimatorModel.cfg', 'thorough_cfg': 'EstimatorModelBig.cfg', 'emit_prefix': 'RUN', 'scripts': 'runs.txt'}],
    'parts': [
        {'name': 'runs', 'driver': 'estimate', 'spec': 'EstimatorMachine.tla', 'cfg': 'Trace.cfg', 'scripts': 'runs.txt',
         'quick': 0, 'thorough': 0, 'require': {'est': 2000}},
        {'name': 'random', 'driver': 'estimate', 'spec': 'EstimatorMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 4000, 'thorough': 100000, 'require': {'est': 8000, 'split': 2000}},
    ],
}
PROPS['C18'] = {
    'note': 'Quantization model: every small mantissa, exponent and grain, carried out by the real code; random doubles of the whole range (subnormal, halfway, extreme), rationals of up to 400 bits, integers and box diagonals, each conversion decided in exact arithmetic.',
    'models': [{'spec': 'QuantizeModel.tla', 'cfg': 'QuantizeModel.cfg', 'thorough_cfg': 'QuantizeModelBig.cfg', 'emit_prefix': 'RUN', 'scripts': 'runs.txt'}],
    'parts': [
        {'name': 'runs', 'driver': 'floats', 'spec': 'FloatMachine.tla', 'cfg': 'Trace.cfg', 'scripts': 'runs.txt',
         'quick': 0, 'thorough': 0, 'require': {'quantize': 1500}},
        {'name': 'random', 'driver': 'floats', 'spec': 'FloatMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 5000, 'thorough': 100000, 'require': {'quantize': 3000, 'exact': 3000, 'back': 1000, 'number': 1000, 'diagonal': 1000}},
    ],
}
PROPS['C19'] = {
    'note': 'Measure machine: centroids, top and farthest points of closed meshes (any order of facets and start of their vertices, any denominators), areas and centroids of their facets, and extrusions of convex and other outlines in every direction, against exact sums over tetrahedra, chain closure, volume and winding numbers.',
    'parts': [
        {'name': 'measure', 'driver': 'measure', 'spec': 'MeasureMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 1500, 'thorough': 20000, 'require': {'measure': 1000, 'polygon': 1000}},
        {'name': 'extrude', 'driver': 'measure', 'mode': 'extrude', 'spec': 'MeasureMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 1500, 'thorough': 20000, 'require': {'extrude': 2000}},
    ],
}
PROPS['C15'] = {
    'note': 'Event-list model: every small set of rectangles, split twice in every way, the divided lists checked against the child facets; each set is split by the real code (every first split of the model), beside scenes with sloped, flat, coincident and cut facets split to depth 3 at the cheapest or any place.',
    'models': [{'spec': 'EventModel.tla', 'cfg': 'EventModel.cfg', 'thorough_cfg': 'EventModelBig.cfg', 'emit_prefix': 'RUN', 'scripts': 'runs.txt'}],
    'parts': [
        {'name': 'runs', 'driver': 'events', 'spec': 'EventMachine.tla', 'cfg': 'Trace.cfg', 'scripts': 'runs.txt',
         'quick': 0, 'thorough': 0, 'require': {'make': 1000, 'best': 1500, 'split': 1000}},
        {'name': 'scenes', 'driver': 'events', 'spec': 'EventMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 3000, 'thorough': 60000, 'require': {'best': 6000, 'split': 4000}},
        {'name': 'many', 'driver': 'events', 'spec': 'EventMachine.tla', 'cfg': 'Trace.cfg', 'mode': 'many',
         'quick': 400, 'thorough': 8000, 'require': {'make': 300}},
    ],
}
VTK = {'flags': '-w -I{REPO}/vtk_interface/include -I{REPO}/vtk_interface/src -I/usr/include/vtk-9.1'.split(),
       'ldextra': '-lvtkCommonCore-9.1 -lvtkCommonDataModel-9.1 -lvtkCommonExecutionModel-9.1 -lvtkFiltersGeneral-9.1'.split()}
PROPS['C20'] = {
    'note': 'VTK machine: closed inputs of VTK polygons and strips (duplicate and rounded points, float and double, exact and with a grain) converted to facets and back, and the pipeline filter under sequences of operations and inputs, decided by winding numbers of the surface of the input, and by chain closure and planarity where all corners are doubles.',
    'parts': [
        dict({'name': 'mesh', 'driver': 'vtkio', 'spec': 'VtkMachine.tla', 'cfg': 'Vtk.cfg',
              'quick': 1500, 'thorough': 30000, 'require': {'import': 1000, 'export': 500}}, **VTK),
        dict({'name': 'filter', 'driver': 'vtkio', 'mode': 'filter', 'spec': 'VtkMachine.tla', 'cfg': 'Vtk.cfg',
              'quick': 1500, 'thorough': 30000, 'require': {'filter': 2000}}, **VTK),
    ],
}
PROPS['C17'] = {
    'note': 'Split model: every choice of fixed vertices and heights of a facet, checked to make up the facet with planar parts, and carried out by the real repairer; perturbed prisms, antiprisms, pyramids and roofs in any order of facets, decided exactly: planarity, one point per vertex, nearest common point of its planes, splits only when forced.',
    'models': [{'spec': 'RepairModel.tla', 'cfg': 'RepairModel.cfg', 'thorough_cfg': 'RepairModelBig.cfg', 'emit_prefix': 'RUN', 'scripts': 'runs.txt'}],
    'parts': [
        {'name': 'runs', 'driver': 'repair', 'spec': 'RepairMachine.tla', 'cfg': 'Trace.cfg', 'scripts': 'runs.txt',
         'quick': 0, 'thorough': 0, 'require': {'repair': 600}},
        {'name': 'random', 'driver': 'repair', 'spec': 'RepairMachine.tla', 'cfg': 'Trace.cfg',
         'quick': 4000, 'thorough': 60000, 'require': {'repair': 3800}},
    ],
}
