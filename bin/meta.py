# Single source of properties.jsonl and MANIFEST.json (run bin/gen.py).
# id -> (title, statement, over, quantifier text, why tests can't, files, mechanism, observe_at)
H = 'include/walnut/'
META = {}


def P(id, title, statement, over, qtext, why, files, mech, observe):
    META[id] = dict(id=id, title=title, statement=statement,
                    quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                    anchors={'files': files,
                             'mechanism': [{'name': n, 'where': w} for n, w in mech],
                             'observe_at': observe, 'hook_needed': None})


P('C01', 'Boolean operations on closed meshes are exact',
  'For any closed input meshes with rational vertices, traversing the BSP tree with a union, intersection, difference, single mesh, odd or xor filter yields facets that bound exactly the points where that operation of the inputs\' inside regions holds (inside is winding number above 0; the subtracted mesh is given reversed). '
  'For union, intersection and difference the winding number of the result is 1 at every such point off the surface and 0 elsewhere; for odd and xor filters, whose facets keep the orientation they came in with, a path crosses the surface an odd number of times exactly when it changes sides. '
  'This holds for every relative position (coplanar facets, shared edges and vertices, one mesh inside another, disjoint, self-touching or self-overlapping), every insertion order of meshes and facets, every earlier split of the tree, and every partition-strategy threshold, with no approximation. '
  'The volumes of the results satisfy inclusion-exclusion exactly, and the emitted surface has no boundary.',
  ['inputs', 'configurations', 'histories'],
  'all closed meshes, all filters, all insertion orders, earlier splits and split-strategy thresholds',
  'The tests check a handful of boxes and pyramids in fixed positions and compare facet lists; they do not evaluate the resulting solid at points, nor vary degenerate contacts, insertion order and the strategy threshold.',
  [H + 'bsp_tree.h', H + 'bsp_node.h', H + 'bsp_traverser.h', H + 'bsp_visitor.h', H + 'boolean_operation_filter.h', H + 'bsp_polygon.h'],
  [('leaf acceptance by winding numbers', H + 'bsp_visitor.h'), ('winding number updates on split', H + 'bsp_node.h'), ('split plane choice', H + 'bsp_traverser.h')],
  ['facets handed to a visitor', 'facets taken from the connecting visitor'])

P('C02', 'Connected output is a closed, consistently linked surface',
  'The facets a connecting traversal returns for closed inputs and a union, intersection, difference or single mesh filter are convex, planar and have no repeated consecutive vertices, and every edge is linked to exactly one partner edge whose endpoints are its own endpoints swapped, the link being symmetric and pointing into the returned facets. '
  'Where more than two facets meet at an edge, linked facets are neighbours around it: no other facet lies in the solid between them. '
  'Joining neighbouring facets never changes the solid they bound, and the error log stays empty for closed inputs. '
  'For an input with missing facets the operation does not crash, the returned facets stay convex and planar, links stay symmetric or absent, and an empty error log means the returned surface is closed and fully linked.',
  ['inputs', 'configurations'],
  'all closed inputs (and inputs with missing facets), all filters',
  'The tests look at partners of a few fixed solids; nothing checks link symmetry, convexity and preserved solid over generated inputs after merging.',
  [H + 'connecting_visitor.h', H + 'connected_polygon.h', H + 'edge_line_connector.h', H + 'convex_polygon.h'],
  [('edge pairing on lines', H + 'edge_line_connector.h'), ('merging across removable edges', H + 'connecting_visitor.h')],
  ['facets and edge partners returned by the connecting visitor', 'error log text'])

P('C03', 'A BSP tree conserves its contents under any history of splits',
  'After any interleaving of adding facets, splitting nodes and pushing contents down, the facets of every mesh held below a node are exactly the added facets clipped to that node: each facet\'s area is preserved, pieces do not overlap, and every piece lies in its leaf region with its boundary angle data naming the deciding split. '
  'The final per-leaf contents and winding numbers do not depend on whether a facet was added before or after the splits. '
  'Once a node of a closed mesh is free of that mesh\'s facets, the winding number the tree reports for it equals the true winding number of its region.',
  ['histories', 'inputs'],
  'all sequences of add / split / push operations over all facets and planes',
  'Tests use fixed short histories of one or two splits and check selected facets; order independence and conservation over arbitrary histories are never compared.',
  [H + 'bsp_tree.h', H + 'bsp_node.h', H + 'bsp_polygon.h', H + 'bsp_edge_info.h', H + 'bsp_content_info.h'],
  [('push of contents to children', H + 'bsp_node.h'), ('edge coincidence tracking', H + 'bsp_edge_info.h')],
  ['contents, border contents and winding numbers of the leaves'])

P('C04', 'The border of a BSP node is exactly its region',
  'For any tree and any path in it, the border facets computed for the node bound exactly the part of the requested box that satisfies every split on the path, oriented outwards; the variant without box walls returns exactly those of the facets that lie on splits. '
  'An empty region gives no facets, and facets are convex and planar.',
  ['inputs', 'histories'],
  'all split histories, all paths, all bounding boxes',
  'Tests check two or three trees with axis aligned splits.',
  [H + 'bsp_tree.h', H + 'aabb.h'], [('clipping of walls along the path', H + 'bsp_tree.h')],
  ['facets returned for a node border'])

P('C05', 'Mesh filters decide early only when nothing can change',
  'For any combination of inside / outside / could-change inputs, a boolean filter answers inside exactly when its operation holds of the mesh sides decided so far, and answers that the result could change whenever some completion of the undecided meshes changes it. '
  'Filters over explicit mesh lists look only at those meshes, whatever their ids and order, and combined filters agree with the boolean combination of their parts, including for facets of flipped or self-overlapping meshes.',
  ['inputs', 'configurations'],
  'all filters, all combinations of per-mesh winding states and all mesh id lists',
  'Tests build a few nodes with ids 0 and 1; lists that do not start at mesh 0, three or more meshes and nested combinations are not enumerated.',
  [H + 'boolean_operation_filter.h', H + 'bsp_visitor.h'], [('early exit of the traversal', H + 'bsp_traverser.h')],
  ['filter answers for a node', 'facets emitted by a traversal with that filter'])

P('C06', 'Coplanar region partition covers each cell with the right facets',
  'For any set of convex facets in one plane, traversing the plane partition visits convex cells that do not overlap and whose visited facet sets are exactly the input facets covering that cell, so that each facet is covered exactly once by the cells reported for it. '
  'The result is independent of insertion order and of how facets overlap, touch or repeat.',
  ['inputs', 'histories'], 'all multisets of coplanar convex facets, in any plane and any order',
  'Tests partition up to three boxes in fixed planes.',
  [H + 'plane_partitioner.h'], [('line splits within the plane', H + 'plane_partitioner.h')],
  ['cells and facet sets passed to the visitor'])

P('C07', 'Splitting a convex facet by a plane partitions it exactly',
  'For every convex planar facet and every plane, the two pieces are convex, coplanar, lie on their own closed sides of the plane, share exactly the cut segment, keep the facet\'s orientation, vertex order and per-edge data, and their areas add up to the original area exactly; a facet on one side or in the plane is reported so and left unchanged. '
  'The linear and the binary search for the crossing agree for every facet size and starting vertex, including vertices that lie on the plane and vertices with negative denominators.',
  ['inputs'], 'all convex facets (any vertex count, denominators, orientation) and all planes',
  'Tests split triangles, squares and one regular polygon by selected planes.',
  [H + 'convex_polygon.h', H + 'convex_polygon_split_info.h', H + 'aabb_convex_polygon.h'],
  [('binary search for the crossing', H + 'convex_polygon.h'), ('child construction', H + 'convex_polygon.h')],
  ['split description and children'])

P('C08', 'Facet edits keep the facet',
  'Rotating, sorting, copying, moving, inverting, splitting an edge of, or merging two facets along a shared edge yields a facet that covers exactly the same region (the union when merging) with the stated orientation, stays convex and planar, and keeps every edge line consistent with its endpoints. '
  'Merging succeeds exactly when the union of the two coplanar facets across the shared edge is convex, and a refused merge leaves both facets unchanged; equality of facets is invariant under rotation of the vertex list and sensitive to every vertex, plane and per-edge datum.',
  ['inputs', 'histories'], 'all convex facets and all sequences of edits',
  'Tests apply single edits to squares and triangles.',
  [H + 'convex_polygon.h', H + 'mutable_convex_polygon.h', H + 'convex_polygon_edge.h', H + 'convex_polygon_vertex_iterator.h'],
  [('merge', H + 'convex_polygon.h'), ('edge split', H + 'convex_polygon.h')],
  ['facets after each edit'])

P('C09', 'Polygon decomposition preserves the covered area',
  'For any planar polygon outline, including non-convex ones, collinear and repeated vertices, either orientation and self-touching outlines, decomposing it terminates and emits convex facets (possibly of both orientations and overlapping) whose winding numbers add up to the outline\'s at every point of the plane, using only vertices of the outline. '
  'An outline out of a plane is cut into planar ones that span it; triangulating and decomposing monotone chains have the same property for their outputs.',
  ['inputs'], 'all vertex sequences in a plane, all planes',
  'Tests enumerate permutations of a few fixed outlines; coverage at points is not compared with the outline.',
  [H + 'convex_polygon_factory.h', H + 'planar_range.h', H + 'monotone_range.h', H + 'monotone_decomposer.h', H + 'orienting_monotone_decomposer.h', H + 'monotone_triangulator.h'],
  [('monotone pieces', H + 'monotone_range.h'), ('convex decomposition stack', H + 'monotone_decomposer.h')],
  ['emitted facets'])

P('C10', 'Integer and rational arithmetic is exact at every size',
  'Every arithmetic, comparison, shift, division, gcd, absolute value, conversion and printing operation on the unbounded integers returns the mathematically exact result for all operand values, signs and word counts, including operands that alias the destination and values at word boundaries. '
  'Equal values always compare and hash equal however they were computed, operations change nothing but their destination, and rational rounding and comparison are exact for all sign combinations of the denominators.',
  ['inputs', 'histories'], 'all operand values and all sequences of operations',
  'Tests pick individual values; word-boundary values, aliasing and long operation sequences are not covered.',
  [H + 'big_int.h', H + 'big_uint.h', H + 'big_int_words.h', H + 'big_uint_word.h', H + 'rational.h', 'src/walnut/big_int.cpp'],
  [('small-value fast paths', H + 'big_int.h'), ('long division', H + 'big_uint.h'), ('canonical trimming', H + 'big_int.h')],
  ['values read back from registers'])

P('C11', 'Edges on a line are paired with their geometric neighbours',
  'Given all facet edges on one line, every edge (extended if it has to cover several partners) is paired with oppositely directed edges that cover exactly its extent, choosing for each edge the next facet around the line so that the solid angle between partners contains no other facet. '
  'The pairing does not depend on the order in which edges are presented, and edges without a geometric partner are reported.',
  ['inputs', 'configurations'], 'all multisets of edges on a line with arbitrary facet directions',
  'Tests pair two to six edges in fixed configurations.',
  [H + 'edge_line_connector.h', H + 'convex_polygon_edge.h', H + 'connected_polygon.h'],
  [('sort by angle and position', H + 'edge_line_connector.h')], ['partner links', 'error callback'])

P('C12', 'At most one live owner of a deed',
  'Through any sequence of creating, lending, moving, returning and destroying deeds, a deed object is owned by at most one holder, a loan returns to its lender exactly when the borrower is destroyed or gives it back, and reading through a holder gives the original object while it is held and null otherwise. '
  'Moving the owned object updates the holder so that no stale pointer is ever returned.',
  ['histories'], 'all operation sequences over several deeds',
  'Tests run about ten fixed sequences.',
  [H + 'deed.h'], [('owner and lender back pointers', H + 'deed.h')], ['pointers returned by each holder'])

P('C13', 'Redirected values form equivalence classes with one value',
  'After any sequence of redirect operations, two handles joined directly or indirectly read the same value, handles never joined keep their own values, and mapping the vertices of a connected mesh to floating point values gives every edge around the same mesh vertex one and the same value. '
  'The result does not depend on the order of joins beyond which representative value is chosen, and the number of joins needed is never a source of inconsistency.',
  ['histories', 'inputs'], 'all join sequences; all connected meshes and visiting orders',
  'Tests join up to three handles in fixed order.',
  [H + 'redirectable_value.h', H + 'vertex_double_point3_mapper.h'],
  [('union of representatives', H + 'redirectable_value.h')], ['values read through handles'])

P('C14', 'Bounding boxes are tight enough and never exclude their contents',
  'The box kept for a facet always contains every vertex, touches the facet in each of the six directions up to rounding to its own denominator, and stays so after any sequence of splits, rotations, merges and assignments, with the recorded extreme vertices really being extreme. '
  'Box predicates (which side of a plane, overlap, containment, intersection with a plane, walls) are exact.',
  ['inputs', 'histories'], 'all facets, planes and edit histories',
  'Tests check small integer boxes and single splits.',
  [H + 'aabb.h', H + 'convex_vertex_aabb_tracker.h', H + 'aabb_convex_polygon.h', 'src/walnut/aabb.cpp'],
  [('extreme vertex indices', H + 'convex_vertex_aabb_tracker.h')], ['boxes and extreme indices', 'predicate results'])

P('C15', 'Incremental event lists for axis splits equal recomputed ones',
  'For any set of facets and any axis split chosen from their extents, dividing the sorted event lists between the two children yields a correct list of each child\'s facets, for the split axis and for the other axes: the same events, at the same places and in the same order, as sorting the child\'s facets from scratch would, up to the order of events at one place. '
  'The reported best split has the lowest cost among all candidate positions, and facet counts on each side are exact.',
  ['inputs', 'histories'], 'all facet sets and all nested sequences of axis splits',
  'Tests list explicit expected events for a few facets and one split.',
  [H + 'polygon_event_point.h', H + 'bsp_traverser.h'], [('linear-time partition of sorted events', H + 'polygon_event_point.h')],
  ['event lists and split positions'])

P('C16', 'Geometric predicates and constructions are exact',
  'For all rational points, planes, lines and vectors, side-of-plane, orientation, ordering, coincidence, equality and sorting predicates return the sign the real-number definition gives, regardless of denominator signs and scaling of the homogeneous representation. '
  'Constructed planes, lines, intersections and projections contain exactly the objects they are defined by, with the documented direction.',
  ['inputs'], 'all rational inputs and all equivalent representations',
  'Tests use small examples with mostly positive denominators.',
  [H + 'half_space3.h', H + 'half_space2.h', H + 'homo_point3.h', H + 'homo_point2.h', H + 'plucker_line.h', H + 'vector2.h', H + 'vector3.h', H + 'r_transformation.h', 'src/walnut/homo_point3.cpp', 'src/walnut/plucker_line.cpp'],
  [('sign corrected cross multiplication', H + 'homo_point3.h')], ['predicate results and constructed objects'])

P('C17', 'Mesh plane repair makes every facet planar and keeps the mesh connected',
  'For any mesh whose facets are strictly convex and nearly planar, in any order of facets, repairing emits each facet as one or more polygons which together make up the facet (their edges cancel except those of the ring, in its direction), each with all its vertices exactly on its plane, and every input vertex, however its coordinates are scaled, comes out at a single point wherever it is used. '
  'A vertex that is on all planes of its polygons stays where it was, others move to the nearest point common to (the first three of) those planes, as long as they have one. '
  'A facet is split only when vertices that are already fixed by three planes are not on one plane, or when the numbers of its plane become large.',
  ['inputs', 'histories'], 'all meshes of strictly convex, nearly planar facets and all orders of adding facets',
  'Tests repair single cubes and pyramids.',
  [H + 'mesh_plane_repairer.h', H + 'nudging_plane_builder.h', 'src/walnut/mesh_plane_repairer.cpp', 'src/walnut/nudging_plane_builder.cpp'],
  [('constrained plane selection', H + 'nudging_plane_builder.h')], ['emitted facets and vertices'])

P('C18', 'Floating point conversion is exact or correctly quantized',
  'Converting doubles to rational points is exact in exact mode for every finite value, and in quantized mode gives a multiple of the requested power of two within half a unit of each coordinate. '
  'Converting a point that came from doubles back to doubles returns the same doubles, and converting any rational gives a double within one unit in the last place.',
  ['inputs'], 'all finite doubles and exponents; all rationals in range',
  'Tests convert a few chosen doubles.',
  [H + 'double.h', H + 'homo_point3.h', 'src/walnut/homo_point3.cpp', 'src/walnut/big_int.cpp'],
  [('mantissa decomposition', H + 'double.h')], ['converted values'])

P('C19', 'Mesh measures and extrusion are exact',
  'The centroid, top point and farthest vertices computed for a closed mesh are the exact real-number values for every such mesh, independent of facet order and vertex rotation. '
  'Extruding a convex cap gives a closed outward-oriented solid whose volume is the cap area times the travel, for every direction.',
  ['inputs'], 'all closed meshes and extrusions',
  'Tests compute the centroid of one or two boxes.',
  [H + 'mesh.h', H + 'extrude.h', 'src/walnut/extrude.cpp', H + 'convex_polygon.h'],
  [('exact rational accumulation', H + 'mesh.h')], ['returned points and facets'])

P('C20', 'The VTK filter computes the requested operation of its inputs',
  'For any closed polygonal inputs given as polygons, triangles or strips, the pipeline filter\'s output surface encloses exactly the requested boolean combination of the inputs, is a closed mesh with consistent orientation, and quantizes coordinates as configured. '
  'Converting a mesh to VTK and back gives the same surface.',
  ['inputs', 'configurations'], 'all closed inputs, cell kinds and operations',
  'Only a few conversions of a fixed cube or plane are tested.',
  ['vtk_interface/include/walnut/vtk_to_walnut_mesh.h', 'vtk_interface/include/walnut/walnut_to_vtk_mesh.h', 'vtk_interface/src/vtkWalnutBooleanFilter.cpp'],
  [('cell conversion', 'vtk_interface/include/walnut/vtk_to_walnut_mesh.h')], ['output poly data'])

P('C21', 'Concatenated and transformed ranges behave like one sequence',
  'A concatenated range is indistinguishable from the sequence obtained by appending and prepending its parts: forward, backward, indexed and offset traversal, comparison, and appending sub-ranges of other ranges all agree with it, and empty parts never show. '
  'A transformed iterator yields the transformation of the element its base iterator would yield under every iterator operation.',
  ['histories'], 'all sequences of append / prepend / iterate operations',
  'Tests append two or three short lists.',
  [H + 'concat_range.h', H + 'transform_iterator.h'], [('range list with sentinel', H + 'concat_range.h')], ['elements yielded'])

P('C22', 'Split cost estimates stay within their documented error',
  'The work estimate for every pair of counts is within its documented relative distance of the true value of m log n whenever the documented condition holds, never depends on previously estimated values, and the split cost is the sum of the estimates of both sides.',
  ['inputs', 'histories'], 'all counts and all orders of calls on one estimator',
  'Tests evaluate ascending counts on fresh estimators.',
  [H + 'm_log_n_estimator.h', 'src/walnut/m_log_n_estimator.cpp'], [('cached bit length', H + 'm_log_n_estimator.h')], ['estimates'])
