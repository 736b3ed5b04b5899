D('P01', 'Elementary operations on orientations, edges and crossings obey their algebra',
  'Composing orientations is multiplication of signs; reversing an edge swaps its two ends exactly when the orientation is negative; putting a crossing or a face in canonical order is a rotation (after reversal if the orientation is negative) which starts with its lowest edge, so every rotation of the same cyclic list gets the same canonical form. None of these operations touches anything but its operand.',
  'inputs', 'every orientation pair, every edge, every crossing and face, including those at which an edge occurs twice',
  'the tests use a few library diagrams; repeated edges (curls) and negative orientations in unusual slots do not occur there',
  ['src/pdcode.c'], [('pd_compose_or, pd_reorient_edge, pd_oriented_edge, pd_canonorder_cross, pdint_cross_rdist, pdint_rotate_left', 'src/pdcode.c'), ('pd_canonorder_face', 'src/pdcode.c')],
  'proved except pd_canonorder_face, which is bounded (faces of up to 9 edges)')
D('P02', 'Strands, traversal, alternation and linking numbers follow from the diagram',
  'At every crossing the reported over and under strands, incoming and outgoing, are the ones the edge directions and the right-hand rule determine (an unsigned crossing counts as positive); the next and previous edge along a component are inverse to each other and follow the component; a diagram is reported alternating exactly when every edge goes from an over to an under passage or back. The linking number of two components is half the sum of the signs over the crossings between them (unsigned: half their number), and interlacement counts are the number of interlaced pairs of self-crossings; no query changes the diagram.',
  'inputs', 'every well-formed diagram, every crossing, edge and pair of components',
  'the result depends on which slots are incoming at each of n crossings; tests see a handful of tabulated diagrams',
  ['src/plcTopology.c', 'src/pdcode.c', 'src/pd_invariants.c'], [('pd_overunder_internal, pd_overstrand, pd_understrand, pd_next_edge, pd_previous_edge, pd_is_alternating, pd_linking_number, pd_unsigned_linking_number', 'src/plcTopology.c'), ('pd_interlaced_crossings', 'src/pd_invariants.c')],
  'proved except pd_interlaced_crossings(_unsigned), bounded')
D('P03', 'The validity check accepts exactly the well-formed diagrams',
  'The check of a diagram answers yes exactly when signs are legal, every edge occurs in two slots, crossings are in order, edge records point at the slots which hold them and continue straight through every crossing, faces are left-turning cycles in canonical order and sorted, components are consecutive and head-to-tail, and tags are distinct letters; the diagram without crossings has its one edge, component and two faces. On a malformed diagram it answers no: it does not stop the program, read outside the diagram, keep memory or change the diagram.',
  'inputs', 'every diagram record whose counts fit its buffers, well-formed or with any entries wrong',
  'a diagram can be wrong in exponentially many ways; tests check a few library diagrams which are right',
  ['src/pdcode.c'], [('pd_cross_ok, pd_edges_ok, pd_faces_ok, pd_comps_ok, pd_ok', 'src/pdcode.c')],
  'proved (memory kept after an answer is checked by the bounded run)')
D('P04', 'Edge lookups are exact and comparisons are total orders',
  'Looking an edge up on components or faces reports the component and position (or the two faces and positions, one per orientation) where it actually occurs, and tells whether it lies on a given face. The comparisons used for sorting are antisymmetric, transitive, return equality exactly for equal edge lists, and order crossings lexicographically and faces and components by decreasing length, then lexicographically.',
  'inputs', 'every diagram, edge, face and every pair of crossings, faces or components',
  'sorting with a comparison that is wrong on rare pairs fails only for diagrams that contain them',
  ['src/pdcode.c'], [('pd_component_and_pos, pd_face_and_pos, pd_edge_on_face', 'src/pdcode.c'), ('pd_cross_cmp, pd_face_cmp, pd_component_cmp', 'src/pdcode.c')],
  'proved')
D('P05', 'Diagram copies are equal and independent; release returns everything',
  'A new diagram has room for the requested number of crossings and the edges, components and faces that go with them, and is empty. A copy (also one with more room) has the same crossings, signs, edges, components, tags, faces, hash and id, shares no storage with the original and leaves it unchanged. Releasing a diagram returns every buffer it owns exactly once and clears the caller\'s pointer.',
  'inputs histories', 'every diagram and requested size; any interleaving of copies, writes and releases',
  'aliasing and leaks show only when the copy or the spare slots are used afterwards',
  ['src/pdcode.c'], [('pd_code_new, pd_code_free, pd_copy, pd_copy_newsize', 'src/pdcode.c')],
  'proved; the 0-crossing copy is one case, run')
D('P06', 'A packed diagram unpacks to the diagram that was packed',
  'Packing a diagram and unpacking the result gives the same diagram up to renumbering: the same crossings with the same cyclic order of edges, the same directions and the same known crossing signs. A diagram whose signs are unknown comes back with unknown signs. The packed form has exactly the announced number of bits, every index is stored as its binary digits, and nothing outside the buffers is touched.',
  'inputs', 'every diagram, every number of crossings (in particular where the number of bits per index changes) and every pattern of signs',
  'bit offsets that straddle bytes and words and the change of width at powers of two are reached by few sizes',
  ['src/pd_pack.c'], [('pd_pack, pd_unpack, pd_idx_bitencode, pd_idx_bitdecode, pd_packbitstring, pd_unpackbitstring', 'src/pd_pack.c')],
  'proved: encoding and decoding of indices and of bit strings, length; the assembly of whole diagrams and the logarithm are bounded')
D('P07', 'Symmetry group elements are enumerated once each and composed correctly',
  'A new rotation, rotation-or-reflection, orientation choice, permutation or multi-index starts at the identity (or first value); repeatedly stepping it visits every element of its set exactly once, in as many steps as the announced count, and returns to the start. The validity test accepts exactly the members of the set, comparison is a total order consistent with equality, a copy is equal and independent, and the uniqueness test tells whether a list repeats an element. Composition, inverse and period of permutations are the mathematical ones.',
  'inputs histories', 'every size, every element and every number of steps',
  'the isomorphism search silently loses isomorphisms when an enumeration skips or repeats elements at sizes tests do not reach',
  ['src/pd_cyclic.c', 'src/pd_dihedral.c', 'src/pd_orientation.c', 'src/pd_perm.c', 'src/pd_multidx.c'],
  [('pd_increment_cyclic, pd_cyclic_ok, pd_cyclic_cmp', 'src/pd_cyclic.c'), ('pd_increment_dihedral, pd_dihedral_ok', 'src/pd_dihedral.c'), ('pd_increment_orientation', 'src/pd_orientation.c'),
   ('pd_increment_perm, pd_compose_perms, pd_inverse_perm, pd_stareq_perm, pd_perm_ok', 'src/pd_perm.c'), ('pd_increment_multidx, pd_multidx_nvals', 'src/pd_multidx.c')],
  'proved (each step is the successor in the defined order); the table of permutations of up to 6 letters is enumerated completely; list uniqueness, period and release of a multi-index are bounded')
D('P08', 'Containers and sorted index buffers hold exactly what was put into them',
  'A container returns its elements in the order they were added, adding keeps the ones already there however often it grows, removing takes the last one, and a buffer it has outgrown is released. Inserting into a sorted buffer keeps it strictly increasing, adds the value if and only if it was absent, and keeps all others; membership and position queries answer exactly.',
  'inputs histories', 'every sequence of additions, removals and insertions, of any length',
  'growth of the storage happens at sizes tests rarely reach and an element lost there is noticed only much later',
  ['src/pd_container.c', 'src/pd_sortedbuf.c'], [('pd_new_container, pd_addto_container, pd_pop_container, pd_container_elt', 'src/pd_container.c'), ('pd_sortedbuf_insert, pd_sortedbuf_contains, pd_buf_contains', 'src/pd_sortedbuf.c')],
  'proved; pd_free_container (calls through a function pointer) is bounded')
D('P09', 'A curve owns its storage: independent copies, local edits, complete release',
  'A new curve has the requested components, vertices (with room for the two hidden ones) and colours, all zero; a copy equals its original in vertices, hidden vertices, colours and constraints, shares no storage with it and leaves it unchanged. Adding, dropping or recolouring a component changes that component and the positions of later ones only, and leaves the hidden vertices consistent with the ends of each component. Releasing a curve returns every buffer exactly once, after any history of such edits.',
  'inputs histories', 'every curve (any number of components, vertices, colours, constraints) and every sequence of create, copy, add, drop, recolour, resize and free',
  'storage errors show only for particular component sizes and orders of edits; the test suite has no test of these edits',
  ['src/plCurve.c'], [('plc_new, plc_copy, plc_free, plc_add_component, plc_drop_component, plc_fix_wrap, plc_set_color, plc_resize_colorbuf', 'src/plCurve.c')],
  'proved except plc_add_component, bounded (histories of up to 8 edits)')
D('P10', 'Vertices and edges are counted and numbered consistently',
  'The vertex count is the sum over components; a closed component has as many edges as vertices and an open one one fewer, in total and per component. The global numbering of vertices is the position in the concatenation of the components, and the two lookups from a global number to component and vertex are its exact inverse. Vertex indices outside a component are clamped on open components and taken modulo the number of vertices on closed ones.',
  'inputs', 'every curve, every component and every integer vertex index',
  'components of different sizes, single-vertex components and negative or large indices are not sampled by tests',
  ['src/plCurve.c'], [('plc_num_edges, plc_edges, plc_num_verts, plc_vertex_num, plc_cp_num, plc_vt_num', 'src/plCurve.c')], 'proved')
D('P11', 'Vector arithmetic and elementary geometry compute the textbook quantities',
  'Sums, differences, products, linear combinations, distances, norms and normalised vectors agree with their definitions in every coordinate, and failure (division by a zero component, normalising a vector of length zero, collinear points, parallel planes) is reported through the status flag and only then. Normals are unit and perpendicular to the triangle, circumcentres are equidistant from the vertices and in their plane, the common point of three planes lies on all of them. Angles, rotations about an axis, dihedral angles, inradii and random vectors have the defining metric properties.',
  'inputs', 'every vector, including degenerate configurations',
  'degenerate and nearly degenerate inputs and the failure flag are not sampled; identities hold coordinate by coordinate for all reals',
  ['src/vector.c'], [('plc_vect_sum .. plc_normalize_vect, plc_normal, plc_circumcenter, plc_3plane_intersection', 'src/vector.c'), ('plc_angle, plc_rotate_vect, plc_dihedral_angle, plc_tetrahedron_inradius', 'src/vector.c')],
  'proved in real arithmetic for the algebra, norms, normals, circumcentre and plane intersection; angle, rotation, dihedral, inradius and the random vectors are bounded')
D('P12', 'Geometric operations act vertex by vertex as named and carry constraints along',
  'Scaling, translating, rotating about an axis, turning an axis to the vertical, projecting to a plane, folding a run of vertices, mirroring, reversing and permuting components apply exactly that map to every vertex named and leave all other vertices, the colours (reordered with their vertices) and the shape of the curve alone, with the hidden vertices consistent afterwards. Constraints are transformed with the curve by scaling, translating, rotating and mirroring, and follow their vertices under reversing and permuting. A random perturbation moves each vertex at most the given radius and no constrained vertex.',
  'inputs', 'every curve, factor, vector, axis and angle; curves with short or open components, colours and constraints of each kind',
  'tests do not exercise these maps with constraints, several components or degenerate axes',
  ['src/plCurve.c', 'src/plwhitten.c'], [('plc_scale, plc_translate, plc_rotate, plc_random_rotate, plc_project, plc_pfm, plc_perturb', 'src/plCurve.c'), ('plc_whitten', 'src/plwhitten.c')],
  'proved in real arithmetic for scaling, translating, projecting, turning an axis up, and for what a fold leaves alone; rotation, the fold angle, mirror/reverse/permute and perturbation are bounded')
D('P13', 'One constraint per vertex; edits are exact; enforcing moves to the closest point',
  'Fixing a vertex or constraining or releasing a run of vertices changes the constraint of exactly those vertices; the constraints of all others, on this and on other components, are what they were, and removing a constraint frees exactly the vertices that carry it and reports how many. Asking for the constraint of a vertex gives the one last set. Enforcing constraints puts every constrained vertex at the closest point allowed by its constraint and leaves the others alone, and the reported violation is the largest distance of a vertex from that point.',
  'inputs histories', 'every curve and every sequence of fix, line, plane, unconstrain and remove over any runs of vertices',
  'the constraint list is split and merged depending on how new runs overlap old ones; tests set one constraint at a time',
  ['src/plCurve.c'], [('plc_is_constrained, plc_remove_all_constraints, plc_fix_cst, plc_check_cst', 'src/plCurve.c'), ('plc_set_fixed, plc_constrain_to_line, plc_constrain_to_plane, plc_unconstrain, plc_remove_constraint', 'src/plCurve.c')],
  'proved: lookup, removal of all, enforcing and checking, closest points; the editing of the list is bounded (histories of up to 12 edits)')
D('P14', 'Rebuilding a diagram gives a valid description of the same diagram',
  'Starting from the crossings alone, or from crossings and edges, rebuilding edges, components, faces and the hash gives a valid diagram with the same crossings in the same cyclic order, the same signs, and the same directions wherever signs are known; every crossing starts at its lowest edge, crossings are in order, components come longest first with tags A, B, C and so on, faces come longest first. Rebuilding again changes nothing, and diagrams that differ only in their numbering get the same hash. All memory replaced on the way is released.',
  'inputs', 'every diagram with its crossings, edges and components numbered in any way, with all, some or no signs known',
  'the search for components and faces and the renumbering depend on numbering and on loops; tests use a few stored diagrams',
  ['src/pdcode.c'], [('pd_regenerate, pd_regenerate_crossings, pd_regenerate_edges, pd_regenerate_comps, pd_regenerate_faces, pd_regenerate_hash', 'src/pdcode.c')],
  'proved: the searches, the walk along components and faces, the comparisons and the turning of crossings; the assembly of the whole is bounded')
D('P16', 'Measurements are the defining sums, maxima and means over edges and vertices',
  'Length (total, per component, between two vertices, position of a vertex), longest, shortest, mean and second moment of edge lengths, diameter, centre of mass, radius of gyration, tangents, turning angles, total curvature and torsion are the quantities their definitions give, taken over exactly the edges and vertices the curve has: closed components include the closing edge and open ones do not. Per-component results add up to the total, omitted output arguments are accepted, undefined angles and tangents are reported, and no measurement changes the curve.',
  'inputs', 'every curve, open or closed, with any number of components, and every vertex index',
  'errors at the seam of a closed component or the ends of an open one change the value slightly and only for mixed curves',
  ['src/plCurve.c', 'src/vector.c'], [('plc_arclength, plc_s, plc_subarc_length, plc_edgelength_stats, plc_pointset_diameter, plc_center_of_mass, plc_gyradius, plc_mean_tangent, plc_turning_angle, plc_totalcurvature', 'src/plCurve.c'), ('plc_MR_curvature, plc_totaltorsion', 'src/plCurve.c')],
  'proved in real arithmetic except minrad curvature and torsion (bounded)')
D('P17', 'Refining, cutting and spline conversion keep the curve they are given',
  'Doubling the vertices replaces every vertex by two points at equal distance from it, one in its half of either adjacent edge, so that the least radius of curvature is kept (the ends of open components stay), and keeps shape, colours, and constraints on the points that come from constrained vertices. Deleting an arc leaves exactly the vertices outside it, in order, as one or two open components (or none), and the other components as they were. A spline built from a curve passes through its vertices with their parameters and a curve sampled from a spline has the requested numbers of vertices, lies on the spline and has the same components and constraints at the corresponding places.',
  'inputs', 'every curve, every arc of every component, every number of samples',
  'arcs that start or end at the seam, single-vertex remains and unequal edge lengths are not sampled by the tests',
  ['src/plCurve.c', 'src/splines.c'], [('plc_double_verts, plc_delete_arc', 'src/plCurve.c'), ('plc_convert_to_spline, plc_convert_from_spline, plc_sample_spline', 'src/splines.c')],
  'bounded (executable contracts on random curves); only the allocation, release and wrap functions they rest on are proved', level='exploration')
D('P18', 'A curve written to a file is read back',
  'Reading what was written gives the same components, open or closed, with coordinates, colours and constraint vectors equal to 16 digits and the same constraint on every vertex, independently of the number of constraints and the size of the numbers; extra blanks do not matter. A file that ends early gives an error code and no curve, or a curve with the announced shape, and never leaks or touches memory it does not own. Writing does not change the curve.',
  'inputs fault_sequences', 'every curve (numbers of any magnitude, any number of constraints and components); every prefix of a written file',
  'tests read a few files with short numbers and no more than a few constraints',
  ['src/plCurve.c'], [('plc_write, plc_read', 'src/plCurve.c')],
  'bounded: formatted input and output (stdio) is outside the verifier; only allocation, release and wrap are proved', level='exploration')
D('P19', 'Equivalence of diagrams is decided exactly, and every reported map is one',
  'Two diagrams are reported isomorphic exactly when some renumbering of edges, crossings, faces and components, possibly with reflection and reversal of components, carries one to the other; the isotopy test answers yes exactly when there is one that keeps tags, directions and crossing signs. The list of maps has every such map once, each map is compatible with edge ends, the cyclic order at crossings, faces and components, and products, copies and periods of maps are the mathematical ones. No comparison ends the program, changes a diagram or keeps memory.',
  'inputs', 'every pair of diagrams, equal, renumbered, mirrored, reversed, or different in signs, tags or component sizes',
  'a search which loses one map in a product of groups is right on most pairs; tests count symmetries of a few tabulated diagrams',
  ['src/pd_isomorphisms.c'], [('pd_build_isos, pd_build_map_isomorphisms, pd_build_diagram_isotopies, pd_isomorphic, pd_diagram_isotopic', 'src/pd_isomorphisms.c'), ('pd_is_diagram_isotopy, pd_edgemap_ok, pd_new_edgemap, pd_compose_edgemaps', 'src/pd_isomorphisms.c')],
  'proved: the isotopy condition, validity, creation and product of edge maps; the search for maps is bounded')
D('P20', 'Diagram files and stores give back what was put in; damaged files are refused',
  'Reading what was written gives the same diagrams one after another, with signs, directions, components, tags, faces, hash and id; a file without hash or tags, or with crossings in any rotation, gives the same diagram with these filled in, and the KnotTheory form determines the same signed diagram whenever every component has three or more edges. A damaged file gives no diagram and an error code, or a diagram that passes the validity check, and never ends the program, keeps memory or touches memory it does not own. A store holds one diagram of each class of the chosen equivalence that was added, visits each of them once, finds them again, and is the same store after being written, in one piece or step by step, and read.',
  'inputs fault_sequences histories', 'every diagram and every sequence of additions to a store; every written file, cut, altered or with lines missing or repeated',
  'tests read well-formed files and tabulated diagrams; a damaged number matters only where it is used as an index',
  ['src/pdcode.c', 'src/pd_storage.c'], [('pd_write, pd_read, pd_read_err, pd_write_KnotTheory, pd_read_KnotTheory', 'src/pdcode.c'), ('pd_addto_pdstor, pd_stor_firstelt, pd_stor_nextelt, pd_write_pdstor, pd_read_pdstor', 'src/pd_storage.c')],
  'bounded: formatted input and output (stdio) and the Judy arrays are outside the verifier; only allocation and release of diagrams are proved', level='exploration')
D('P15', 'Moves, sums and splittings of diagrams do to the diagram what their names say',
  'Removing a loop or a bigon, adding one, turning a triangle over, removing all loops, joining two diagrams along an edge of each, reversing or renumbering a component and separating the pieces of a disconnected diagram each give a valid diagram whose crossings, cyclic order, signs and directions are those of the original outside the place of the move, with the strands rejoined as the move prescribes; tags are kept by removal, reversal and separation, and when removing a bigon separates the diagram the first result holds the upper strand. A component left without crossings becomes the diagram without crossings, with its tag. The operands stay as they were and nothing is kept in memory.',
  'inputs histories', 'every diagram, signed or not, and every place in it where the move is possible, including loops next to each other, bigons whose outer edges coincide, and components that lose their last crossing',
  'tests make the moves on a few drawn diagrams; coincident edges and renumbering of components after a move depend on the numbers in the diagram',
  ['src/pd_crossingmoves.c', 'src/pd_operations.c', 'src/pd_splitdiagram.c', 'src/pd_simplify.c'], [('pd_R1_loopdeletion, pd_R1_loop_addition, pd_R2_bigon_elimination, pd_R2_bigon_addition, pd_R3_triangle_flip, pd_connect_sum', 'src/pd_crossingmoves.c'), ('pd_reorient_component, pd_renumber_component', 'src/pd_operations.c'), ('pd_split_diagram', 'src/pd_splitdiagram.c'), ('pd_simplify', 'src/pd_simplify.c')],
  'bounded: the moves rebuild whole diagrams with nested heap blocks, outside the reach of the verifier; the steps along strands they rely on are proved', level='exploration')
D('P21', 'The nearest point or vertex reported is one at the least distance',
  'Asked for the nearest of a list of points, or the nearest vertex of a curve, the answer is an entry of the list (or a component and vertex number with its position) and no other entry is closer, for lists of every size and arrangement and queries anywhere. Answers with saved search data equal those without; data saved for another list or curve are noticed, reported and replaced. The list or curve stays as it was and all search data are released.',
  'inputs histories', 'every list of points, every curve, every query point, every sequence of queries with or without saved data',
  'lists of more than a few thousand points are searched by another method, where an error in the cut-off shows only for particular positions of the query',
  ['src/nearest_neighbor.c'], [('plc_nearest_neighbor, plc_nearest_vertex, exhaustive_nearest_neighbor', 'src/nearest_neighbor.c')],
  'proved: plain search (in real arithmetic); the search in sorted lists is bounded', level='exploration')
D('P22', 'Symmetries act as named, form their group, and averaging makes a curve symmetric',
  'The identity, rotation and reflection matrices are those of their axis and angle; products, copies and systems of equations are solved as in linear algebra. A symmetry sends every vertex to the vertex nearest to its image and is refused when two vertices would share one; composition, inverses and the rotation, reflection and coordinate-plane groups are complete and correct. Averaging a curve or a field of vectors over its group gives the mean over the group at every vertex with hidden vertices consistent, the reported error is the largest distance of an image from its target, and edits which renumber or remove vertices never leave a group behind that no longer fits.',
  'inputs', 'every curve, open or closed, every axis and angle, every group order; every edit of a curve that carries a group',
  'tests symmetrize a few torus knots under one rotation group; wrong directions of composition and inverses cancel there',
  ['src/symmetries.c', 'src/matrix.c'], [('plc_rotation_matrix, plc_reflection_matrix, plc_build_symmetry, plc_compose_symmetries, plc_rotation_group, plc_reflection_group, plc_coordplanes_reflection_group, plc_symmetrize, plc_symmetry_check', 'src/symmetries.c'), ('plc_matrix_vector_multiply, plc_matrix_matrix_multiply, lu_decmp, solve_linear', 'src/matrix.c')],
  'proved in real arithmetic: the matrices, products, composition, copies and error measures; groups, averaging and equations are bounded')
D('P23', 'Random polygons have the announced edges and close up',
  'A random closed or open polygon, in space or in a plane, has the number of edges asked for and total length two; equilateral closed ones have unit edges and open ones edges of two divided by their number, and in self-avoiding ones no two vertices are closer than one; plane ones lie in a coordinate plane. The state of the random number generator determines the polygon, and mean squared distances of vertices are those of the announced distribution. Closing an open component keeps its vertices, colours and all other components and gives it the number of edges asked for and total length two, and is refused exactly when that is impossible.',
  'inputs', 'every number of edges allowed (3 to 3000 for equilateral closed polygons), every state of the generator, every curve and component to close',
  'tests draw polygons of a few sizes; whether a closure is possible depends on the length left and the distance of the ends',
  ['src/plcRandomPolygon.c', 'src/plcRandomSap.c'], [('plc_random_closed_polygon, plc_random_open_polygon, plc_random_equilateral_closed_polygon, plc_loop_closure', 'src/plcRandomPolygon.c'), ('plc_random_equilateral_closed_self_avoiding_polygon', 'src/plcRandomSap.c')],
  'bounded: the generators draw from GSL and rest on trigonometric identities; proved are allocation, release, wrap and the map that turns four numbers into an edge', level='exploration')
D('P24', 'Thickness, struts and curvature radii are those of the curve',
  'The shortest strut is the least distance of two points on non-adjacent edges that are closest to each other locally, and the listed struts are exactly those within the limit, each once with its length and ends, as far as there is room. The least radius of curvature and the vertices where it is reached are those of the definition; thickness is the smaller of half the shortest strut and that radius divided by the stiffness, and ropelength is length divided by thickness. None of it depends on the depth of the search or the memory supplied, the curve stays as it was, and lists written to a file are read back, or refused where they do not fit the curve.',
  'inputs configurations', 'every curve, open or closed, with any number of components, at any scale; every limit, room, stiffness, depth of search and memory',
  'tests compare a few fixed curves; a cell of the search tree skipped wrongly matters only for particular positions',
  ['src/octrope.c', 'src/minrad.c', 'src/octmem.c'], [('octrope_struts, octrope, octrope_curvelength, octrope_strut_ends, octrope_strutfile_read, octrope_strutfile_write', 'src/octrope.c'), ('octrope_minrad', 'src/minrad.c')],
  'proved in real arithmetic: length, strut ends, and thickness and ropelength from the shortest strut and least radius; the search for struts and the radii are bounded (assumed contracts in the proof)', level='exploration')
D('P25', 'The diagram of a closed curve is a projection of that curve',
  'A closed curve in space that does not meet itself gives a valid diagram with the same number of components, the same linking numbers with their signs, and the same knot or link as seen from any other direction, whichever direction is drawn. Seen from a given generic direction the diagram has exactly the crossings of the projection, with their signs. Curves whose projection is not generic are moved only so little that the knot or link is the same, and the curve itself stays as it was.',
  'inputs', 'every closed curve without self-intersections whose components all have crossings in the projection, every state of the random generator',
  'tests project a few torus knots and chains; a crossing lost or turned over at the closing edge of a component, or in a projection with coinciding vertices, needs a particular position',
  ['src/plcTopology.c'], [('pd_code_from_plCurve', 'src/plcTopology.c')],
  'bounded: the crossings are located with angles in floating point; proved are the turning of the curve, the projection, the side of a segment, the list of crossings and the orders in which they are sorted', level='exploration')
