COMMON = 'Trusted: clang 18 front end, the IR exporter and VC generator in /verif/engine, library models, z3/cvc5; double arithmetic is treated as real arithmetic in proofs. Entries named bounded in the evidence are executed on generated inputs, not proved. '
prop('A01', 'Small-matrix algebra is exact linear algebra',
 'For all real and integer matrices of the sizes the library uses, products, transposes (also in place), traces, metrics, adjoints and determinants equal their textbook definitions, and inversion succeeds exactly when the magnitude of the determinant exceeds the tolerance and then gives a two-sided inverse, leaving its output untouched otherwise. '
 'Integer matrices of unit determinant have integer inverses, similarity transforms satisfy B X = A B, rounding casts go to the nearest integer, and the unit-interval reduction changes a value by an integer.',
 ['inputs'], 'every matrix entry, every size instantiated by the library (1 to 4), integer and floating point element types',
 'The tests multiply and invert a few fixed matrices; they cannot cover all entries or sizes other than 3.',
 ['src/math.hpp', 'src/utilities.hpp', 'src/utilities.tpp', 'src/linear_algebra.hpp'],
 [('products', 'src/utilities.tpp multiply_*'), ('determinant / adjoint / inverse', 'src/utilities.tpp matrix_determinant, matrix_adjoint, matrix_inverse'), ('transpose', 'src/utilities.tpp matrix_transpose')],
 note=COMMON + 'All sizes are the compile-time sizes 1..4 the code instantiates; element values unbounded.')
prop('A02', 'Inner products, norms and distances are right for vectors of any length',
 'For real and complex vectors of every length, the dot product, the Hermitian product (conjugating its first argument), squared norms, distances and Frobenius distance equal the sum over all elements that defines them; mixed real/complex arguments agree with promoting the real one. '
 'Distances are never negative, and rephasing by the anti-phase keeps every modulus and makes the Hermitian product real and non-negative.',
 ['inputs'], 'every vector length and every element value',
 'Tests use one or two fixed vectors of length 3; lengths, phases and mixed types are not covered.',
 ['src/utilities.hpp', 'src/utilities.tpp'],
 [('hermitian_product, vector_product, inner_product', 'src/utilities.tpp'), ('vector_distance, squared_distance, frobenius_distance', 'src/utilities.tpp'), ('antiphase', 'src/utilities.tpp')],
 note=COMMON + 'Loops over the vector length are proved with inductive invariants for every length; trigonometric identities of antiphase are only executed (bounded).')
prop('A03', 'Tolerant equality follows its documented tolerance everywhere',
 'Two values compare equal exactly when their difference is at most the absolute tolerance plus the relative tolerance times the magnitude of their sum, with a caller tolerance used when it is larger than the default; integers compare exactly. '
 'The relation is reflexive for finite values, symmetric, invariant under changing both signs and monotone in the tolerance, and vectors, matrices and containers are equal exactly when they have equal size and all their elements are.',
 ['inputs'], 'every pair of finite values, every tolerance in [0,1], every container length',
 'Tests compare a dozen pairs; neither the boundary nor container lengths other than 3 and 9 are covered.',
 ['src/approx_float.hpp', 'src/approx_config.hpp'],
 [('scalar', 'src/approx_float.hpp'), ('vector, matrix, array, equal', 'src/approx_float.hpp')],
 note=COMMON + 'Reflexivity is also proved in IEEE arithmetic.')
prop('A04', 'Symmetry motions form a group acting on points, vectors and axial vectors',
 'A motion takes a point p to W p + w, a vector to W v and an axial vector to det(W) W a, and the product of two motions acts as applying the second factor first, up to lattice translations, with its translation reduced to the unit cell. '
 'Products are associative, the identity is neutral, every motion of unit determinant has a two-sided inverse, two motions are equal exactly when their rotations agree and their translations differ by a lattice vector, and writing a motion as text and reading it back gives an equal motion.',
 ['inputs'], 'every integer rotation part with small entries, every translation',
 'No test exercises motions here; a handful of examples could not cover composition order, reduction modulo the lattice or the text format for all operations.',
 ['src/motion.hpp'],
 [('composition, inverse, equality', 'src/motion.hpp Motion::operator*, inverse, operator=='), ('text format', 'src/motion.hpp to_ascii, from_ascii')],
 note=COMMON + 'Rotation entries range over -3..3 (-2..2 for triple products), translations over all reals; the text format is bounded.')
prop('A05', 'Space-group operation lists are complete and consistent groups',
 'The operations generated from any list of motions are exactly the group the motions generate, the generators extracted from a group generate that group again without superfluous members, adding inversion gives the group generated together with the inversion, and the order of an operation is the smallest power giving the identity. '
 'Membership, equality, lookup and removal treat motions as equal modulo lattice translations and change nothing else, out-of-range access is reported, and the centring type follows from the pure translations present.',
 ['inputs', 'histories'], 'every list of motions; group-level statements over every tabulated setting, order and subset of operations',
 'No test covers symmetry operation lists; the group statements depend on the order and choice of operations supplied.',
 ['src/symmetry.hpp', 'src/symmetry.cpp', 'src/motion.hpp'],
 [('closure', 'src/symmetry.cpp Symmetry::generate'), ('generators', 'src/symmetry.cpp Symmetry::generators'), ('membership', 'src/symmetry.cpp has, operator==, find_matrix_index'), ('centring', 'src/symmetry.cpp getcentring')],
 note=COMMON + 'List operations are proved for lists of up to three (centring: up to seven) arbitrary motions; closure, generators, orders and inversion are bounded: executed against an independent closure over subsets and orders of all 530 Hall settings.')
prop('A06', 'Point-group operations are classified, inverted and completed correctly',
 'The order and isometry type of a rotation follow from its determinant and trace, its axis is stationary and the perpendicular axes are perpendicular, and proper parts, inverses, membership, n-fold axes, linking operations, sorting and permutation return exactly the operations they describe. '
 'Generated sets are the groups generated by their members, generators reproduce their group, adding inversion doubles a group that lacks it, and the point group named for a set of operations is the one of its space group.',
 ['inputs', 'histories'], 'every integer matrix of unit determinant with small entries; group-level statements over the point groups of every tabulated setting, order and subset',
 'No test covers point groups; results depend on the order and choice of operations supplied.',
 ['src/pointsymmetry.hpp', 'src/pointsymmetry.cpp', 'src/pointgroup.hpp', 'src/pointgroup.cpp'],
 [('isometry, order, axes', 'src/pointgroup.cpp isometry_type, rotation_order, rotation_axis_and_perpendicular_vectors'), ('list operations', 'src/pointsymmetry.cpp'), ('unique rotations', 'src/pointgroup.cpp get_unique_rotations')],
 note=COMMON + 'Matrix entries range over -3..3 in proofs of single operations, lists have up to three arbitrary operations; statements about whole groups are bounded to the point groups of the 530 Hall settings.')
prop('A07', 'Subscript iteration visits every element once, in order, and broadcasts',
 'Iterating a shape visits the subscripts in row order, each exactly once, keeping fixed dimensions at their given values and ending exactly after the last; copies continue like the original. '
 'Two shapes broadcast exactly when every dimension agrees or is one for either, the common shape takes the larger size, and both subscripts follow the common one except along their singleton dimensions. Linear indices and subscripts convert to each other for row- and column-ordered strides.',
 ['inputs'], 'every shape and position of up to three dimensions, any choice of fixed dimensions, both memory orders',
 'No test iterates with fixed dimensions, three dimensions or column order; a few shapes cannot show each subscript is visited once.',
 ['src/subscript.hpp'],
 [('iteration', 'src/subscript.hpp SubIt, SubIt2'), ('broadcasting', 'src/subscript.hpp BroadcastIt, BroadcastIt2'), ('linear indices', 'src/subscript.hpp sub2lin, lin2sub')],
 note=COMMON + 'One step of an iteration is proved from every position for up to three dimensions of up to 60000; whole loops are bounded to four dimensions of up to four.')
prop('A08', 'Array storage, views and copies hold for every memory layout',
 'An array or a view of part of one reads the same elements by subscript, by linear index, by iteration and after being copied, whatever the memory order, the strides and the offset; views share memory with the array they show, copies and decoupled arrays do not, and no operation touches memory outside the elements it names. '
 'Setting, resizing, appending, extracting, permuting, swapping and reshaping change exactly the rows named and keep all other values, and requests outside of the array or for an impossible shape are reported.',
 ['inputs', 'histories'], 'every element value, every memory layout (row or column order, contiguous or part of a larger array)',
 'Tests use contiguous row-ordered arrays nearly everywhere; strided and column-ordered arrays only fail for particular shapes and sequences of operations.',
 ['src/array.hpp', 'src/array.tpp', 'src/array2.hpp', 'src/array2.tpp'],
 [('Array2', 'src/array2.hpp view, set, s2l_d, l2l_d, _decouple, contiguous_row_ordered_copy; src/array2.tpp resize, append, extract'), ('Array', 'src/array.hpp, src/array.tpp the same for any number of dimensions')],
 note=COMMON + 'Element values are unbounded; shapes go up to 3 by 3 (2 by 2 by 2 for three dimensions) in six memory layouts.')
prop('A09', 'Array arithmetic, comparison and searching act element by element',
 'Arithmetic between arrays, arrays and scalars, and arrays and fixed vectors gives at each position the result for the elements at that position, broadcasting single rows and columns and reporting other mismatches; sums, products, extremes, dot and cross products, norms and rounding agree with their definitions; operands are unchanged and in-place results are seen by shared copies only. '
 'A comparison combines tolerant equality with order, and counting, finding, first, last, any, all, unique rows, permutations and row matching agree with applying it to each element or row.',
 ['inputs'], 'every element value, every memory layout and broadcast pattern',
 'Tests apply a few operators to contiguous arrays; the combinations of layout, broadcasting, comparison and ties are far more than they sample.',
 ['src/array.tpp', 'src/array2.tpp', 'src/array_functions.hpp', 'src/comparisons.hpp', 'src/comparisons.cpp', 'src/utilities.tpp'],
 [('operators', 'src/array_functions.hpp, src/array2.tpp'), ('reductions and searching', 'src/array2.tpp sum, prod, min, max, first, last, count, find, is, row_is, unique, permutation_vector'), ('comparisons', 'src/comparisons.hpp Comparer, RawBinaryOperator')],
 note=COMMON + 'Element values are unbounded where the operation does not branch on them; shapes go up to 3 by 3 and searches use a range of three values around the one sought.')
prop('A10', 'Assignments are permutations, of least cost or stable',
 'For every square matrix of finite costs, the Munkres algorithm finds a permutation with least total cost (reporting failure only if all costs are zero), the shortest-augmenting-path algorithm finds one whose cost is least within its tolerance together with its inverse and its cost, and the stable-matching algorithm finds one in which no row and column prefer each other to their partners. '
 'Permutations of stored objects are composed with that of the neighbour through the matching found from scalar, vector and matrix costs with their weights, and applying a permutation or its inverse moves every object to where it says.',
 ['inputs'], 'every matrix of finite costs up to three by three (executed up to six by six), every composition with a neighbouring permutation',
 'Tests solve a few matrices; ties, zeros, and the order in which augmenting paths appear depend on the costs.',
 ['src/munkres.hpp', 'src/lapjv.hpp', 'src/smp.hpp', 'src/permutation.hpp'],
 [('least cost', 'src/munkres.hpp Munkres, src/lapjv.hpp lapjv'), ('stable matching', 'src/smp.hpp smp'), ('composition', 'src/permutation.hpp munkres_permutation, jv_permutation, sm_permutation, apply_permutation')],
 note=COMMON + 'Costs are unbounded reals below 1e6; matrices are up to 3 by 3 in proofs (stable matching: 2 by 2, 3 by 3 in the thorough tier), up to 6 by 6 bounded.')
prop('A11', 'Vertices found separately are knitted into one indexed set',
 'Adding a vertex to a vertex set gives an index that finds an equal vertex in the consolidated set, equal vertices share one index, and only vertices used are kept. '
 'Combining the sets and node maps found by any number of threads, in any split and in sequence or in parallel, keeps for every node the vertices it was given, keeps none twice, reports nodes found twice and leaves its inputs unchanged; the permutation table returns for every ordered pair of vertices the permutation last stored for it, the identity if none, and one key per pair.',
 ['inputs', 'histories', 'schedules'], 'every split of nodes and vertices over threads and every history of table operations, up to the sizes stated',
 'The result depends on how vertices are shared among threads and on the order in which they are met, which tests leave to the scheduler.',
 ['src/vertex_map_set.h', 'src/vertex_index_map.h', 'src/vertex_map_knit.h', 'src/permutation_table.hpp'],
 [('one set', 'src/vertex_map_set.h VertexMapSet::add, preserve, consolidate'), ('several', 'src/vertex_map_knit.h combine, reduce, parallel_reduce'), ('nodes', 'src/vertex_index_map.h'), ('permutations', 'src/permutation_table.hpp PermutationTable')],
 note=COMMON + 'std::map is proved with a search-tree model of the four out-of-line libstdc++ functions. Vertices are points on a line with symbolic origin; proofs take up to three nodes of up to two vertices, bounded runs five threads of up to five nodes, parallel_reduce is executed only.')
prop('A12', 'A lattice and its dual describe one space, and vectors carry it',
 'A lattice built from basis vectors (as rows or columns, real or reciprocal) or from lengths and angles (in any unit of angle) has those vectors, and its real and reciprocal vectors satisfy a_i . b_j = 2 pi delta_ij, with metrics, volumes, lengths, angles and coordinate transforms that agree with them; lengths and angles of a dual lattice invert the metric; impossible angles and unknown units are refused. '
 'For vectors in units of a lattice, Cartesian coordinates, dot and cross products, norms, sums, multiples and conversion to the other unit (star) are those of the vectors in space whichever of the two units their operands use. Snapping a lattice to its symmetry keeps the duality, handedness and orientation and moves vectors no more than they miss the symmetry by.',
 ['inputs'], 'every invertible basis, every vector, both units, all mixtures of one and several vectors',
 'Tests use a few lattices, mostly orthogonal, where transposes, missing factors of 2 pi and orientation errors cancel.',
 ['src/lattice_dual.hpp', 'src/array_lvec.hpp', 'src/array_lvec_methods.tpp', 'src/array_l_functions.hpp', 'src/utilities.tpp'],
 [('duality and metrics', 'src/lattice_dual.hpp Impl::set_vectors, set_metrics, dual_lattice_parameters'), ('vectors', 'src/array_lvec_methods.tpp, src/array_l_functions.hpp xyz, star, dot, cross, norm'), ('snapping', 'src/lattice_dual.hpp snap_to_symmetry, standard_orientation_matrix')],
 note=COMMON + 'Basis vectors and coordinates are unbounded reals with non-zero determinant; arrays hold up to three vectors. Snapping, orientation and units of angle (trigonometric) are bounded runs.')
prop('A13', 'Primitive and conventional cells describe the same points and vectors',
 'For every centring the transformation and its inverse multiply to one, take lattice points to whole coordinates, and divide the cell by the number of its lattice points; the primitive lattice has A_p = A P, keeps the duality of real and reciprocal vectors, and a primitive lattice is its own. '
 'Transforming vectors to the primitive lattice and back (serial or threaded) keeps their position in space and returns the same coordinates, vectors already there are unchanged and vectors of another lattice refused; Cartesian and lattice coordinates convert back and forth; the centring of every tabulated space group is that of its operations.',
 ['inputs'], 'every centring, every basis, every vector in either unit',
 'Tests transform the cells of a few lattices; a wrong sign or transpose in one centring goes unnoticed.',
 ['src/primitive.hpp', 'src/transform.hpp', 'src/lattice_dual.hpp', 'src/spg_database.cpp', 'src/symmetry.cpp'],
 [('matrices', 'src/primitive.hpp PrimitiveTransform'), ('lattice', 'src/lattice_dual.hpp Impl::primitive'), ('vectors', 'src/transform.hpp transform_to_primitive, transform_from_primitive, hkl_to_xyz, xyz_to_hkl')],
 note=COMMON + 'Vectors have floating point coordinates (integer ones are truncated by the code). OpenMP regions are proved for sequential execution. The space group table is executed for all 530 entries.')

prop('A14', 'Points are moved into the first and irreducible Brillouin zone',
 'moveinto returns q and tau with Q = q + tau, tau a reciprocal lattice vector and q no further from the origin than from any other lattice point; ir_moveinto returns q, tau and operations with Q = R^T q + tau, q in the first zone and in the irreducible wedge, and equivalent points have one irreducible point; ir_moveinto_wedge does so without a lattice vector, and isinside and isinside_wedge accept exactly the points on the inner side of the planes. '
 'The first zone has the volume of the reciprocal cell and faces half way to lattice points; the irreducible zone is part of it with the volume one operation of the point group accounts for.',
 ['inputs'], 'every space group and lattice of its symmetry, every point',
 'Tests build the zones of a few dozen lattices; a wrong operation, a dropped face or a plane on the wrong side shows only for particular symmetries or points.',
 ['src/bz.cpp', 'src/bz.hpp', 'src/bz_move.cpp', 'src/bz_wedge.cpp', 'src/geometry.hpp', 'src/polyhedron_flex.hpp', 'src/polyhedron_faces.cpp'],
 [('move', 'src/bz_move.cpp part_moveinto_prim, BrillouinZone::moveinto, ir_moveinto'), ('wedge', 'src/bz_move.cpp BrillouinZone::ir_moveinto_wedge, src/bz.hpp isinside_wedge'), ('zone', 'src/bz.cpp voronoi_search, src/bz_wedge.cpp wedge_brute_force')],
 note=COMMON + 'Proved for concrete lattices (a box, a triangular prism with points in |q| < 1/2, an orthorhombic point group) and every point; the construction of the zones themselves (convex hulls, cuts, searches over operations) is only executed, for all 530 space group settings with a random lattice of each.')
prop('A15', 'Interpolation weights are of vertices around the point and reproduce it',
 'For every point of their domain the nodes of the trellis, the leaves of the nest and the tetrahedra of the mesh give vertices of one cell containing the point, with weights which are not negative, sum up to one and whose sum of vertices is the point; a point outside is not found and refused by the mesh and the nest. '
 'The trellis finds the bin containing a coordinate. Consequently, data linear in position is interpolated exactly everywhere in the zone, for any number of threads, with one result of the stored shape for each point.',
 ['inputs', 'schedules'], 'every point; every lattice and space group up to the stated bound',
 'Tests compare interpolation at few points of few lattices; a wrong neighbour, weight or boundary comparison affects points on faces and edges of cells, which are rarely hit.',
 ['src/trellis_node.hpp', 'src/trellis_poly.hpp', 'src/trellis.hpp', 'src/nest.hpp', 'src/mesh.hpp', 'src/triangulation_layers.hpp'],
 [('cube', 'src/trellis_node.hpp CubeNode::indices_weights, volume'), ('tetrahedra', 'src/trellis_node.hpp PolyNode::indices_weights, src/nest.hpp NestLeaf, NestNode::indices_weights'), ('bins', 'src/trellis.hpp find_bin, on_boundary'), ('mesh', 'src/triangulation_layers.hpp TetTri::locate, src/mesh.hpp Mesh3::interpolate_at')],
 note=COMMON + 'Proved for every point and one cube (vertices in any order of the list) and one pair of tetrahedra; orient3d of tetgen is taken to be the determinant it computes exactly. The construction of trellis, nest and mesh (tetgen, polyhedron cuts) is only executed, for random lattices of the space group settings.')
prop('A16', 'Interpolated data is the weighted sum of matched, phase-aligned modes',
 'The interpolated data of every point and mode is the sum over vertices of weight times the data of the mode which the permutation table matches to that of the first vertex, complex vectors multiplied by the phase which makes their product with the first one real; values and vectors follow the same mode; other results are untouched. '
 'The cost of matching two modes is the weighted difference of their elements as configured, permutations minimise the total cost and are inverse to each other, stored data keeps its shape, modes and elements, and data whose shape does not fit its description is refused.',
 ['inputs'], 'every value of the data and weights for up to three vertices and two modes; random data beyond that',
 'Tests interpolate data with one mode order and little mode mixing; a phase, permutation or offset applied to the wrong mode or vertex shows only for particular data.',
 ['src/interpolator.hpp', 'src/interpolator_at.tpp', 'src/interpolator_cost.tpp', 'src/interpolatordual.hpp', 'src/utilities.tpp', 'src/permutation_table.hpp'],
 [('sum', 'src/interpolator_at.tpp Interpolator::interpolate_at_mix'), ('dual', 'src/interpolatordual.hpp DualInterpolator::interpolate_at, cost_matrix, sort'), ('cost', 'src/interpolator_cost.tpp Interpolator::add_cost'), ('shapes', 'src/interpolator.hpp Interpolator::replace_data, check_elements')],
 note=COMMON + 'Proved for up to three vertices, two modes and a few elements of each kind with every value of data and weights, given that permutations of the table are permutations (A11). The choice of modes with least cost for more modes is executed for random data.')
prop('A17', 'Symmetry operations act correctly on interpolated data and atoms',
 'For Q = R^T q + tau, rotating the data of q gives that of Q: scalars are invariant, vectors and matrices of the real lattice transform with the inverse of R, those of the reciprocal lattice with its transpose, pseudovectors with the determinant in addition, for every operation, mode and value. '
 'Phonon eigenvectors are moved to the equivalent atom with the phase of the cell it is in, and dynamical matrices from both sides, so that they are those of the crystal at Q. The table of equivalent atoms is that of the space group, atoms are found at every equivalent place and nowhere else, and unsupported combinations are refused.',
 ['inputs'], 'every value of the data and every point for concrete groups; every space group with random crystals beyond that',
 'Tests rotate data of one crystal with inversion-like operations; confusing an operation with its inverse, the order of atoms or a phase is invisible unless the operation is not its own inverse.',
 ['src/interpolator_real.tpp', 'src/interpolator_recip.tpp', 'src/interpolator_axial.tpp', 'src/interpolator_gamma.tpp', 'src/interpolator.hpp', 'src/phonon.hpp', 'src/basis.hpp', 'src/linear_algebra.hpp'],
 [('rotations', 'src/interpolator.hpp Interpolator::rotate_in_place, rip_real, rip_recip, rip_axial'), ('phonons', 'src/interpolator_gamma.tpp Interpolator::rip_gamma_complex'), ('table', 'src/phonon.hpp GammaTable::construct, F0, vector'), ('atoms', 'src/basis.hpp Basis::equivalent_to, closest_to, equivalent_after_operation, snap_to')],
 note=COMMON + 'Proved for every operation of a hexagonal and a cubic group and of crystals with screws and glides, and every value of data and point. The physical meaning (the field Q, central-force dynamical matrices) is executed for random crystals of all 530 settings. OpenMP regions are run serially in the proofs.')
prop('A18', 'Polyhedra have the right faces, volumes, contents and intersections',
 'The convex hull of any points has exactly the faces, vertices and volume of their convex hull, whatever their order, multiplicity or lattice; a closed polyhedron has its volume and centroid in the units of its lattice, independent of the origin, and contains exactly the points behind all of its faces. '
 'Cutting by a plane leaves exactly the part behind it: both parts add up to the whole and can be combined to it, and intersections contain what both contain. Orientation predicates are the determinants, planes made from a normal vector and a point contain the point and have that normal, and moving, mirroring, rotating or renumbering a polyhedron changes neither its volume nor its identity.',
 ['inputs'], 'every position of the points for predicates and for tetrahedra, boxes and cuts of a box; random point sets with degenerate arrangements and random lattices beyond that (intersections: without slivers)',
 'Tests use cubes and a few zones; degenerate points, duplicated points, skewed and reciprocal lattices and the order of points decide whether a face is found, and a lost face is only visible as a wrong volume.',
 ['src/geometry.hpp', 'src/polyhedron_faces.hpp', 'src/polyhedron_faces.cpp', 'src/polyhedron_flex.hpp', 'src/utilities.hpp'],
 [('predicates', 'src/geometry.hpp pseudo_orient3d, point_inside_plane, point_inside_all_planes, three_point_normal, plane_points_from_normal'), ('hulls', 'src/geometry.hpp find_convex_hull_planes, find_planes_containing_point, polygon_faces, sort_convex_polygon_face'), ('measures', 'src/polyhedron_faces.hpp Faces::volume, centroid, contains, edges'), ('cuts', 'src/polyhedron_faces.hpp Faces::one_cut, cut, divide'), ('polyhedra', 'src/polyhedron_flex.hpp Poly::apply, combine, intersection, intersects, mirror, operator==, bounding_box')],
 note=COMMON + 'orient3d and orient2d of tetgen (exact sign) are trusted to be the determinants in the proofs and are executed in the bounded entries.')
prop('A19', 'Space-group names and Hall symbols mean the group they name',
 'Every Hall symbol decodes to the generators its notation means: centring translations, the inversion, rotations of the given order about the explicit or implied axis (its matrix has that order and leaves the axis alone), translations by letter or screw digit, and an origin shift; malformed symbols are refused and writing a symbol and reading it gives it back. '
 'Each of the 530 tabulated settings generates exactly the group of its Hall symbol, whose operations are those in its Hermann-Mauguin name, with the point group, centring and order of its type, alike for all settings of a type; and settings are found by number, name and choice or Hall symbol, and nothing else is.',
 ['inputs'], 'every order, axis, preceding axis and pair of translation letters; every centring and pair of symbols; all 530 settings exhaustively; random symbols of up to four parts in both notations beyond that',
 'Tests decode a few symbols; a wrong matrix for a rarely used axis, a lost screw, an unreachable setting or one wrong letter in a table of 530 rows gives a wrong crystal for the users of that setting only.',
 ['src/hall_symbol.hpp', 'src/hall_symbol.cpp', 'src/spg_database.hpp', 'src/spg_database.cpp', 'src/motion.hpp', 'src/symmetry.cpp'],
 [('symbols', 'src/hall_symbol.cpp SeitzSymbol::inner_getr, inner_gett, validate'), ('axes', 'src/hall_symbol.hpp SeitzSymbol::implicit_axis'), ('generators', 'src/hall_symbol.cpp HallSymbol::get_generators, from_ascii, to_ascii'), ('table', 'src/spg_database.cpp ALL_SPACEGROUPS, Spacegroup::get_spacegroup_symmetry, get_pointgroup_symmetry'), ('lookups', 'src/spg_database.cpp international_number_to_hall_number, international_string_to_hall_number, hall_symbol_to_hall_number')],
 note=COMMON + 'The decoding of single symbols and the generators of two-part symbols are proved (std::string is executed from libstdc++ headers). Parsing text (streams) and the table are executed: the table exhaustively, against an independent decoder in whole twelfths and against the elements written in the Hermann-Mauguin names.')
