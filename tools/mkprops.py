#!/usr/bin/env python3
"""Writes properties.jsonl (the committed source of the list is this table)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- lattices
p("L01","Direct and reciprocal lattices are exact duals",
"For every non-degenerate cell, given by lengths and angles (degrees or radians) or by three row or column vectors, in direct or reciprocal units, the direct and reciprocal basis vectors satisfy a_i . b_j = 2 pi delta_ij, their volumes multiply to (2 pi)^3, and every reported length, angle, volume and metric tensor agrees with those basis vectors. Building the same cell from its vectors, from its lengths and angles, or from its reciprocal, gives the same metric and the same basis-vector orientation to within rounding; identical lattices compare equal and lattices that differ beyond tolerance compare unequal; impossible lengths and angles are refused.",
["inputs"],"all non-degenerate triclinic-to-cubic cells, all constructors and units, both float and double",
"The tests build a handful of cells (mostly orthogonal or hexagonal); the relation between 18 stored numbers must hold for every triclinic cell and every construction route.",
["src/lattice_dual.hpp","wrap/_lattice.cpp","brille/lattice.py"],
[("basis-vector and metric construction","src/lattice_dual.hpp Lattice constructors, set_real_vectors/star metric helpers"),("equality","src/lattice_dual.hpp Lattice::is_same/operator==")],
["Lattice::vectors/length/angle/volume/metric/real_basis_vectors/reciprocal_basis_vectors","brille.Lattice in Python"])
p("L02","Lattice-unit vector algebra equals Cartesian vector algebra",
"For any vectors expressed in units of a direct or reciprocal lattice, their sums, scalar multiples, dot products, norms, angles, cross products, duals and conversions to and from Cartesian coordinates are those of the Cartesian vectors they denote, including dot products between a direct vector and a reciprocal vector of the same lattice. A dot product or concatenation of vectors of unrelated lattices is refused rather than answered.",
["inputs"],"all cells, all vector arrays of one or n rows, both lattice kinds, views and contiguous arrays",
"The existing tests check a few vectors in simple cells; non-orthogonal cells are where lattice-unit formulae differ from Cartesian ones.",
["src/array_lvec.hpp","src/array_lvec_methods.tpp","src/array_functions.hpp","src/array_l_functions.hpp","src/lattice_dual.hpp"],
[("metric-based dot/cross/norm","src/array_functions.hpp, src/array_lvec.hpp"),("xyz conversion and star","src/array_lvec_methods.tpp, from_xyz_like in src/array_lvec.hpp")],
["LVec free functions dot/cross/norm/angle, LVec::xyz/star"])
p("L03","Primitive/conventional cell transforms are exact and complete",
"For every centring, converting a direct or reciprocal vector to the primitive cell and back restores it, and keeps the Cartesian vector it denotes (so lengths, dot products and angles), the primitive lattice's vectors are lattice vectors of the conventional one in the same orientation; the primitive direct volume is the conventional volume divided by the number of lattice points per cell. Every centring translation has integer coordinates in the primitive cell, and the transform and its inverse multiply to exactly the identity.",
["inputs","configurations"],"all 530 Hall settings and centrings x all compatible cells x all vectors",
"Tests transform a few vectors for a few centrings; the transform tables have dozens of entries and three code paths (lattice, direct, reciprocal).",
["src/primitive.hpp","src/transform.hpp","src/bravais.hpp","src/bravais.cpp","src/lattice_dual.hpp"],
[("per-centring matrices","src/primitive.hpp PrimitiveTraits/PrimitiveTransform"),("vector transforms","src/transform.hpp transform_to_primitive/transform_from_primitive")],
["Lattice::primitive, transform_to_primitive, transform_from_primitive, PrimitiveTransform in Python"])
p("L04","Symmetrised lattices and atom positions obey their spacegroup",
"A lattice built with symmetry snapping has a metric left unchanged by every point operation of its spacegroup, and an atom basis that every spacegroup operation maps onto itself as a permutation within each atom type, both to machine precision even when the input lengths, angles and positions that symmetry relates obeyed it only approximately. Snapping an already symmetric lattice and basis changes nothing, keeps the orientation of given basis vectors, and an atom basis that cannot be made to map onto itself is refused. Every operation's table of equivalent atoms is the permutation of atoms that operation performs, with the lattice vectors it leaves.",
["inputs","configurations"],"all spacegroups x compatible cells x bases generated from them x perturbations below the tolerance",
"One issue-driven test covers one crystal; the guarantee has to hold for every spacegroup and perturbation.",
["src/lattice_dual.hpp","src/basis.hpp","src/symmetry.hpp","src/phonon.hpp"],
[("metric averaging / basis snapping","src/lattice_dual.hpp check_and_snap, src/basis.hpp Basis::snap_to"),("equivalent-atom search","src/basis.hpp Basis::equivalent_to/equivalent_after_operation")],
["Lattice::metric, Lattice::basis, Basis::equivalent_after_operation, GammaTable"])
# ---------------------------------------------------------------- symmetry
p("S01","Symmetry operations compose, invert and print faithfully",
"Composing a spacegroup operation with its inverse gives the identity, composition is associative and acts on positions like applying the two operations in turn, and an operation's reported order is the smallest power that is the identity up to lattice translations. Writing any operation in the x,y,z text form and reading it back, alone or in a list, gives an equal operation, and equality treats translations that differ by whole lattice vectors as equal.",
["inputs"],"all integer point operations of the crystallographic groups x rational translations x accepted spellings of the text form",
"The tests parse a few fixed strings; the grammar allows many orderings, signs and fractions.",
["src/motion.hpp","src/symmetry.hpp","src/symmetry.cpp"],
[("composition/inverse/equality","src/motion.hpp Motion::operator*/inverse/operator=="),("text conversion","src/motion.hpp Motion::from_ascii/to_ascii, src/symmetry.cpp Symmetry::from_ascii")],
["Motion::to_ascii, Symmetry(string), brille.Symmetry"])
p("S02","Generated symmetry groups are closed and generators regenerate them",
"For any set of spacegroup or point-group generators, the generated set contains the generators, the identity and the inverse and product of every pair of members exactly once (modulo lattice translations), whatever the order in which generators are listed. The reported generators of a group regenerate exactly that group, and its reported centring matches its pure translations.",
["inputs","configurations"],"all 530 Hall settings, and random subsets and orders of generators drawn from them",
"Tests compare a database of complete groups; subsets and reorderings of generators are never generated.",
["src/symmetry.hpp","src/symmetry.cpp","src/pointsymmetry.hpp","src/pointsymmetry.cpp"],
[("closure","src/symmetry.cpp Symmetry::generate, src/pointsymmetry.cpp PointSymmetry::generate"),("generator extraction","Symmetry::generators, PointSymmetry::generators"),("centring","Symmetry::getcentring")],
["Symmetry::generate/generators/has/size, PointSymmetry::generate/generators"])
p("S03","Point-group bookkeeping is consistent with the operations",
"For the point group of every spacegroup, the reported order, isometry, axis and inverse of each operation are those of the operation's matrix, looking an operation up finds it, and sorting, reversing, permuting, selecting by order or by isometry and adding inversion give the same operations as the definition demands. Rotating a vector by an operation and then by its reported inverse restores the vector.",
["inputs","configurations"],"all 530 settings with and without added inversion, all operations and orderings",
"Tests look at one or two groups and never at the axis/inverse tables of all groups.",
["src/pointsymmetry.hpp","src/pointsymmetry.cpp","src/pointgroup.cpp","src/pointgroup.hpp"],
[("rotation order/isometry/axis","src/pointgroup.cpp, src/pointsymmetry.cpp order/isometry/axis/get_inverse_index"),("sorting/selection","src/pointsymmetry.cpp sort/permute/nfolds/higher")],
["PointSymmetry methods, brille.PointSymmetry"])
p("S04","Every spacegroup name resolves to the right group",
"For each of the 530 spacegroup settings, its number, Hall symbol, Hermann-Mauguin symbols with choice, and international number select one and the same entry, and the group generated from its Hall symbol has the order, point group, Laue class and centring that entry claims and agrees with the tabulated operations. A decoded Hall symbol printed back decodes to the same group, and a string that names no spacegroup is reported as invalid rather than mapped to some group.",
["inputs","configurations"],"all 530 settings, all their spellings, all Hall-symbol strings with optional whitespace, explicit and implicit axes and origin shifts, and junk strings",
"Tests compare Hall-generated groups with a table; names, numbers, point-group classification and symbol variants are not cross-checked.",
["src/spg_database.cpp","src/spg_database.hpp","src/hall_symbol.hpp","src/hall_symbol.cpp","src/pointgroup.cpp","src/pointgroup.hpp","src/bravais.cpp"],
[("name lookup","src/spg_database.cpp string_to_hall_number etc."),("Hall decoding","src/hall_symbol.cpp HallSymbol::from_ascii/get_generators"),("point-group classification","src/pointgroup.cpp ptg_get_transformation/Pointgroup")],
["Spacegroup, HallSymbol, Pointgroup classes"])
# ---------------------------------------------------------------- BZ
p("B01","The first Brillouin zone is the Wigner-Seitz cell",
"For any lattice, the first Brillouin zone contains exactly the points at least as close to the origin as to every other reciprocal lattice point of the primitive cell (or of the conventional cell when so requested), has volume equal to that reciprocal cell's volume, contains the negative of each of its points, and its vertices, face normals and face points are mutually consistent. The relative indices of neighbouring lattice points from which it is built are complete, unique and in their documented order. A zone that cannot be built with the requested search extent is reported, not returned wrong.",
["inputs","configurations"],"all compatible cells x spacegroups x primitive flag x search extent",
"Tests compare volumes or vertices for a few tabulated crystals; the guarantee is over the continuous space of cells.",
["src/bz.hpp","src/bz.cpp","src/geometry.hpp","src/polyhedron_flex.hpp","src/polyhedron_faces.hpp","src/bz_config.hpp","src/neighbours.hpp","src/neighbours.cpp"],
[("bisecting-plane cutting","src/bz.cpp voro_search"),("inside test","src/bz.hpp BrillouinZone::isinside")],
["BrillouinZone::get_polyhedron/isinside/get_vertices"])
p("B02","Moving into the first zone subtracts a reciprocal lattice vector",
"For every list of reciprocal vectors, moving them into the first Brillouin zone returns for each one a point inside the zone and a lattice vector tau of the zone's lattice whose sum is the input vector. tau has integer components (of the conventional cell, allowed by its centring), vectors already inside are returned with tau zero unless on the surface, and the answer does not depend on the number of threads or on the other vectors in the list.",
["inputs","schedules"],"all zones, all vectors including surface points and vectors many zones away, any thread count and list order",
"Tests use coarse grids around the origin for a few lattices.",
["src/bz_move.cpp","src/bz.hpp"],
[("translation search","src/bz_move.cpp BrillouinZone::moveinto")],
["BrillouinZone::moveinto, brille.BrillouinZone.moveinto"])
p("B03","The irreducible zone tiles the first zone under the point group",
"Whenever an irreducible Brillouin zone is constructed, it lies inside the first zone, its volume times the number of point-group operations (with time reversal when requested) is the first-zone volume, and the images of it under those operations cover the first zone and overlap only on their surfaces. The wedge normals describe the same region as the irreducible polyhedron, and with wedge search off the irreducible zone is the first zone.",
["inputs","configurations"],"all spacegroups x compatible cells x time-reversal and primitive flags",
"Tests check the volume ratio for tabulated crystals only, and not coverage or overlap.",
["src/bz_wedge.cpp","src/bz.hpp","src/bz.cpp"],
[("wedge search","src/bz_wedge.cpp wedge_brute_force/wedge_search"),("volume verification","src/bz_wedge.cpp check_ir_polyhedron / bz.cpp")],
["BrillouinZone::get_ir_polyhedron/isinside_wedge/get_ir_wedge_normals"])
p("B04","Moving into the irreducible zone returns the exact symmetry and shift",
"For every list of reciprocal vectors, moving them into the irreducible zone returns for each one a point of the irreducible zone, a lattice vector tau, and two point-group operations that are inverses of each other, such that rotating the point by the reported operation and adding tau restores the input; moving into the wedge does the same without tau. Symmetry-equivalent and lattice-equivalent inputs give symmetry-equivalent irreducible points, and the answer does not depend on the thread count.",
["inputs","schedules"],"all zones with an irreducible zone, all vectors, any thread count",
"Tests verify fixed grids for a few crystals at the default thread count.",
["src/bz_move.cpp","src/bz.hpp","src/pointsymmetry.hpp"],
[("wedge image search","src/bz_move.cpp ir_moveinto/ir_moveinto_wedge")],
["BrillouinZone::ir_moveinto/ir_moveinto_wedge"])
# ---------------------------------------------------------------- polyhedra
p("P01","A polyhedron built from points is their convex hull",
"For any set of points spanning three dimensions, in Cartesian or lattice units and in any order, the polyhedron built from them contains every given point, uses only extreme points as vertices, has planar outward-facing convex faces satisfying Euler's formula, and has the volume and centroid of the convex hull. Reordering or repeating points, or expressing them in another lattice, yields the same polyhedron.",
["inputs"],"all point sets in general and degenerate (coplanar, collinear, duplicated) position spanning 3D",
"Tests use cubes, tetrahedra and a few Brillouin zones.",
["src/polyhedron_flex.hpp","src/polyhedron_faces.hpp","src/polyhedron_faces.cpp","src/geometry.hpp"],
[("hull construction","src/polyhedron_faces.hpp Faces(vertices)/finish_convex_hull"),("volume/centroid/contains","src/polyhedron_faces.hpp")],
["Poly(vertices), vertices/faces/volume/centroid/contains"])
p("P02","Cutting and intersecting polyhedra is half-space geometry",
"Cutting a convex polyhedron by planes leaves exactly the part on the inner side of every plane, and the intersection of two convex polyhedra is exactly the set of points in both; the volume on the two sides of a cut adds up to the original volume. Point containment agrees with the faces, cutting by a plane that misses the polyhedron changes nothing, and cutting everything away yields an empty result of zero volume rather than a wrong one. The planes, normals, orientation tests and edge-plane crossings that cutting is made of are those of the points or normals they were given.",
["inputs","histories"],"all convex polyhedra x sequences of planes, including planes through vertices, edges and faces",
"Tests cut cubes by a few planes.",
["src/polyhedron_flex.hpp","src/polyhedron_faces.hpp","src/geometry.hpp"],
[("one_cut / cut","src/polyhedron_faces.hpp Faces::one_cut, src/polyhedron_flex.hpp Poly::cut"),("intersection","src/polyhedron_flex.hpp Poly::intersection")],
["Poly::cut/intersection/intersects/contains/volume"])
p("P03","Rigid motions and combinations preserve polyhedra",
"Translating, mirroring through the origin, centring, rotating by a symmetry operation, copying and converting between lattice and Cartesian units preserves a polyhedron's volume, convexity, face structure and containment relations, with every vertex and the centroid moved as the operation says. Combining polyhedra keeps every vertex and face, and equality is decided by shape, not by vertex or face order.",
["inputs","histories"],"all convex polyhedra and sequences of these operations",
"Tests apply single operations to a few shapes.",
["src/polyhedron_flex.hpp","src/polyhedron_faces.hpp","src/polyhedron_faces.cpp"],
[("translate/mirror/centre/apply","src/polyhedron_flex.hpp Poly"),("equality/combine","src/polyhedron_flex.hpp operator==/combine, src/polyhedron_faces.cpp Faces::combine")],
["Poly methods"])
p("P04","Tetrahedral fillings partition the polyhedron",
"Filling a convex polyhedron with tetrahedra, at any volume limit, nesting depth or layering, gives tetrahedra of positive orientation whose volumes add up to the polyhedron's, respect the volume limit as far as the bundled TetGen does, and include every polyhedron vertex (and Gamma, where it is asked for); locating any point of the polyhedron yields the vertices of a tetrahedron containing it with non-negative weights that sum to one and reproduce the point. Points outside are reported as not found.",
["inputs"],"all convex polyhedra (zones and random hulls), volume limits, layers and query points including vertices, edges and faces",
"Tests triangulate a few zones and only check that construction or interpolation succeeds.",
["src/triangulation_layers.hpp","src/triangulation_simple.hpp","src/triangulation_poly.hpp","src/nest.hpp","src/nest.tpp","src/mesh.hpp","src/array_tetgen.hpp"],
[("layered location","src/triangulation_layers.hpp TetTri::locate"),("nested location","src/nest.hpp NestNode::indices_weights"),("tetgen driving","triangulate / SimpleTet / LQPolyTet")],
["TetTri::locate, SimpleTet, LQPolyTet, Nest::indices_weights"])
# ---------------------------------------------------------------- grids
p("G01","Every interpolation grid covers its zone and is piecewise linear",
"For every grid kind (hybrid trellis, layered mesh, nested tetrahedra), zone and node size, every point of the irreducible zone can be interpolated; the result at a grid vertex is the value stored there, and any affine function sampled on the vertices is reproduced exactly at every point, in real and complex data. The stored vertices include the corners of the zone, the nodes' volumes add up to the zone's volume, and more than one vertex never shares a position.",
["inputs","configurations"],"all zones x grid kinds x node sizes x all points including faces, edges and vertices",
"Tests interpolate a constant or linear function on fixed point lists for a few crystals.",
["src/trellis_poly.hpp","src/trellis_poly_parallel.tpp","src/trellis_node.hpp","src/bz_trellis.hpp","src/mesh.hpp","src/nest.hpp","src/interpolator_at.tpp","src/interpolatordual.hpp","src/vertex_map_set.h","src/vertex_index_map.h","src/vertex_map_knit.h"],
[("node construction","src/trellis_poly_parallel.tpp"),("weights","src/trellis_node.hpp indices_weights"),("vertex bookkeeping","src/vertex_map_*.h")],
["BrillouinZoneTrellis3/Mesh3/Nest3 interpolate_at, vertices"])
p("G02","Interpolation anywhere in reciprocal space respects the crystal symmetry",
"Filling a grid with samples of a field that has the full periodicity and point symmetry of the crystal - scalars, vectors, pseudovectors or second-rank tensors in real or reciprocal lattice or Cartesian-like units - and interpolating at any point Q gives the transformed interpolation of its irreducible point, so results at symmetry- and lattice-equivalent points are related by the operation relating the points. Fields exactly representable by the grid are returned exactly everywhere.",
["inputs","configurations"],"all spacegroups with an irreducible zone, rotation behaviours, element counts, all Q",
"Tests use one field and a few crystals, and mostly operations of order two where an operation equals its inverse.",
["src/interpolator.hpp","src/interpolator_real.tpp","src/interpolator_recip.tpp","src/interpolator_axial.tpp","src/bz_trellis.hpp","src/bz_mesh.hpp","src/bz_nest.hpp"],
[("rotate_in_place","src/interpolator_*.tpp rip_real/rip_recip/rip_axial"),("irreducible mapping","src/bz_trellis.hpp ir_interpolate_at")],
["ir_interpolate_at"])
p("G03","Phonon eigenvectors transform with the Gamma matrices",
"Interpolating phonon eigenvectors at any Q rotates each atom's displacement by the operation, moves it onto the equivalent atom, and multiplies it by the phase given by the operation's lattice translation of that atom, so norms are preserved and the dynamical matrix of any symmetric crystal model evaluated at Q is diagonalised by the rotated eigenvectors of its irreducible point. The atom permutation and translation tables used agree with applying the operation to the atom positions.",
["inputs","configurations"],"all spacegroups with generated atom bases, operations and Q",
"Tests exercise a single Python fixture with phonon data.",
["src/phonon.hpp","src/interpolator_gamma.tpp","src/basis.hpp","src/interpolator.hpp"],
[("Gamma tables","src/phonon.hpp GammaTable"),("application","src/interpolator_gamma.tpp rip_gamma_complex")],
["GammaTable accessors; ir_interpolate_at with Gamma-like data"])
p("G04","Results do not depend on the number of threads",
"Building a grid and interpolating, moving points into the zone or irreducible zone and testing containment give the same results for every number of threads, for every order and blocking of the input points and on every repetition; an error in any thread is reported to the caller.",
["schedules","inputs"],"thread counts from 1 to more than the number of points, all point lists, repeated runs",
"Tests run with the default thread count once.",
["src/bz_move.cpp","src/bz.hpp","src/trellis_poly_parallel.tpp","src/trellis_poly.hpp","src/mesh.hpp","src/nest.hpp","src/interpolator.hpp","src/thread_exception.h","src/vertex_map_knit.h"],
[("OpenMP loops","interpolate_at/ir_moveinto/isinside/rotate_in_place"),("exception capture","src/thread_exception.h")],
["thread-count arguments of the public calls"])
p("G05","Equivalent modes are matched consistently across the grid",
"When modes are sorted, the permutation between any two connected vertices is a bijection that minimises the chosen cost between their mode values and vectors, its inverse is used for the opposite direction, and interpolation with sorted modes equals interpolation of data relabelled by those permutations; relabelling the modes at any vertex beforehand does not change the set of interpolated modes. Stored permutations are returned exactly as set for each pair of vertices, and the status flags and visit count of a vertex being sorted read back as they were set.",
["inputs","histories"],"all grids with well-separated modes shuffled per vertex, all cost settings and element counts; all histories of permutation-table updates",
"Tests sort one fixture and compare nothing but success.",
["src/interpolatordual.hpp","src/permutation_table.hpp","src/permutation.hpp","src/interpolator_cost.tpp","src/interpolator_at.tpp","src/sorting_status.hpp"],
[("assignment","src/permutation.hpp jv_permutation_fill"),("table","src/permutation_table.hpp"),("use","src/interpolator_at.tpp")],
["DualInterpolator::sort, PermutationTable, interpolate_at"])
p("G06","Linear combination of grid data honours element layout and shape",
"For data of any shape - any number of modes and scalar, vector and tensor elements per mode, real or complex - filling a grid and interpolating returns arrays of the same trailing shape in which each element is the weighted sum of that element at the contributing vertices (complex vectors after aligning their arbitrary global phase), independent of the other elements. Data whose size disagrees with the number of grid points or with the declared element counts is rejected.",
["inputs","configurations"],"all element counts, data shapes and dtypes, weights and vertex lists",
"Tests use one or two element layouts.",
["src/interpolator.hpp","src/interpolator_at.tpp","src/interpolatordual.hpp","wrap/_common_grid.hpp","wrap/_interpolator.cpp"],
[("mixing","src/interpolator_at.tpp interpolate_at_mix"),("layout","src/interpolator.hpp elements/branch bookkeeping")],
["Interpolator/DualInterpolator::interpolate_at, fill in Python"])
# ---------------------------------------------------------------- persistence
p("H01","Saving and loading restores an equal object",
"Writing any lattice, basis, symmetry, polyhedron, Brillouin zone or filled interpolation grid to a file and reading it back gives an object that compares equal and answers every query identically, for every configuration, entry name and data content; writing it again or writing several objects to one file overwrites only the named entry. Reading a missing entry or file raises an error.",
["inputs","histories","configurations"],"all persistable objects x configurations x histories of writes, overwrites and reads",
"Tests save and load one or two objects each and compare a few fields.",
["src/hdf_interface.hpp","src/hdf_interface.cpp","src/lattice_dual.hpp","src/bz.hpp","src/bz_trellis.hpp","src/trellis_poly.hpp","src/trellis_node.hpp","src/interpolator.hpp","src/interpolatordual.hpp","src/permutation_table.hpp","src/array.hpp","src/array2.hpp","src/polyhedron_flex.hpp","src/basis.hpp","src/symmetry.hpp","src/approx_config.hpp"],
[("to_hdf/from_hdf","every persistable class"),("entry overwrite","src/hdf_interface.hpp overwrite_group/overwrite_data")],
["to_hdf/from_hdf, to_file/from_file"])
# ---------------------------------------------------------------- containers & numerics
p("A01","N-dimensional arrays behave like the mathematical arrays they hold",
"For arrays of any dimensionality, element type and memory layout (contiguous or strided views, shared or decoupled storage), element access, views, extraction, assignment, appending, resizing, reshaping, flattening, elementwise arithmetic with broadcasting, reductions over a dimension, comparisons and permutation queries give the results defined on the logical elements. Operations that return a copy do not alter the original, mutating a view alters exactly the viewed elements, and shape mismatches and out-of-range requests raise errors.",
["inputs","histories"],"all shapes, element types, strides and sequences of operations",
"Tests use a few small contiguous arrays; strided views and sequences are where layouts diverge.",
["src/array.hpp","src/array.tpp","src/array_attributes.hpp","src/array_functions.hpp","src/array_.hpp"],
[("shape/stride/offset bookkeeping","src/array.hpp, src/array.tpp")],
["Array<T> public methods"])
p("A02","Two-dimensional vector arrays behave like lists of rows",
"For two-dimensional arrays of any element type and memory layout, row and element access, views, extraction by index, range, mask or list, set, append, concatenation, unique and row comparison, broadcasting arithmetic, reductions, rounding and row-wise geometry (dot, cross, norm, sums) give the results defined on the logical rows. Operations that return a copy leave the original unchanged, mutating a view alters exactly the viewed elements, and mismatched shapes or out-of-range requests raise errors.",
["inputs","histories"],"all row counts and widths, element types, strides and sequences of operations",
"Tests use a few small contiguous arrays.",
["src/array2.hpp","src/array2.tpp","src/array_functions.hpp","src/array_attributes.hpp","src/array_l_functions.hpp","src/array_lvec.hpp"],
[("shape/stride/offset bookkeeping","src/array2.hpp, src/array2.tpp"),("row-wise functions","src/array_functions.hpp")],
["Array2<T> public methods and free functions"])
p("A03","Index arithmetic and iteration visit every element exactly once",
"Linear and multi-dimensional indices convert into each other without loss for every shape in row or column order, and full, fixed-index and broadcast iterators visit every matching subscript exactly once in row-major order and then stop, including for shapes with length-one or zero-length dimensions; incompatible shapes refuse to broadcast.",
["inputs"],"all shapes, strides, fixed-index masks and pairs of broadcastable shapes",
"Tests iterate a few fixed shapes.",
["src/subscript.hpp"],
[("lin2sub/sub2lin","src/subscript.hpp"),("SubIt/SubIt2/BroadcastIt","src/subscript.hpp")],
["subscript.hpp functions and iterators"])
p("N01","Small-matrix and scalar numerics are correct for all inputs",
"Determinant, inverse, adjugate, transpose, trace, products, similarity transforms, cross and dot products, metric tensors and lattice conversions of small integer, rational or real matrices satisfy their algebraic definitions to rounding, integer matrices give exact integer results, and singular matrices are reported. Rounding casts between number types, modulo and combinatorial helpers, and trigonometric helpers with exact special angles return the mathematically defined value or raise an error.",
["inputs"],"all 3x3 (and NxM) integer, float, double and complex matrices and vectors; all representable scalars",
"Tests use a handful of matrices and angles.",
["src/utilities.hpp","src/utilities.tpp","src/math.hpp","src/linear_algebra.hpp","src/rotates.hpp","src/enums.hpp"],
[("matrix helpers","src/utilities.tpp"),("exact trigonometry","src/math.hpp")],
["brille::utils and brille::math functions"])
p("N02","Tolerant comparisons mean what their tolerances say",
"Tolerant equality of scalars, vectors and matrices is reflexive and, for values of one type, symmetric, holds for values closer than the configured absolute or relative tolerance and fails for values clearly further apart, for every pair of (32 bit or larger) numeric types and magnitude including zero, signs and infinities. Every named comparison (equal, not equal, ordered, mixed) is decided consistently with that equality for single values, ranges and rows, and the global tolerance settings apply to later comparisons.",
["inputs","configurations"],"all numeric types, magnitudes, tolerances and comparison operators",
"Tests compare a few fixed values.",
["src/approx_float.hpp","src/approx_config.hpp","src/approx_config.cpp","src/comparisons.hpp","src/comparisons.cpp"],
[("tolerance computation","src/approx_float.hpp"),("operator dispatch","src/comparisons.hpp Comparer")],
["approx_float::scalar/vector/matrix, Comparer, Array::is/row_is"])
p("N03","Assignment solvers return minimum-cost bijections",
"For any square cost matrix - integer or real, with ties, zeros, negatives and large or tiny values - each assignment solver returns a bijection whose total cost is the minimum over all bijections, and the stable-matching solver returns a bijection with no blocking pair; row and column answers are inverse to each other. Solving the same problem again, or a permuted or shifted version of it, gives the same optimal cost.",
["inputs"],"all square cost matrices up to brute-force size, and larger ones against an independent solver",
"The test solves one or two fixed matrices.",
["src/munkres.hpp","src/lapjv.hpp","src/smp.hpp","src/permutation.hpp"],
[("Munkres","src/munkres.hpp"),("Jonker-Volgenant","src/lapjv.hpp"),("stable matching","src/smp.hpp")],
["munkres::Assignment, lapjv, smp"])
p("N04","Vertex numbering maps merge without losing or duplicating vertices",
"Recording vertices of many nodes against a shared list and independently created extra vertices, in any partition into parts, and combining the parts in sequence or in parallel gives every node the same vertex positions it recorded, with no position stored twice and no unused original kept. The order of combination changes at most the numbering.",
["inputs","histories","schedules"],"all histories of adding shared, repeated and new vertices to any number of parts, and all combination orders",
"No test drives the merging of vertex maps directly; grids in tests are small.",
["src/vertex_map_set.h","src/vertex_map_set.cpp","src/vertex_index_map.h","src/vertex_map_knit.h"],
[("add/preserve/consolidate","src/vertex_map_set.h"),("combine/reduce","src/vertex_map_knit.h")],
["VertexMapSet, VertexIndexMap, vertex_maps::reduce/parallel_reduce"])
# ---------------------------------------------------------------- Python
p("Y01","The Python interface gives the same answers as the library",
"Every array accepted from Python gives the same result whatever its memory layout (C, Fortran, strided, reversed or read-only) and equivalent dtype, arrays returned to Python hold the library's values with the documented shape, and creating zones and grids through the helper functions is equivalent to calling the constructors directly with the same settings for every accepted spelling of the arguments. Malformed arguments raise Python exceptions and never crash or silently change meaning.",
["inputs","configurations"],"all layouts, dtypes, argument spellings and grid/zone settings",
"The Python tests pass contiguous double arrays and one spelling each.",
["wrap/_array.hpp","wrap/_c_to_python.hpp","wrap/_common_grid.hpp","wrap/_bz.cpp","wrap/_lattice.cpp","wrap/_basis.cpp","wrap/_symmetry.cpp","wrap/_trellis.hpp","wrap/_mesh.hpp","wrap/_nest.hpp","brille/utils.py","brille/lattice.py","brille/__init__.py","brille/bound.py"],
[("numpy conversion","wrap/_array.hpp a2py/py2a"),("argument parsing","brille/utils.py create_bz/create_grid, brille/lattice.py Lattice")],
["brille Python package"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
