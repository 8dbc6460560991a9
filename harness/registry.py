import os
ASAN=["-O1","-g1","-fsanitize=address,undefined","-fno-sanitize-recover=undefined","-D_GLIBCXX_ASSERTIONS"]
OPT=["-O1","-D_GLIBCXX_ASSERTIONS"]
def H(src,lib="all",flags=OPT,**k): return dict(src=[src] if isinstance(src,str) else src,lib=lib,flags=flags,**k)
REG={
"A03":{"harness":[H("a03_subscript.cpp","none",ASAN)],
 "rule":"random shapes (1-5 dimensions, lengths 0-5), fixed subscripts, broadcast pairs and strides; non-trivial = more than two subscripts to visit (and differing shapes for broadcasting)",
 "assumptions":["the element type holding subscripts does not overflow"]},
}
NOTE="Randomised search with a fixed seed and a fixed number of generated cases against an independent oracle; a pass means no counterexample among the generated cases. Trusted: the oracle and generators in /verif/harness, g++ and its sanitizers."
ARR="random shapes, element types and layouts (row/column ordered, padded, external memory, sub-views, slices, shared copies); non-trivial = more than one element in a layout other than a freshly allocated row-ordered array"
REG["A01"]={"harness":[H("a01_array.cpp","mini",ASAN)],"rule":ARR,"assumptions":["element values are small and exactly representable"]}
REG["A02"]={"harness":[H("a02_array2.cpp","mini",ASAN)],"rule":ARR,"assumptions":["element values are small and exactly representable"]}
AVX2="avx2" in (open("/proc/cpuinfo").read() if os.path.exists("/proc/cpuinfo") else "").split()
REG["N03"]={"harness":[H("n03_assign.cpp","mini",ASAN)]+([H("n03_simd.cpp","none",ASAN+["-mavx2"])] if AVX2 else []),"rule":"random square cost matrices (1-16 rows, up to 40 quick / 80 thorough) of eight shapes: ties, sparse, negative, huge spread, tiny and large magnitudes; non-trivial = at least 3 rows and not all costs equal","assumptions":["finite costs whose sums do not overflow"]}
REG["N01"]={"harness":[H("n01_numeric.cpp","mini",ASAN)],"rule":"random integer, real (float, double) and complex matrices of 1-5 rows, vectors of 1-9 elements (parallel, opposite, zero, phase-related, sparse, large and small), angles at and next to special values, scalars at the limits of their types; non-trivial = at least two non-zero elements / a value that is not already an integer / a non-zero angle","assumptions":["magnitudes whose squares are representable","reference values in long double or exact integers"]}
REG["N02"]={"harness":[H("n02_compare.cpp","mini",ASAN)],"rule":"values of every sign and magnitude (zeros, infinities, subnormal-sized, huge), paired at 0-10000 times the tolerance, for 20 pairs of float, double and integer types, tolerance multipliers and explicit tolerances; non-trivial = the two values are not identical","assumptions":["verdicts within 20% of the tolerance limit are not demanded","signed and unsigned integers are only compared when both are non-negative"]}
REG["N04"]={"harness":[H("n04_vertexmap.cpp","mini",ASAN,schedule=True)],"rule":"up to 14 nodes with up to 6 vertices each, recorded by preserve/add/origin_index as shared originals or independently created extras (with rounding noise) in up to 9 parts, combined by reduce, parallel_reduce with 1-4 threads and a random binary tree; non-trivial = more than one part and more than two nodes","assumptions":["distinct positions are separated by much more than the tolerance","vertices flagged as crafted are not original vertices"]}
SYM=dict(lib="sym",flags=OPT)
CELL="cells of every crystal system (lengths 2-12, angles 40-140 degrees, special shapes frequent; compatible with a random spacegroup setting by averaging the metric over its point operations)"
REG["L01"]={"harness":[H("l01_lattice.cpp",**SYM)],"rule":CELL+" given in every unit, space, vector order and orientation; non-trivial = not orthogonal / changed beyond rounding / impossible","assumptions":["squared unit-cell volume (for unit lengths) above 0.02: results are compared to a long-double oracle within 1e-12 times the condition number"]}
REG["L02"]={"harness":[H("l02_vectors.cpp",**SYM)],"rule":CELL+", rotated frames and left-handed bases; 1-5 vectors of real or integer components, contiguous or a range of rows of a larger array; non-trivial = basis vectors not orthogonal","assumptions":["operands of dot and cross are row ordered and contiguous, operands of + and - share a lattice (both asserted by the code)"]}
REG["L03"]={"harness":[H("l03_primitive.cpp",**SYM)],"rule":"all 530 Hall settings; "+CELL+", rotated and inverted frames; real, integer, rational and centring vectors, direct and reciprocal; non-trivial = a centred setting","assumptions":["reported lattice is built without snapping from an exactly compatible cell"]}
REG["L04"]={"harness":[H("l04_snap.cpp",**SYM)],"rule":"all 530 Hall settings; "+CELL+"; lengths (and angles) related by symmetry, or atom positions generated as complete orbits, perturbed by 0 to 1e-3; non-trivial = something was perturbed (or several atoms and operations)","assumptions":["only lengths and angles that snapping relates by symmetry or centring are perturbed","atoms of one orbit are at least 0.03 (fractional) apart"]}
SYMA=dict(lib="sym",flags=ASAN)
REG["S01"]={"harness":[H("s01_motion.cpp",**SYMA)],"rule":"operations of all 530 tabulated settings and all their point operations with rational translations (denominators 2-24, any integer part, last-digit noise); text in every order, sign, spacing and number spelling; non-trivial = not the identity","assumptions":["operations printed as text have at least one non-zero coefficient per component"]}
REG["S02"]={"harness":[H("s02_groups.cpp",**SYM)],"rule":"0-4 (or up to 24) operations drawn from one of the 530 tabulated settings in any order, with repeats and translations outside one cell, subgroups they generate and whole groups shuffled; non-trivial = the group has more operations than were given","assumptions":["operations belong to one crystallographic group, so the closure is finite"]}
REG["S03"]={"harness":[H("s03_point.cpp",**SYMA)],"rule":"point operations of the 530 tabulated settings, complete or partial, with and without inversion added, in any order; non-trivial = more than two operations","assumptions":["order of an operation is that of its rotation part, as documented"]}
REG["S04"]={"harness":[H("s04_names.cpp",**SYMA)],"rule":"all 530 settings in every spelling; Hall symbols generated from their definition (any lattice letter, 1-4 symbols, explicit or implied axes, translations, origin shifts) in every notation; names with up to 8 characters edited; non-trivial = a group of more than two operations (any text for junk)","assumptions":["spglib tables of names and operations embedded in the harness are right","generated Hall symbols give at most 144 operations"]}
POLY="4-20 integer points (small range, central pairs, two layers, midpoints, repeats) divided by up to 12, Cartesian (scaled, rotated) or in real or reciprocal lattice units of any cell"
ALL=dict(lib="all",flags=OPT)
REG["P01"]={"harness":[H("p01_hull.cpp",**ALL)],"rule":POLY+"; non-trivial = more than four extreme points","assumptions":["points span three dimensions and their differences are far above the comparison tolerance"]}
REG["P02"]={"harness":[H("p02_cut.cpp",**ALL)],"rule":POLY+"; cut by 1-4 planes anywhere, through vertices, along or parallel to faces; pairs shifted and scaled; non-trivial = the plane divides the polyhedron / the polyhedra overlap; 1-5 planes by three points or by a normal against 1-6 points","assumptions":["points span three dimensions; verdicts closer to a surface than 1e-7 of the size are not demanded","for inexact coordinates point_inside_all_planes, whose tolerance is absolute, is judged only away from the planes"]}
REG["P03"]={"harness":[H("p03_move.cpp",**ALL)],"rule":POLY+"; moved by the operations of a random spacegroup in a compatible lattice, random translations, relabelled, split and recombined; non-trivial = the operation was applied / the polyhedra share a face or part of it","assumptions":["points span three dimensions"]}
ZONE="all 530 Hall settings with compatible cells (lengths 2-12, also in rotated frames), every zone configuration"
REG["B01"]={"harness":[H("b01_zone.cpp",**ALL)],"rule":ZONE+"; primitive cells changed by integer shears for very oblique ones; non-trivial = a zone with more than six faces","assumptions":["no vertex pair of the zone is closer than 0.002 of its size without coinciding","points nearer than 1e-6 (relative) to the surface, but not on it, are not judged"]}
REG["B02"]={"harness":[H("b02_move.cpp",**ALL)],"rule":ZONE+"; lists of 1-60 vectors: real, rational, zone corners, face centres and edges, inside and just next to the surface, shifted by up to 20 zones; non-trivial = some vector was moved","assumptions":["vectors nearer than 1e-9 (relative) to the surface may be assigned to either side"]}
REG["B03"]={"harness":[H("b03_irreducible.cpp",**ALL)],"rule":ZONE+", with and without time reversal; 40 points per zone (uniform, towards corners, images of points of the irreducible zone); every setting at least once in the second part; non-trivial = more than one operation","assumptions":["points nearer than 1e-5 (relative) to a face of the irreducible zone or one of its images are not judged","a cell for which the constructor refuses is not judged, unless that happens for three random cells of one setting"]}
REG["B04"]={"harness":[H("b04_irmove.cpp",**ALL)],"rule":ZONE+", with and without time reversal and wedge search; lists of 1-40 vectors: real, rational, corners, faces and edges of both zones, images and lattice translations of them and of earlier vectors; non-trivial = some vector was rotated","assumptions":["vectors nearer than 1e-6 (relative) to a face may have any of their equivalent answers"]}
REG["P04"]={"harness":[H("p04_fill.cpp",**ALL)],"rule":POLY+", shifted; volume limits down to 1/60 of the whole, 0-5 layers or branchings; points inside, on interior faces, edges and vertices, at and near the surface, outside; non-trivial = several layers (or more than four vertices, or a volume limit)","assumptions":["points on the surface (within 1e-11 of the size) which are not vertices may be reported as outside, points outside by less than 1e-6 as inside"]}
GRID=dict(lib="all",flags=OPT)
GSRC=["grid_trellis.cpp","grid_mesh.cpp","grid_nest.cpp"]
REG["G01"]={"harness":[H(["g01_cover.cpp"]+GSRC,**GRID)],"rule":'a zone of any of the 530 settings (compatible random cells, any frame, conventional or primitive, with or without time reversal and wedge search) holds a Trellis, Mesh or Nest of random size (1 to about 60 cells, all triangulation options); data: random, or affine in the position, real or complex, in one call or two. A case is non-trivial when the grid has more than 8 vertices; points on faces, edges, corners, at and within 1e-15 of vertices are drawn',"assumptions":["zones with corners closer than 0.002 of their size are discarded (brille's tolerance decides whether they are merged)", 'complex vectors are compared up to their arbitrary phase']}
REG["G02"]={"harness":[H(["g02_symmetry.cpp"]+GSRC,**GRID)],"rule":'a zone and grid as in G01, data affine in the position for scalars, vectors, matrices which turn as vectors, pseudovectors, or reciprocal vectors; points anywhere, at corners and images of each other under the group and lattice translations. Non-trivial: some point was moved by an operation other than identity and the data has vectors or matrices',"assumptions":['the operation relating a point to its irreducible point is the one reported by ir_moveinto (decided by B04)', 'zones with nearly coinciding corners are discarded', 'equivalent pairs are compared for irreducible points inside of the irreducible zone, where the operation is unique']}
REG["G04"]={"harness":[H(["g04_threads.cpp"]+GSRC,schedule=True,**GRID),H(["g04_rotate.cpp"],schedule=True,**GRID)],"rule":'two grids built with different numbers of threads, data at their vertices, point lists with repeated points, vertices and faces, evaluated with 1 to 8 and more threads than points, reordered, selected, in blocks, and through the serial call; a point outside at a random place of the list; moving points and containment in the same ways; rotate: data of every kind for up to 12000 points turned by random operations with 1 to 16 threads. Non-trivial: 3 or more points and more than 8 vertices',"assumptions":['the numbers of threads actually running together depend on the machine; a failure counts if it reproduces in 1 of 12 replays', 'for points outside of a Trellis only those outside of its bounding box need to be reported']}
REG["G05"]={"harness":[H(["g05_modes.cpp"]+GSRC,**GRID)],"rule":'table: histories of set, overwrite, insert_keys, reset, refresh on up to 6 points and 5 modes against a map; cost: random layouts, weights and cost functions against long double; sorted: grids with up to 5 (7) modes, random or well separated and shuffled at every vertex, sorted with 1 to 4 threads; status: up to 12 settings of flags and visits, also near the largest count. Non-trivial: two or more stored permutations; more than one mode; some connected pair exchanged',"assumptions":['a permutation may be any of least cost, to 1e-5', 'the complex product cost (type 2) is left out of the cost comparison: its documentation and implementation differ by a square']}
REG["G06"]={"harness":[H(["g06_layout.cpp"]+GSRC,**GRID)],"rule":'layout: one Interpolator with data of 1 to 5 dimensions in any memory layout, made or replaced in 6 ways, elements given or left out, random points, weights and permutations; filled: histories of filling values, vectors or both of a whole grid with right and wrong numbers of points. Non-trivial: more than one point and more than one element; both values and vectors filled at the end',"assumptions":['complex vectors are compared up to a phase per branch, aligned to any one of the contributing points']}
REG["G03"]={"harness":[H(["g03_gamma.cpp"]+GSRC,**GRID)],"rule":'random sites of the spacegroup occupied by up to 12 (16) atoms of random types, a random pairwise spring model; the grid holds all unit displacements in angstrom or lattice units, and NxN matrices of tensors. Non-trivial: the dynamical matrix at some point differs from the one at its irreducible point',"assumptions":['the transformation is defined up to what leaves the dynamical matrix of every spring model invariant: G unitary and G D(q) G^+ = D(Q)', 'time reversal added to a non-centrosymmetric basis may be refused']}
REG["H01"]={"harness":[H(["h01_files.cpp"]+GSRC,**GRID)],"rule":'arrays: Array2 of four types, empty or not, views, selections and other memory layouts, extreme values; lattices: any setting and cell with random basis, LVec, Symmetry, PointSymmetry, Motion; zones: every configuration and tolerance, with their polyhedra and faces; interpolators: every data layout, unit and cost function, permutation tables; grids: Trellis and Mesh, unfilled, filled or sorted; histories: up to 12 (25) writes, overwrites, truncations, forbidden writes and reads of 12 objects in three files. Non-trivial: more than one element, operation, point and mode, or vertex; some entry overwritten',"assumptions":['HighFive and HDF5 are replaced by an in-memory stand-in with their documented behaviour: the conversion of objects to and from entries is decided, not the HDF5 library', 'a Nest can not be written (documented: raises)']}
REG["Y01"]={"harness":[{"py":"y01_python.py"}],"technique":"property-based testing (own tape-based engine in Python, forked cases, shrinking) of the compiled Python module against numpy and against itself",
 "rule":"layouts: lattices, atom bases, symmetries, polyhedra, zones and grids of any setting called with arrays in C, Fortran, strided, reversed, read-only, structured-field, offset, repeated (zero stride), byte-swapped or other exactly convertible layout and as nested lists; non-trivial when one array is not C-ordered. malformed: arguments of wrong shape, kind or count, unknown keywords and inconsistent helper settings (all count). moves, accessors: any setting and cell (all count). fill: one to three modes of scalars, vectors and matrices (all count). lifetime: owners and input arrays deleted in different orders. helpers: every spelling of create_bz, create_grid and Lattice with all options. files: to_file and from_file with all flags",
 "assumptions":["the extension module is compiled from /repo/wrap and /repo/src with g++ -O1 against the HDF5 stand-in","arrays which would have to be converted inexactly (complex to real) are outside the domain","out-of-range RotatesLike and LengthUnit integers may raise (as coded) or be replaced (as documented)","tolerance 1e-7 relative for interpolated values, 1e-9 for lattice numbers; exact equality between layouts, spellings and thread counts"]}
