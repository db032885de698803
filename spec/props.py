P = []


def prop(id, title, statement, over, forall, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, **kw))


prop("C02", "Core headers are self-contained, combinable and safe in many translation units",
     "Every core header of the library (the headers directly in the library's include folder, no third-party dependency) compiles on its own and when included twice, and all of them compile together in either order, in header-only mode and in static-library mode. In both modes no function or variable that an includer compiles has a strong external definition, so that several translation units including the same headers link.",
     ["programs", "configurations"], "every subset and order of core headers in a client program, one or more translation units, both library modes",
     "tests include a fixed set of headers in one order, each in a single translation unit of one build mode",
     ["include/delfem2/*.h", "include/delfem2/*.cpp"],
     [("DFM2_INLINE / DFM2_STATIC_LIBRARY", "include/delfem2/dfm2_inline.h"), ("header-only inclusion of the .cpp at the end of each header", "include/delfem2/*.h")],
     tech="front-end compile witnesses + linkage query over the type-checked program",
     note="Decides the statement with libstdc++: every header alone for clang and gcc, all headers ascending and descending, linkage of every definition an includer sees. Other compilers are not covered.")

prop("C03", "Public class templates and generic functions compile for their types",
     "Every public class template of the core headers (vectors, matrices, quaternion, sparse matrix, ILU preconditioner, block band matrices, primitives, bounding volumes, grids, tensors, gizmos, mesh points) compiles completely, every member included, and every public generic function (mean-value coordinates, curves, polylines, polygons, surfaces, GJK/EPA, FEM merge functions, iterative solvers, BVH and kd-tree queries, sampling, quaternion and matrix functions) compiles, for the library's own vector, matrix and scalar types they are documented for, with assertions on and off.",
     ["programs"], "every client program that uses any of these members or functions with the library's own types",
     "a template body that no test instantiates is never type-checked; over a third of these members and about 200 generic functions are not called by any test",
     ["include/delfem2/vec2.h", "include/delfem2/vec3.h", "include/delfem2/mat3.h", "include/delfem2/mat4.h", "include/delfem2/quat.h", "include/delfem2/ls_block_sparse.h", "include/delfem2/ls_ilu_block_sparse.h", "include/delfem2/srch_bv3_aabb.h", "include/delfem2/gizmo_geo3.h", "include/delfem2/geo_polyline.h", "include/delfem2/vecxitrsol.h", "include/delfem2/geo_curve_cubic.h"],
     [("class templates and generic functions", "include/delfem2/*.h")],
     tech="compile witness: explicit instantiation of class templates and generic functions",
     note="Complete for the listed templates, functions and types (spec/instances.inc, spec/generic.inc): the compiler checks every body. Templates outside the lists are not covered.")

prop("C04", "Switching assertion checks on or off never changes what is computed",
     "Code that is compiled only when assertion checking is on (or only when it is off), and every assertion condition, has no effect beyond stopping the program: it modifies nothing that survives it, allocates and releases nothing, draws no random numbers and does not read input.",
     ["configurations", "inputs"], "all inputs in both the checked and the unchecked build",
     "the tests run in one build configuration only and so never compare a checked build with an unchecked one",
     ["include/delfem2/*.h", "include/delfem2/*.cpp"],
     [("assert(...) conditions and #ifndef NDEBUG blocks", "throughout include/delfem2")],
     tech="interprocedural effect analysis of assertion-only code on the AST",
     note="All assertion conditions and NDEBUG conditionals in header-only mode (class templates instantiated) and every static unit; calls are followed through the call graph with parameter effects. Trusts the effect summary of standard-library const members.")

prop("C05", "The library keeps no hidden mutable state",
     "No operation of the core library leaves state behind outside the objects passed to it: all namespace-scope, function-static, class-static and thread-local data are immutable, and no class can be modified through a read-only reference, except the elastic and Laplacian surface deformers whose solver scratch members are documented as such. Hence calls on disjoint objects never influence one another, in any order and from any thread.",
     ["schedules", "histories"], "every interleaving and every sequence of calls on distinct objects",
     "tests call operations once, from one thread, so a cache or counter kept between calls is invisible to them",
     ["include/delfem2/*.h", "include/delfem2/*.cpp"],
     [("constant tables with static storage", "include/delfem2/dtet_v3.h, mshelm.h, quadrature.h, gridvoxel.cpp, isrf_iss.cpp"), ("mutable scratch members", "include/delfem2/defarap.h, deflap.h")],
     tech="storage-duration and mutability query over the type-checked program",
     note="Every variable of static or thread storage and every data member, in header-only and static mode. State reached through pointers stored inside objects, and state of the C library (rand), is outside (rand is decided by C06).")

prop("C06", "Operations are reproducible and never end or block the calling process",
     "Only the operations documented as random (random mesh sampling, clustering and shuffling, random colours and matrices, the randomised remeshing, Perlin noise, the CAD remeshing built on it) may draw random numbers; everything else never reads a random source, clock, environment variable or process identity, and iterates no container ordered by addresses or hashes, so equal inputs give equal results. No core operation ends, suspends or blocks the process it is called from (exit, abort, sleep, reading the terminal).",
     ["inputs", "histories", "schedules"], "every call on every input, in any process and at any time",
     "a test compares one run with fixed expectations and cannot observe dependence on the clock, environment or addresses; process exits hide on error paths the tests do not reach",
     ["include/delfem2/*.h", "include/delfem2/*.cpp"],
     [("std::random_device / std::mt19937 / rand call sites", "include/delfem2/clusterpoints.cpp, sampling.h, color.h, mat3.cpp"), ("abort call sites", "include/delfem2/dtri2_v2dtri.cpp")],
     tech="call-graph reachability on the type-checked program",
     note="Whole-library call graph (virtual calls to all overrides, lambdas inlined in their function, templates by pattern and instance) in both modes. Four abort() sites of the current tree are recorded as known findings. Calls through std::function values supplied by the caller are outside.")

prop("C08", "Element topology tables describe the elements",
     "For every element type of the library (triangle, tetrahedron, quadrilateral, hexahedron, pyramid, wedge, voxel, line) the tables of nodes, faces and edges describe one and the same polyhedron: the numbers of nodes, faces, nodes per face and edges are right; faces are planar, lie on the boundary, point outwards and together close it, so that every edge is shared by exactly two faces; the edge tables list exactly the edges of the faces; triangle sides and tetrahedron faces are opposite to the node of their number; the six faces of hexahedra and voxels come in the order -x +x -y +y -z +z; every element type has its face and edge table; every further copy of such a table in the library obeys the same laws.",
     ["inputs"], "every element type, face and edge", "tests use triangles, a few tetrahedra and voxel grids; the tables of the other elements are never read",
     ["include/delfem2/mshelm.h", "include/delfem2/dtet_v3.h", "include/delfem2/gridvoxel.cpp", "include/delfem2/gridcube.cpp", "include/delfem2/isrf_iss.cpp", "include/delfem2/srch_bruteforce.cpp", "include/delfem2/point_on_surface_mesh.cpp"],
     [("noelElemFace_*, noelElemEdge_*, mapMeshElemType2*", "include/delfem2/mshelm.h"), ("copies", "include/delfem2/dtet_v3.h noelTetFace/noelHexFace; isrf_iss.cpp faceHex; gridvoxel.cpp, gridcube.cpp noelElemFace_Vox")],
     tech="algebraic laws decided on the constant tables of the type-checked program",
     note="Complete: every table entry is an obligation, evaluated by the compiler's front end from the current source.")

prop("C09", "Quadrature rules integrate their polynomials exactly",
     "Every quadrature table of the library integrates exactly, up to the printed digits of its constants, all polynomials of its degree: the 1- to 7-point Gauss-Legendre rules (degree 2n-1), the 15-point Kronrod rule (degree 22, nested in the 7-point rule), the triangle rules with 1, 3, 7, 12, 13 and 16 points (degrees 1, 2, 5, 6, 7, 8) and the tetrahedron rules with 1, 4, 5 and 16 points (degrees 1, 2, 3, 4), in single and double precision, weights normalised to the measure of the element; sampling points lie inside the element and the offset and count tables select exactly the points of each rule.",
     ["inputs"], "every polynomial up to the degree of each rule", "tests use one or two of the rules with smooth integrands and loose tolerances",
     ["include/delfem2/quadrature.h", "include/delfem2/bem.cpp"],
     [("kPositionWeight_*, TriGauss, TetGauss and their count/offset tables", "include/delfem2/quadrature.h, bem.cpp")],
     tech="moment equations in exact rational arithmetic on the constant tables of the type-checked program",
     note="Complete for the listed tables: all monomials up to the degree. How a kernel uses a rule is not covered.")

prop("C10", "Combinatorial tables obey their laws",
     "The tables of correspondences between two tetrahedra sharing a face (twelve orientation-reversing permutations, their inverses, lookup by corner pair) and of directed and undirected tetrahedron edges and their faces are mutually consistent; the marching-cubes tables list, for each of the 256 sign patterns, exactly the crossed edges and a patch that is closed inside the cell and leaves the same trace on a shared face in both cells, so extracted surfaces have no cracks; the octree tables of cell points, children, opposite faces, neighbours of children, faces and edges of neighbours agree with the positions they stand for; the separating-axis test tries all nine edge pairs of two triangles; index maps of symmetric tensors and shape-function derivatives are complete.",
     ["inputs"], "every entry of every table: all sign patterns, child positions, corner pairs", "tests extract a few surfaces and read a small part of the tables",
     ["include/delfem2/dtet_v3.h", "include/delfem2/isrf_adf.cpp", "include/delfem2/isrf_iss.cpp", "include/delfem2/gridvoxel.cpp", "include/delfem2/geo_gjksat3.h", "include/delfem2/fem_solidhyper.cpp", "include/delfem2/fem_stvk.cpp", "include/delfem2/geo_convhull3.h"],
     [("tetRel, invTetRel, noel2Rel, sEdge2*, dEdge2*", "include/delfem2/dtet_v3.h"), ("edgeTable, triTable", "include/delfem2/isrf_adf.cpp"), ("aCellPointDirection, adjFacePair, adjChildInside, edge2Face, edgePointFace, halfPyramidPtn", "include/delfem2/isrf_iss.cpp"), ("FaceToEdge", "include/delfem2/geo_gjksat3.h")],
     tech="algebraic laws decided on the constant tables of the type-checked program",
     note="Complete for the listed tables (each entry is an obligation). A table that is replaced by code is no longer covered; the check then reports it as absent.")

KFILES = ["include/delfem2/vec2.cpp", "include/delfem2/vec3.h", "include/delfem2/vec3_funcs.cpp", "include/delfem2/mat2.cpp", "include/delfem2/mat3.cpp", "include/delfem2/mat3_funcs.cpp", "include/delfem2/mat4.cpp", "include/delfem2/quat.cpp", "include/delfem2/geo_tri.cpp", "include/delfem2/geo_line.cpp", "include/delfem2/geo_edge.cpp", "include/delfem2/geo_plane.cpp", "include/delfem2/geo_tet.cpp", "include/delfem2/geo_quad.cpp", "include/delfem2/geo_ccd.cpp", "include/delfem2/geosolidelm_v3.cpp", "include/delfem2/femutil.cpp", "include/delfem2/fem_*.cpp", "include/delfem2/femcloth.cpp", "include/delfem2/pbd_geo3.cpp"]
KSET = ("vectors, matrices, quaternions and affine transforms (vec2, vec3, mat2, mat3, mat4, quat), distances, nearest points, intersections, areas, volumes, normals and barycentric coordinates of lines, edges, planes, triangles, quadrilaterals, tetrahedra, pyramids and wedges (geo_*, geosolidelm), "
        "and element/constraint energies, residuals and matrices of the finite-element kernels (femutil, Poisson/diffusion/Helmholtz, linear and hyperelastic solids, Stokes/Navier-Stokes, StVK, MIPS, bending, discrete shell, DKT/MITC3 plates, rods, beams, edge springs, cloth contact)")

prop("C11", "Geometric and element kernels are homogeneous in their units",
     "For the fixed-size kernels of the library - " + KSET + " - changing the unit of length, mass or time in which the inputs are given changes every result by exactly the power of that unit that belongs to its meaning (a length by L, an area by L^2, a tetrahedron volume by L^3, an inverse matrix by the inverse unit, a stiffness entry by force per displacement, ...). No kernel adds, compares or chooses between quantities measured in different units, or takes a transcendental function of a quantity with a unit.",
     ["inputs"], "every input of every listed kernel, and every choice of unit system",
     "tests compare results at sample points in one unit system; a wrong power of a length that happens to be 1 there, or a term missing a factor, is invisible",
     KFILES, [("kernels listed with the grade of each argument and result", "checks: spec/kernels.py; code: the *.cpp files above")],
     tech="dimension inference (abstract interpretation over unit exponents) on the compiler IR of each kernel",
     note="Flow-sensitive fixpoint over the optimised IR of 336 kernels with calls inlined; every one of about 9 500 result components is decided. Ten kernels that mix units by construction (homogeneous 4x4 inverse, look-at, MIPS with a free scale, line-line with denominators) are exempt, see spec/kernels.py. Numeric factors and signs are not decided.")

prop("C12", "Geometric and element kernels commute with mirroring",
     "For the same kernels as the unit property - " + KSET + " - mirroring the inputs along any coordinate axis mirrors the results: vector results flip exactly the mirrored component, axial vectors (cross products, normals, rotation vectors) the other ones, matrices in the mirrored row/column, signed areas and volumes change sign and distances, energies and true scalars do not change. Kernels that choose a side or sign by convention (minimum rotation, frame from a normal, quaternion or rotation axis of a matrix, contact tests) are excepted.",
     ["inputs"], "every input and every coordinate axis",
     "tests check sample values; swapped components, a y used for an x or a dropped term keep many samples plausible",
     KFILES, [("kernels listed with the tensor type of each argument and result", "checks: spec/kernels.py; code: the *.cpp files above")],
     tech="algebraic global value numbering (mirrored inputs) and parity inference on the compiler IR of each kernel",
     note="The normal form of every result under mirrored inputs must be the mirrored normal form; a parity inference (Z2 gradings) decides what the numbering leaves open. Fingerprints of normal forms are exact up to a collision probability below 1e-15. 18 kernels exempt (listed in spec/kernels.py). Numeric factors are not decided.")

prop("C13", "Geometric and element kernels do not depend on the origin",
     "For the same kernels as the unit property - " + KSET + " - translating all input points by one vector translates every resulting point by that vector and leaves all other results (lengths, areas, volumes, normals, parameters, energies, forces, stiffness matrices) unchanged: only differences of positions are measured, and no decision is taken by a quantity that depends on the origin.",
     ["inputs"], "every input and every translation",
     "tests place their shapes near the origin, where a missing subtraction changes little or nothing",
     KFILES, [("kernels listed with positions and directions told apart", "checks: spec/kernels.py; code: the *.cpp files above")],
     tech="algebraic global value numbering with derivations along translations on the compiler IR of each kernel",
     note="Every value is numbered by its rational normal form together with its derivative along a symbolic translation. Fingerprints of normal forms are exact up to a collision probability below 1e-15. About 99.9% of the result components are decided, the rest is reported as undecided in the evidence and never alarms.")

prop("C14", "Kernels assign all their results and stay inside their arrays",
     "For the same kernels as the unit property - " + KSET + " - every component of every output argument is assigned on every path, no local cell is read before it is set, and every access at a known position lies inside the array it addresses (arguments with the sizes the interface implies, local arrays, constant tables). Kernels documented to leave outputs alone when there is no solution (intersection queries, inverse of a singular 2x2 matrix, barycentric coordinates outside) are excepted from the first part.",
     ["inputs"], "every path of every listed kernel",
     "an entry that is never written usually holds zero or the previous test's value; an over-read is silent without instrumentation",
     KFILES, [("kernels listed with the extent of each argument", "checks: spec/kernels.py; code: the *.cpp files above")],
     tech="definite-assignment and constant-offset bounds analysis on the compiler IR of each kernel",
     note="Accesses whose position depends on run-time integers are not judged. Eight kernels are exempt from the assignment part.")

prop("C15", "Geometric and element kernels commute with rotations",
     "For the same kernels as the unit property - " + KSET + " - rotating all inputs (points, vectors, axial vectors, matrices and quaternions, each in the way of its kind) by any rotation rotates every result in the way of its kind: points and vectors turn, matrices and Hessian blocks turn in rows and columns, and lengths, areas, volumes, parameters, energies and scalars stay. Operations that are tied to the coordinate axes by definition (component-wise product, axis-aligned cells and elements, extraction of Euler angles or of a quaternion or rotation vector by convention) are excepted.",
     ["inputs"], "every input and every rotation",
     "tests compare results at sample points, mostly axis-aligned; swapped components, a transposed matrix or a lost term in one component stay plausible there",
     KFILES, [("kernels listed with the tensor type of each argument and result", "checks: spec/kernels.py; code: the *.cpp files above")],
     tech="algebraic global value numbering with derivations along rotations on the compiler IR of each kernel",
     note="Every value is numbered by its normal form together with its derivative along a symbolic infinitesimal rotation of all inputs, which generates every rotation. Fingerprints are exact up to a collision probability below 1e-15. Kernels exempt: see skip 'rot' in spec/kernels.py. Coefficients multiplying covariant terms are not decided here (C16, C17).")

prop("C16", "Element gradients and Hessians are derivatives of their energies, symmetric",
     "For every element, material, rod, shell, constraint and dissipation kernel that returns an energy (or constraint, or residual) together with first or second derivatives, the returned gradient is the derivative of the returned energy, and the returned Hessian or tangent matrix is the derivative of the returned gradient, with respect to the variables and in the index order the interface defines; Hessians and stiffness matrices that derive from an energy are symmetric. Hessians documented as approximations (Gauss-Newton rods, projected, lagged or linearised terms) are held to what they are: symmetric, or the stated part of the derivative.",
     ["inputs"], "every configuration away from degenerate ones, every material parameter and every variation",
     "tests compare finite differences at random configurations with loose tolerances, for few of the kernels; several kernels have no test at all",
     KFILES, [("kernels with energy, gradient and Hessian, and their laws", "checks: spec/laws.py list D; code: include/delfem2/fem_*.h, femsolidlinear.h, pbd_geo3.h, defarapenergy_geo.h, fem_rod3_*.h")],
     tech="algebraic global value numbering with forward derivatives on the compiler IR of each kernel",
     note="A value is numbered by its normal form (a fingerprint in a prime field, exact up to a collision probability below 1e-15) together with the normal form of its derivative along a symbolic variation; the law compares the derivative with the returned derivative contracted with the same variation. Branches on tolerances take the non-degenerate side. No kernel is run and no solver is used.")

prop("C17", "Geometric and algebraic kernels satisfy their defining equations",
     "Vector, matrix, rotation, quaternion, affine-transform, triangle, quadrilateral, tetrahedron, pyramid and prism kernels satisfy the equations that define them for every non-degenerate input: inverses times their matrix are the identity; rotations are orthonormal with determinant one and turn about the given axis by the given angle; conversions between rotation representations agree and round-trip; areas, heights, volumes and normals agree with the cross product; circumcentres are equidistant; barycentric coordinates reproduce the point and sum to one; nearest points are orthogonal to what they are nearest on; intersections lie on both objects; a step of an iterative search solves its linearised problem.",
     ["inputs"], "every non-degenerate input",
     "tests sample random inputs for a part of the operations; many operations have no test",
     KFILES, [("kernels with their defining equations", "checks: spec/laws.py list I; code: include/delfem2/vec2.h, vec3.h, vec3_funcs.h, mat2.h, mat3.h, mat3_funcs.h, mat4.h, quat.h, geo_*.h, femutil.h")],
     tech="algebraic global value numbering on the compiler IR of each kernel",
     note="Both sides of the equation are numbered by normal forms (fingerprints in a prime field, exact up to a collision probability below 1e-15); square roots, sines, cosines and their inverses obey their defining relations. Branches on tolerances take the non-degenerate side; order comparisons are taken in both outcomes. No kernel is run and no solver is used.")

prop("C19", "Element matrices and residuals agree with the weak form",
     "For every input the shape functions, gradients, mass, stiffness, diffusion, wave, elasticity and flow matrices of the finite-element kernels (femutil, Poisson/diffusion, Helmholtz, linear solids on triangles, quadrilaterals, tetrahedra, quadratic tetrahedra and hexahedra, Stokes, Navier-Stokes) equal what the weak form of their equation prescribes: shape functions are one at their node and zero at the others; linear elements give the exact integrals of the products of their gradients, consistent or lumped masses and body forces; higher elements reproduce the exact nodal forces and stresses of linear (and where representable quadratic) displacements; residuals equal load minus matrix times unknowns, and time-stepping versions combine mass, damping and stiffness with the factors of their scheme.",
     ["inputs"], "every element shape, nodal value, time step and material parameter",
     "tests solve a few problems and look at energy decay or symmetry; a wrong factor in one entry or an exchanged material parameter gives a plausible solution",
     KFILES[-4:] + ["include/delfem2/fem_poisson.h", "include/delfem2/fem_helmholtz.h", "include/delfem2/fem_solidlinear.h", "include/delfem2/fem_stokes.h", "include/delfem2/fem_navierstokes.h"],
     [("element kernels with their reference forms", "checks: spec/laws.py list F; code: include/delfem2/femutil.*, fem_*.h")],
     tech="algebraic global value numbering on the compiler IR of each kernel",
     note="Both sides are numbered by normal forms (fingerprints in a prime field, exact up to a collision probability below 1e-15). The stabilisation parameter of the flow elements is taken from the element itself and only its distribution over the entries is judged. No kernel is run and no solver is used.")

prop("C20", "Curves, splines and surfaces agree with their defining recursions",
     "Quadratic and cubic Bezier curves, uniform and open B-splines, Catmull-Rom splines and Bezier, Coons and Hermite patches give, for all control points and parameters, the point, tangent, split, sampled polyline, enclosed area or arc length that the defining recursion (de Casteljau, Cox-de Boor, Hermite interpolation) prescribes; patches run along the curves on their edges; lengths of straight pieces are exact and are defined for every speed along them.",
     ["inputs"], "every set of control points and every parameter",
     "tests sample random curves of few sizes; segments near the ends of a spline, edges of a patch and degenerate speeds are not visited",
     ["include/delfem2/geo_curve_cubic.h", "include/delfem2/geo_curve_quadratic.h", "include/delfem2/geo_curve_ndegree.h", "include/delfem2/geo_surface_parametric.h"],
     [("curve and surface functions with their recursions", "checks: spec/laws.py list V; code: include/delfem2/geo_curve_*.h, geo_surface_parametric.h")],
     tech="algebraic global value numbering on the compiler IR of each kernel",
     note="Spline coefficient functions are compared for all segments of curves of up to six segments, point evaluations at three parameters per segment; everything else as identities in the parameter. Gauss rules with more than three points enter through C09. Nearest-parameter searches (root isolation) are not covered.")

prop("C18", "Double-precision computations stay in double precision",
     "In the core library a quantity held in double precision is never passed through single precision unless the interface of the operation itself mentions single precision; a floating-point quantity is never silently turned into an integer; and a ratio whose result is used as a floating-point number is never computed by integer division.",
     ["inputs"], "every input value: the loss shows for values with more than 24 significant bits or non-integral ones",
     "tests compare with tolerances around 1e-3..1e-5 and with small or integral values, where the loss disappears",
     ["include/delfem2/*.h", "include/delfem2/*.cpp"],
     [("conversions in double kernels and float/double overloads", "throughout include/delfem2")],
     tech="implicit/explicit conversion analysis on the type-checked program",
     note="Every conversion of the type-checked library (templates instantiated for float and double) is judged. Explicit casts to integer (index computation) are taken as intended; an explicit narrowing to float in an operation whose interface mentions float is allowed.")

prop("C21", "Mesh assembly adds every element contribution once, at its nodes",
     "Assembling functions (Poisson, diffusion, Helmholtz with radiation boundary, linear solids on triangles, tetrahedra and hexahedra in statics and time stepping, stiffness warping, Stokes, Navier-Stokes, plate bending, cloth, contact, hair) add to the global matrix and right-hand side exactly the element contributions of every element of the mesh: each once, at the rows and columns of its nodes, computed from the coordinates, nodal values and parameters of that element; entries of nodes not in an element are unchanged.",
     ["inputs"], "all node positions, nodal values and parameters, on the enumerated connectivities",
     "tests assemble a few meshes and look at convergence of the solver; a contribution added at the wrong node or a value read from the wrong one gives a solvable system",
     ["include/delfem2/fem_poisson.h", "include/delfem2/fem_helmholtz.h", "include/delfem2/fem_solidlinear.h", "include/delfem2/fem_stokes.h", "include/delfem2/fem_navierstokes.h", "include/delfem2/fem_mitc3.h", "include/delfem2/femcloth.h", "include/delfem2/fem_distance3.h"],
     [("assembling functions with their reference sums", "checks: spec/laws.py list A; code: include/delfem2/fem_*.h")],
     tech="algebraic global value numbering on the compiler IR of each kernel",
     note="Connectivities are enumerated (small meshes whose elements share nodes in permuted order); coordinates, values and parameters are symbolic and both sides are numbered by normal forms (fingerprints in a prime field, exact up to a collision probability below 1e-15). The element functions themselves are judged by C19. No kernel is run and no solver is used.")

prop("C22", "Block sparse matrices behave as the dense matrix they store",
     "For every block size, pattern and values: products of a block sparse matrix or its transpose with a vector (real and complex, with the scale factors of both operands), fixing of rows, columns and diagonal blocks, shifts, lumped masses, block and entry scaling, copies, the symmetry measure, merging of element matrices (square, rectangular, rows and columns in any order, fixed or run-time sizes), elimination of slave unknowns and the matching operations on vectors give what the same operation gives on the dense matrix; merging leaves its work buffer clean.",
     ["inputs"], "all entries and scale factors, for the enumerated block sizes and patterns",
     "each block size has a loop of its own and tests use one or two of them with symmetric values; a transposed index in a rarely used size passes",
     ["include/delfem2/ls_block_sparse.h", "include/delfem2/ls_block_sparse.cpp", "include/delfem2/ls_masterslave.h", "include/delfem2/vecxitrsol.h", "include/delfem2/vecxitrsol.cpp", "include/delfem2/view_vectorx.h"],
     [("sparse matrix operations with their dense reference", "checks: spec/laws.py list S; code: include/delfem2/ls_block_sparse.*, ls_masterslave.*, vecxitrsol.*, view_vectorx.h")],
     tech="algebraic global value numbering on the compiler IR of each kernel",
     note="Patterns and block sizes are enumerated, values are symbolic; both sides are numbered by normal forms (fingerprints in a prime field, exact up to a collision probability below 1e-15). No kernel is run and no solver is used.")

prop("C23", "Construction leaves no member uninitialised and copies never release twice",
     "After construction every scalar data member of an object of a core-library class holds a defined value (plain records without constructors excepted), and no class whose destruction releases a resource can be copied member by member.",
     ["histories", "programs"], "every sequence of construct, copy, use, destroy on any class",
     "reading an unset member often gives zero in a fresh test process, and tests rarely copy objects that own resources",
     ["include/delfem2/*.h", "include/delfem2/*.cpp"],
     [("constructors and in-class initialisers", "include/delfem2/*.h"), ("destructors that release", "include/delfem2/dtet_v3.h, parse_math_expression.h, eigen-free containers")],
     tech="must-assign analysis over constructors + copy-operation query",
     note="All constructors of all library classes in both modes; assignment through the initialiser list, in-class initialisers, the body and members it calls counts. Members that are arrays filled element-wise by a loop count as assigned.")

prop("C24", "Linear solvers return vectors that satisfy their system",
     "For every non-degenerate system: block tridiagonal and pentadiagonal solvers return the solution, also with fixed unknowns and after merging element matrices; the incomplete factorisation is exact where its pattern holds all fill and otherwise drops exactly the entries outside its pattern, for every block size, real or complex, and applied component by component; conjugate gradients, biconjugate gradients and their preconditioned and complex versions keep the residual equal to right-hand side minus matrix times solution, report its size relative to the start, follow the published recurrence, and solve a system exactly in as many steps as it has unknowns.",
     ["inputs"], "all matrix entries and right-hand sides, for the enumerated sizes, patterns and step counts",
     "an iterative solver with a wrong factor still converges, only slower; a preconditioner with a wrong entry only costs iterations; tests look at the final residual of one system",
     ["include/delfem2/ls_tridiagonal.h", "include/delfem2/ls_pentadiagonal.h", "include/delfem2/ls_ilu_block_sparse.h", "include/delfem2/ls_ilu_block_sparse.cpp", "include/delfem2/lsitrsol.h", "include/delfem2/vecxitrsol.h"],
     [("solvers with the systems they solve", "checks: spec/laws.py list L; code: include/delfem2/ls_*.h, lsitrsol.h, vecxitrsol.h")],
     tech="algebraic global value numbering on the compiler IR of each kernel",
     note="Sizes, patterns and step counts are enumerated, entries are symbolic; the equations are formed again from the entries and the vector returned and numbered by normal forms (fingerprints in a prime field, exact up to a collision probability below 1e-15). Rounding and convergence speed are not judged. No kernel is run and no solver is used.")

prop("C25", "Operations on meshes, polylines, grids and bones equal their definitions",
     "For all coordinates and values: scaling, moving, rotating and normalising point sets; centres of gravity, areas, volumes, solid angles, bounding boxes, centre and width of meshes and their parts; vertex and face normals; lumped masses; extrusion, copying and unindexing of meshes; Laplacian smoothing; Catmull-Clark and midpoint subdivision; length, area, centre and moments of polygons and polylines, nearest points, arc lengths, smoothing, resampling and winding numbers on them; interpolation, divergence and pressure correction on grids; position-based constraints of points and rigid bodies; bone hierarchies, their affine matrices and linear blend skinning in all storage formats; as-rigid-as-possible and Laplacian deformation (energy, system matrix, preconditioner) each give exactly the value of their definition.",
     ["inputs"], "all coordinates, weights, rotations and nodal values, on the enumerated connectivities and sizes",
     "tests look at round numbers of one mesh or only at the fact that nothing crashes; a wrong weight at one vertex changes a result in a way that still looks like a deformed mesh",
     ["include/delfem2/msh_affine_transformation.cpp", "include/delfem2/msh_center_of_gravity.h", "include/delfem2/msh_boundingbox.h", "include/delfem2/msh_normal.h", "include/delfem2/mshmisc.cpp", "include/delfem2/mshsubdiv.cpp", "include/delfem2/rig_geo3.cpp", "include/delfem2/geo_polygon2.cpp", "include/delfem2/geo_polyline.h", "include/delfem2/deflap.h", "include/delfem2/defarap.h", "include/delfem2/pbd_geo3.h", "include/delfem2/fdm_array2.h"],
     [("operations with their definitions", "checks: spec/laws.py list M; code: include/delfem2/msh_*, mshmisc.*, mshsubdiv.*, rig_geo3.*, geo_polygon2.*, geo_polyline.*, defarap.*, deflap.*, pbd_*")],
     tech="algebraic global value numbering on the compiler IR of each kernel",
     note="Connectivities and sizes are enumerated, coordinates and values are symbolic; both sides are numbered by normal forms (fingerprints in a prime field, exact up to a collision probability below 1e-15). Configurations are non-degenerate. No kernel is run.")

prop("C26", "Read-only arguments are never written through",
     "No operation of the core library writes to data it receives as read-only: constness is never removed from a pointer or reference by a cast.",
     ["inputs", "schedules"], "every call with read-only data, including data shared between threads",
     "tests do not compare read-only inputs before and after a call",
     ["include/delfem2/*.h", "include/delfem2/*.cpp"],
     [("const qualifiers on parameters and methods; no casts removing them", "throughout include/delfem2")],
     tech="cast query over the type-checked program (the type system does the rest)",
     note="Together with the language's own rules this decides the property for everything but untyped memory copies; C05 covers mutable members.")

prop("C27", "Every operation returns a defined value on every path",
     "Every value-returning function of the core library returns a value on every path, in the checked and the unchecked build; no local variable is read before it is set on some path; no function returns the address of its own local data, recurses unconditionally, or releases memory with the wrong operator.",
     ["inputs", "configurations"], "every path of every function, with assertions on and off",
     "paths behind failed assertions or unusual inputs are not executed by the tests, and tests run in one configuration",
     ["include/delfem2/*.h", "include/delfem2/*.cpp"],
     [("control flow of every function", "include/delfem2/*.cpp, *.h")],
     tech="compiler control-flow analyses configured as a rule set",
     note="clang's CFG-based analyses over every function body in both modes, with and without NDEBUG; template bodies by pattern and instantiation. Reads through pointers and array elements are outside these analyses.")

prop("C28", "Fields, cameras, bounding volumes and special functions equal their definitions",
     "For all arguments: finite difference fluid steps (advection weights, divergence, pressure, Gauss-Seidel), boundary element matrices and fields of potential flow, vortex sheets and Helmholtz problems, vortex particles, grid transfer weights and their derivatives, mean value coordinates, camera and projection matrices and the derivatives of screen coordinates, trackball rotation, axis-aligned boxes and bounding balls (growth, distance, containment, overlap, measures), polynomial values and Sturm sequences, Legendre functions, spherical harmonics and Hankel coefficients, colour maps, image gradients and strided tensor views give exactly the value of their definition.",
     ["inputs"], "all arguments; sizes, orders and grid shapes are enumerated",
     "these functions are looked at in demos; the tests cover few of them, and a wrong factor still gives a smooth field, a plausible view or a slightly larger box",
     ["include/delfem2/fdm_stablefluids.h", "include/delfem2/bem.cpp", "include/delfem2/grid3hash.h", "include/delfem2/cagedef.h", "include/delfem2/cam_modelview.h", "include/delfem2/cam_projection.h", "include/delfem2/cvcamera.h", "include/delfem2/srch_bv3_aabb.h", "include/delfem2/srch_bv3_sphere.h", "include/delfem2/srch_bv2_aabb.h", "include/delfem2/specialfuncs.cpp", "include/delfem2/polynomial_root.h", "include/delfem2/color.cpp"],
     [("functions with their definitions", "checks: spec/laws.py list G; code: include/delfem2/fdm_*.h, bem.*, cagedef.h, cam_*.h, srch_bv*.h, specialfuncs.*, polynomial_root.h, color.*, viewtensor.h")],
     tech="algebraic global value numbering on the compiler IR of each kernel",
     note="Sizes, orders and grid shapes are enumerated, arguments are symbolic; both sides are numbered by normal forms (fingerprints in a prime field, exact up to a collision probability below 1e-15). Root isolation, hash tables and trees are not covered. No kernel is run.")

NA = []


def na(id, title, statement, over, forall, why, files, mech, reason):
    prop(id, title, statement, over, forall, why, files, mech, reason=reason)


na("N01", "Iterative solvers reach their tolerance in floating point",
   "Conjugate gradient, BiCGStab and their preconditioned variants return a vector whose residual is below the requested tolerance whenever they report convergence.",
   ["inputs"], "all symmetric positive definite (resp. regular) systems", "a few sample matrices are solved", ["include/delfem2/lsitrsol.h", "include/delfem2/vecxitrsol.h"],
   [("Solve_CG, Solve_PCG, Solve_BiCGStab", "include/delfem2/lsitrsol.h")],
   "convergence is a numerical property of runtime data (spectra, rounding); no static argument in reach bounds it. The algebra of the steps (residual recurrences, exactness after n steps) is claimed as C24")
na("N03", "Bounding-volume searches agree with exhaustive search",
   "Ray, range and nearest queries through the bounding-volume hierarchies, the spatial hash grid and the kd-tree return exactly what exhaustive search over all elements returns.",
   ["inputs"], "all meshes and queries", "random meshes compared with brute force", ["include/delfem2/srch_bvh.h", "include/delfem2/srch_bruteforce.h"],
   [("BVH traversal", "include/delfem2/srch_bvh.h")],
   "depends on geometric predicates over runtime coordinates; the traversal's correctness is not visible in its shape")
na("N04", "Triangulation and remeshing keep a consistent, Delaunay mesh",
   "After any sequence of point insertions, edge flips, collapses and smoothing the dynamic triangle/tetrahedron mesh has mutually consistent adjacency and (2D) satisfies the Delaunay criterion.",
   ["histories"], "all edit histories", "a few meshes are edited and checked", ["include/delfem2/dtri_topology.cpp", "include/delfem2/dtri2_v2dtri.cpp", "include/delfem2/dtet_v3.cpp"],
   [("edit operations", "include/delfem2/dtri_topology.cpp")],
   "a shape invariant over index arrays with data-dependent adjacency; shape analysis for such meshes is out of reach, tables used by the edits are decided by the table checks")
na("N05", "Files written by the library are read back unchanged",
   "Meshes, motions, images and SVG outlines written by the library and read back by the matching reader give the same data up to printed precision.",
   ["inputs"], "all meshes/motions", "one or two files round-trip in tests", ["include/delfem2/msh_io_obj.cpp", "include/delfem2/msh_io_ply.cpp", "include/delfem2/rig_bvh.cpp"],
   [("readers/writers", "include/delfem2/msh_io_obj.cpp")],
   "round-trip equality of runtime values; the index-base and element-arity agreement of readers/writers is the only structural clause")
na("N06", "Readers reject or survive malformed files",
   "For every byte sequence the readers return an error or a mesh with in-range indices, without out-of-bounds access.",
   ["inputs"], "all byte sequences", "only well-formed sample files are read", ["include/delfem2/msh_io_obj.cpp", "include/delfem2/rig_bvh.cpp", "include/delfem2/cad2_io_svg.cpp"],
   [("readers", "include/delfem2/msh_io_obj.cpp")],
   "today's readers do not validate content at all (indices and counts are trusted by design), so the property does not hold and no small rule would make it decidable")
na("N07", "Polar decomposition, SVD and eigen decompositions reproduce the matrix",
   "The factors returned for any 3x3 matrix are orthogonal (resp. symmetric) and multiply to the input.",
   ["inputs"], "all matrices", "random matrices", ["include/delfem2/svd3.h", "include/delfem2/mat3.cpp"], [("svd3, polar", "include/delfem2/svd3.h")],
   "numerical identity over iterative algorithms")
na("N08", "CAD edits keep a valid boundary representation",
   "Every sequence of vertex, edge and face edits of 2D/3D CAD bodies leaves loops closed and ids consistent, undo restores the previous state.",
   ["histories"], "all edit sequences", "short scripted sequences", ["include/delfem2/cad2.cpp", "include/delfem2/cadtopo.h", "include/delfem2/cad3d.cpp"], [("topology edits", "include/delfem2/cadtopo.h")],
   "typestate over runtime id graphs; not visible in the code's shape")
na("N09", "GPU kernels agree with the CPU implementation",
   "CUDA kernels return the same results as their CPU counterparts.",
   ["inputs"], "all inputs", "no GPU in tests", ["include/delfem2/cuda"], [("kernels", "include/delfem2/cuda")],
   "numerical equality of two programs; no CUDA front end is available offline")
