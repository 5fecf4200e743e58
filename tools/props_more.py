GEO = [S + "intrinsic_geometry_interface.cpp", S + "extrinsic_geometry_interface.cpp", S + "embedded_geometry_interface.cpp",
       S + "base_geometry_interface.cpp", I + "vertex_position_geometry.ipp", I + "edge_length_geometry.ipp"]
prop("C07", "Metric and curvature quantities of a geometry have their defining values",
     "For every triangle mesh (manifold or not, with boundary, given by vertex positions or by edge lengths alone) the lengths, areas, angles, angle sums, scaled angles, curvatures, cotan weights and length scales equal their textbook definitions, both as cached quantities and as immediate evaluations, and the total curvature satisfies Gauss-Bonnet. "
     "Normals, dihedral angles, mean/principal curvatures and mean curvature normals equal their definitions for embedded meshes (face normals, areas and corner angles also for polygons), and copying a geometry preserves all of them.",
     ["inputs"], "all triangle meshes without slivers, all scales, boundary configurations and index layouts, Delta-complexes for edge lengths; polygon meshes for the extrinsic polygon quantities",
     WHY.format("the space of meshes and metrics"),
     GEO, [("intrinsic quantities", S + "intrinsic_geometry_interface.cpp"), ("extrinsic quantities", S + "extrinsic_geometry_interface.cpp"),
           ("immediate evaluations", I + "vertex_position_geometry.ipp")],
     ["values of the quantities by element handle"],
     note="differential against a long-double oracle; triangles with angles above 0.04-0.12 rad")
prop("C08", "Discrete differential operators equal their finite-element definitions",
     "On every triangle mesh the cotan Laplacian, lumped and Galerkin mass matrices, vertex/face/Crouzeix-Raviart connection Laplacians and mass matrices and the DEC operators equal the matrices assembled from the metric, entry by entry, with rows and columns in the iteration order of the elements. "
     "In particular they are symmetric or Hermitian, positive semidefinite, have the documented kernels (constants; parallel fields on flat meshes), the mass matrices sum to the surface area, and d1*d0 = 0.",
     ["inputs"], "all triangle meshes (manifold, nonmanifold, with boundary, with gaps in the index space, Delta-complexes) and scales",
     WHY.format("the space of meshes and metrics"),
     GEO, [("operators", S + "intrinsic_geometry_interface.cpp")],
     ["sparse matrices"], note="differential against matrices assembled per triangle in long double; up to ~240 faces")
prop("C09", "Cached geometric quantities are always those of the current input",
     "Whatever the order and nesting of require, unrequire, purge and refresh calls on a geometry, every required quantity equals what a newly built geometry would compute, requiring one quantity never changes the value of another, and after the input or the mesh was edited refreshQuantities() makes every required quantity correct again. "
     "Quantities stay available as long as their requirements are not all released, purgeQuantities() releases everything else, and an unbalanced unrequire is reported without upsetting later requirements.",
     ["histories"], "all histories of require/unrequire/purge/refresh, input changes and mesh edits, over all quantities",
     WHY.format("the orders in which quantities are requested"),
     [U + "dependent_quantity.h", U + "dependent_quantity.ipp"] + GEO[:4],
     [("dependency management", U + "dependent_quantity.ipp"), ("dependency declarations", S + "intrinsic_geometry_interface.cpp")],
     ["values of required quantities after every step"],
     technique="stateful model-based property testing",
     note="histories of up to 16 steps over ~50 quantities, compared with a fresh geometry after every step")
prop("C10", "Tangent spaces and parallel transport follow the intrinsic geometry",
     "Halfedge vectors in faces and vertices are the polar coordinates of the edges in the (rescaled) intrinsic metric with the first halfedge as x-axis, and transport rotations map the coordinates of each halfedge to those of its reverse, so that transport around a face or vertex accumulates exactly the enclosed curvature. "
     "Extrinsic tangent bases are orthonormal, right-handed, perpendicular to the normal and consistent with the intrinsic coordinates; quantities at boundary elements without a counterpart are marked undefined.",
     ["inputs"], "all triangle meshes and metrics, including Delta-complexes and meshes with boundary",
     WHY.format("the space of meshes and metrics"),
     GEO, [("tangent quantities", S + "intrinsic_geometry_interface.cpp"), ("tangent bases", S + "embedded_geometry_interface.cpp")],
     ["values of the quantities by element handle"], note="differential against long-double polar coordinates, plus holonomy identities")
prop("C11", "Polygon-mesh operators satisfy their defining identities",
     "On meshes of arbitrary polygons (any scale and position, manifold or not) both families of polygon operators equal their per-polygon definitions: virtual refinement with the minimiser of the squared fan areas and least-norm weights, and the virtual-element gradient, divergence, inner products, Laplacian, DEC operators and connection Laplacian. "
     "They are symmetric or Hermitian and positive semidefinite, have constants (parallel fields on planar meshes) in their kernel, differentiate linear functions exactly, have total mass equal to the area, and the Laplacians reduce to the cotan Laplacian on triangle meshes.",
     ["inputs"], "all polygon meshes whose faces have a well-defined normal, all scales and positions",
     WHY.format("the space of polygon shapes and scales"),
     [S + "embedded_geometry_interface.cpp", S + "polygon_mesh_helpers.cpp"],
     [("polygon operators", S + "embedded_geometry_interface.cpp"), ("virtual vertex", S + "polygon_mesh_helpers.cpp")],
     ["sparse matrices", "tangent bases"], note="differential against long-double per-polygon assembly, plus algebraic identities")

N = "src/numerical/"
NI = "include/geometrycentral/numerical/"
prop("C12", "Linear solvers and eigensolvers return the solution of the posed problem",
     "For every real or complex (float, double, complex<double>) sparse matrix in whatever storage state, SquareSolver, PositiveDefiniteSolver and Solver return the solution, least-squares solution or minimum-norm solution of each successive right-hand side up to rounding, leave the matrix unchanged, report its rank, and reject non-square, non-Hermitian, non-finite or wrongly sized input. "
     "The eigensolvers return mass-normalised eigenvectors at the requested end of the spectrum (mutually orthogonal ones in order for the k-vector variants, within the requested tolerance for the tolerance variant) and always terminate.",
     ["inputs"], "all matrices of moderate condition, all scalar types, scales and storage layouts; repeated right-hand sides",
     WHY.format("the space of matrices"),
     [N + "square_solvers.cpp", N + "positive_definite_solvers.cpp", N + "qr_solvers.cpp", N + "eigenproblem_solvers.cpp", N + "suitesparse_utilities.cpp", N + "linear_solvers.cpp"],
     [("direct solvers", N + "square_solvers.cpp"), ("QR", N + "qr_solvers.cpp"), ("power iterations", N + "eigenproblem_solvers.cpp")],
     ["returned vectors, ranks and exceptions"], note="differential against dense LU/SVD; sizes up to 45; the SuiteSparse back end that the build selects")
prop("C13", "Linear-algebra utilities are exact and reversible",
     "Block decomposition and reassembly, stacking, identity, diagonal shift and complex/real conversion produce exactly the entries their definitions prescribe for every matrix shape (including empty ones), and decomposing then reassembling, or converting to real and back, is the identity. "
     "Saving a sparse or dense matrix and loading it reproduces shape and entries to 16 digits, the finite/symmetric/Hermitian checks reject exactly the matrices that violate them, and damaged matrix files are refused rather than read out of bounds.",
     ["inputs"], "all matrix shapes and scalar types, all index partitions; arbitrarily damaged text files",
     WHY.format("the space of matrices and files"),
     [NI + "linear_algebra_utilities.ipp", N + "linear_algebra_utilities.cpp"],
     [("blocks, stacking, IO, checks", NI + "linear_algebra_utilities.ipp"), ("complex/real", N + "linear_algebra_utilities.cpp")],
     ["returned matrices, vectors, text and exceptions"], note="model-based against dense matrices; round trips; mutated files under AddressSanitizer")

INT = [S + "intrinsic_triangulation.cpp", S + "signpost_intrinsic_triangulation.cpp", S + "integer_coordinates_intrinsic_triangulation.cpp", S + "normal_coordinates.cpp"]
prop("C14", "Intrinsic triangulations stay valid triangulations of the same surface",
     "Under any history of edge flips, vertex insertions, edge splits, removals of inserted vertices, Delaunay flips and Delaunay refinement, with or without marked edges, a signpost or integer-coordinates triangulation remains a valid triangulation of the input surface: positive finite lengths obeying the triangle inequality, unchanged area, topology, cone angles and original vertices, consistent tangent data, and fixed edges never flipped. "
     "Every operation does what it documents (the flip of a convex quad, exact new edge lengths, returned elements, callbacks), flipToDelaunay yields a Delaunay triangulation, and delaunayRefine meets its angle, radius and insertion bounds where they are guaranteed.",
     ["histories"], "all histories over connected triangle meshes (closed or with boundary, any genus, scale, positions or lengths) in general position",
     WHY.format("histories of mutations"),
     INT, [("shared mutators and queries", S + "intrinsic_triangulation.cpp"), ("signposts", S + "signpost_intrinsic_triangulation.cpp"), ("integer coordinates", S + "integer_coordinates_intrinsic_triangulation.cpp")],
     ["edge lengths, connectivity, angle sums, signposts", "return values and callbacks"],
     technique="stateful model-based property testing",
     note="histories of up to 14 operations, invariants and an independent length/angle oracle after each; signposts against integer coordinates in lockstep; triangles thinner than 0.01 rad and splitting edges of faces glued to themselves are excluded")
prop("C15", "Correspondence between an intrinsic triangulation and its input is exact",
     "After any history of mutations, every point maps to the same place on the surface: vertex locations, equivalent points in both directions and traced edges have the intrinsic lengths and end points (for planar input, the exact planar position), and traced edges are reported identically one by one and all together. "
     "The common subdivision is a valid refinement of both meshes with exact element counts, areas, lengths, source faces and crossings, its interpolation matrices and attribute transfer (pointwise, and L2 as the best approximation) are the ones it defines, and it always reflects the current triangulation.",
     ["histories"], "all histories over connected triangle meshes in general position whose triangulations are simplicial complexes; signposts with inserted vertices inside input faces",
     WHY.format("histories of mutations"),
     INT + [S + "common_subdivision.cpp", S + "transfer_functions.cpp", S + "trace_geodesic.cpp"],
     [("tracing and point maps", S + "integer_coordinates_intrinsic_triangulation.cpp"), ("subdivision", S + "common_subdivision.cpp"), ("transfer", S + "transfer_functions.cpp")],
     ["surface points and paths", "subdivision mesh, matrices, transferred data"],
     technique="stateful model-based property testing",
     note="histories of up to 8 operations; oracles: the plane, the lengths of both sides, an independent dense mass matrix")
prop("C16", "Traced geodesics are the straight lines of the surface",
     "From every vertex, edge or face point and for every tangent vector, traceGeodesic follows the straight line of the unfolded surface: it reports exactly the edges crossed in order with their parameters, the end point, the direction in the tangent space of the end point and the length travelled. "
     "It stops exactly at boundaries, barrier edges and iteration limits, a zero vector does not move, tracing back returns to the start, and trimTraceResult cuts a trace that ends at a vertex back to the entry of its one-ring.",
     ["inputs"], "all triangle metrics including Delta-complexes, all starts, directions, lengths and options; traces through vertices are only checked for sanity",
     WHY.format("the space of metrics, starts and directions"),
     [S + "trace_geodesic.cpp", I + "trace_geodesic.h", I + "barycentric_coordinate_helpers.ipp"],
     [("tracing", S + "trace_geodesic.cpp")],
     ["TraceGeodesicResult"], note="differential against a long-double unfolding; positions agree to 1e-5 of an edge when the path keeps away from vertices by 1e-4")
prop("C21", "Surface points and barycentric vectors denote the same place in every simplex",
     "For every vertex, edge or face point, the conversions to faces and edges denote the same point and throw exactly when the element is not adjacent, interpolation is the barycentric combination, and the adjacency queries agree with the incidence of the mesh (for points also on nonmanifold meshes). "
     "Barycentric vectors form the tangent planes: conversions, sums, scalings, norms, inner products and counter-clockwise rotations equal those of the planar vectors they denote, in a face they share or point into, and invalid points and vectors are rejected.",
     ["inputs"], "all points and vectors of all kinds on manifold and general triangle meshes",
     WHY.format("the combinations of elements"),
     [I + "surface_point.ipp", S + "surface_point.cpp", I + "barycentric_vector.ipp", S + "barycentric_vector.cpp", I + "barycentric_coordinate_helpers.ipp"],
     [("surface points", I + "surface_point.ipp"), ("barycentric vectors", I + "barycentric_vector.ipp"), ("helpers", I + "barycentric_coordinate_helpers.ipp")],
     ["returned points, vectors and numbers", "exceptions"], note="brute-force incidence and planar coordinates in long double")

prop("C17", "Exact geodesic distances, paths and directions are the true ones",
     "For any set of sources (vertices, edge points, face points) on a triangle mesh, the distance at every point of the surface equals the length of the shortest path over the surface, the nearest source is named, the traced path runs over the surface from the query to that source with that length, and edge intervals tile their edge with the distance along it. "
     "Gradients are unit vectors along the arriving path and logarithms have the distance as length and the departing direction, in the tangent space of the point; a stopping distance or stop points do not change what is inside them, and a solver can be reused.",
     ["inputs"], "all triangle meshes which are simplicial complexes, with boundary, any genus, also nonmanifold, all sources and queries",
     WHY.format("the space of meshes, sources and queries"),
     [S + "exact_geodesics.cpp", S + "exact_geodesic_helpers.cpp", I + "exact_geodesics.h"],
     [("window propagation", S + "exact_geodesics.cpp"), ("intervals", S + "exact_geodesic_helpers.cpp")],
     ["distances, sources, paths, gradients, logarithms, intervals"], note="differential against a brute-force unfolding of all windows in long double, on regular and on shaken metrics")
prop("C20", "Fast marching distances are monotone updates from the sources",
     "The unsigned fast marching distance is the initial value at source vertices and the straight distance next to sources inside edges and faces; everywhere else it is explained by a neighbouring edge or triangle, never exceeds the path along edges nor any acute triangle update from smaller values, and it is infinite exactly where no source reaches. "
     "The signed distance to closed curves has the sign of the side of the curve at every vertex, vanishes on the curve and has the magnitude of the unsigned one; nonmanifold meshes are refused.",
     ["inputs"], "all manifold triangle meshes and metrics, all sources and initial values compatible with the edge lengths, all closed curves through vertices or across edges",
     WHY.format("the space of meshes and curves"),
     [S + "fast_marching_method.cpp", I + "fast_marching_method.h"],
     [("fast marching", S + "fast_marching_method.cpp")],
     ["VertexData returned"], note="each value checked against the local updates; sides known by construction (boundaries of regions, level sets)")

prop("C19", "Heat-based solvers return the fields their equations define",
     "The heat method distance, scalar extension, parallel transport and logarithmic maps (all strategies, sources at any surface points), and their polygon mesh versions, equal the solutions of the documented short-time diffusion, normalisation and integration, with distances zero on average at the sources; results do not depend on the order of sources, on earlier queries of the same solver, or on gaps in the element indices. "
     "On a flat torus transport is that of the plane, and one value or vector is extended as it is.",
     ["inputs"], "all connected triangle meshes (robust distances also nonmanifold), polygon meshes, source sets and time coefficients",
     WHY.format("the space of meshes and sources"),
     [S + "heat_method_distance.cpp", S + "vector_heat_method.cpp", S + "polygon_mesh_heat_solver.cpp"],
     [("distance", S + "heat_method_distance.cpp"), ("vector heat and logarithms", S + "vector_heat_method.cpp"), ("polygons", S + "polygon_mesh_heat_solver.cpp")],
     ["VertexData returned"], note="differential against dense solves of independently assembled operators")
prop("C22", "Mesh files are read as what they say, and written so that they come back",
     "For every mesh, writing an OBJ file and reading it returns the same polygons, bit-identical positions and texture coordinates, whatever the element numbering; every OBJ, OFF and STL spelling (relative indices, comments, line endings, normals, binary or text) is read as the mesh it denotes; a damaged file gives an exception or a usable mesh, never a crash. "
     "The SimplePolygonMesh operations (merging and stripping vertices and faces, triangulating, orienting, joining) do exactly what they document and keep texture coordinates with their corners, and the vertex and element orders reported to viewers are the iteration orders.",
     ["inputs", "histories"], "all polygon lists and coordinates, all spellings and byte-level damage, all sequences of clean-up operations",
     WHY.format("the space of files"),
     [S + "meshio.cpp", S + "simple_polygon_mesh.cpp", I + "simple_polygon_mesh.h"],
     [("readers, writers, clean-up", S + "simple_polygon_mesh.cpp"), ("mesh files", S + "meshio.cpp")],
     ["arrays of SimplePolygonMesh, meshes and geometries read, file contents"],
     technique="model-based property testing and mutation fuzzing of files", note="reference models of every operation; files generated from the meshes they denote")
prop("C23", "Rich mesh files restore the mesh and its data exactly",
     "A mesh written with RichSurfaceMeshData after any history of edits is read back with identical connectivity (in dense order, including boundary loops and nonmanifold gluing) and the same kind, stays editable, and every property of every element kind, positions, lengths and colours come back exactly, in text and binary form. "
     "Missing properties, missing connectivity, data for another mesh size, and general meshes read as manifold ones are refused.",
     ["inputs", "histories"], "all edited meshes, property types, element kinds, orders and formats",
     WHY.format("the histories which leave gaps and spare capacity"),
     [S + "rich_surface_mesh_data.cpp", I + "rich_surface_mesh_data.ipp"],
     [("rich data", S + "rich_surface_mesh_data.cpp")],
     ["connectivity and data read back"],
     technique="stateful property-based testing of a round trip", note="happly itself is replaced by a stand-in (its sources are not here)")
PC = "src/pointcloud/"
prop("C24", "Point cloud geometry has its defining values and stays current",
     "For every cloud, nearest-neighbour queries return the true neighbours, and all quantities (normals, tangent bases, coordinates and rotations, least-squares gradients, local Delaunay triangulations, the tufted triangulation with its Laplacian and connection Laplacian, also with inconsistently oriented normals) equal their definitions for the current positions after any sequence of require, unrequire, refresh and purge calls. "
     "Given normals and frames are kept, containers may outlive their cloud, files restore every coordinate, and sampled points are uniform on their surface.",
     ["inputs", "histories"], "all point clouds, including coincident, collinear and cocircular points, neighbourhood sizes, given normals, sequences of calls",
     WHY.format("the space of clouds"),
     [PC + "point_position_geometry.cpp", PC + "local_triangulation.cpp", PC + "point_cloud.cpp", PC + "neighborhoods.cpp", PC + "point_cloud_io.cpp", PC + "sample_cloud.cpp", "src/utilities/knn.cpp"],
     [("quantities", PC + "point_position_geometry.cpp"), ("local Delaunay triangulations", PC + "local_triangulation.cpp"), ("neighbours", "src/utilities/knn.cpp")],
     ["fields of the geometry objects", "files", "samples"], note="brute-force neighbours and Delaunay triangles, independent assembly of operators")
prop("C25", "Point cloud heat solvers return the fields their equations define",
     "Distances, extended scalars, transported vectors, logarithmic maps and signed distances to curves (every constraint option) of PointCloudHeatSolver equal the solutions of the documented diffusion, normalisation and integration on the tufted triangulation, whatever the orientation of the normals and the earlier queries. "
     "Hard zero-set constraints give exactly zero on the curves, level-set constraints one value per curve, and reversing the curves negates the distance.",
     ["inputs"], "all connected clouds, sources, curves, time coefficients and options",
     WHY.format("the space of clouds and sources"),
     [PC + "point_cloud_heat_solver.cpp"],
     [("solvers", PC + "point_cloud_heat_solver.cpp")],
     ["PointData returned"], note="differential against dense solves of independently assembled operators")
UT, UI = "src/utilities/", "include/geometrycentral/utilities/"
prop("C26", "Vectors, quaternions, elementary geometry and set helpers are exact",
     "For all inputs, the vector and quaternion operations satisfy complex arithmetic, the Hamilton product and the documented conventions (senses of rotation, ranges of angles, cutoffs, right-handed bases); triangle areas and layouts, in-circle tests, distances to segments, crossings of rays and segments, intersections of triangles at any scale, and Hermite curves with their derivatives equal exact references. "
     "Disjoint sets with marks match a partition after any history, and permutations, removal, angle normalisation and clamping do what they state.",
     ["inputs", "histories"], "all vectors, quaternions, triangle pairs and segments in general position, curves, histories of set operations",
     WHY.format("the space of vectors and triangles"),
     [UI + "vector2.ipp", UI + "vector3.ipp", UT + "quaternion.cpp", UI + "elementary_geometry.ipp", UT + "elementary_geometry.cpp", UT + "tri_tri_intersect.cpp", UI + "curve.ipp", UT + "disjoint_sets.cpp", UI + "utilities.h"],
     [("vectors", UI + "vector3.ipp"), ("elementary geometry", UI + "elementary_geometry.ipp"), ("disjoint sets", UT + "disjoint_sets.cpp")],
     ["returned values"], note="exact integer predicates, complex and extended-precision arithmetic, models")
prop("C28", "Direction fields and stripe patterns solve their stated problems",
     "Smoothest, boundary-aligned and curvature-aligned fields per vertex and per face are, for every symmetry, the unit solutions of the documented connection-Laplacian problems with the stated boundary or alignment data; indices per face and vertex count the turning of the field and obey Poincaré–Hopf. "
     "Stripe values differ along each side of a regular face by the 1-form of the field and frequency up to multiples of 2π, on one sheet per face, plane waves on flat tori are reproduced, and extracted polylines are exactly the level sets, each crossing once, without branching.",
     ["inputs"], "all triangle meshes with and without boundary, geometries, symmetries, fields and frequencies",
     WHY.format("the space of meshes and fields"),
     [S + "direction_fields.cpp", S + "stripe_patterns.cpp"],
     [("fields and indices", S + "direction_fields.cpp"), ("stripes", S + "stripe_patterns.cpp")],
     ["fields, indices, corner values, polylines returned"], note="dense independent assembly, inverse iteration, exact level sets")
prop("C30", "Paths, level sets, intersections, samples, centers and cuts are what they state",
     "shortestEdgePath and vertex distances within a radius are optimal in the graph of edges; marching triangles returns every segment of the level set once, joined into curves with the smaller values on the left, also through vertices and along edges; intersections of one or two meshes are exactly the crossing triangle pairs. "
     "Poisson disk samples respect the minimum distance and the balls to avoid and reach every component with room, centers are stationary points of their energy, Voronoi sites follow the stated iteration on any mesh, and cutting along a tree opens exactly these edges and maps every halfedge to its parent.",
     ["inputs"], "all meshes, functions including equal values at vertices, pairs of meshes in general position, trees of edges",
     WHY.format("the space of meshes and functions"),
     [S + "mesh_graph_algorithms.cpp", S + "marching_triangles.cpp", S + "intersection.cpp", S + "poisson_disk_sampler.cpp", S + "surface_centers.cpp", S + "geodesic_centroidal_voronoi_tessellation.cpp", S + "surgery.cpp"],
     [("level sets", S + "marching_triangles.cpp"), ("samples", S + "poisson_disk_sampler.cpp"), ("cuts", S + "surgery.cpp")],
     ["returned paths, curves, points, meshes"], note="exhaustive references per face or pair, Bellman-Ford, brute-force distances")
prop("C29", "Flattenings and convex embeddings have the data they were asked for",
     "On every disk, boundary first flattening returns the harmonic extension of the closed boundary polygon which has the given scale factors or exterior angles and the complementary ones solving the Yamabe problem, reproduces planar inputs, ignores values at interior vertices, gives the same from the one-off functions and a reused object, and refuses other surfaces and angles which do not sum to 2π. "
     "uniformizeDisk returns discretely conformal lengths, flat inside and unchanged along the boundary, and parameterizeDisk their layout. "
     "embedConvex recovers every well-shaped convex polyhedron from its metric at any scale, in any triangulation, unmirrored, with the correspondence to the input, and refuses boundary, handles and negative curvature.",
     ["inputs"], "all disks, boundary data, convex metrics and their triangulations",
     WHY.format("the space of metrics and boundary data"),
     [S + "boundary_first_flattening.cpp", S + "uniformize.cpp", S + "parameterize.cpp", S + "embed_convex.cpp"],
     [("flattening", S + "boundary_first_flattening.cpp"), ("uniformization", S + "uniformize.cpp"), ("embedding", S + "embed_convex.cpp")],
     ["coordinates, lengths, meshes returned"], note="dense extended-precision reimplementation, known polyhedra, planar regions")
prop("C31", "Mollification, simple Delaunay flips and the tufted Laplacian are exact",
     "Mollification adds the smallest constant with which all triangle inequalities hold with the requested slack, and nothing to meshes where they hold. "
     "flipToDelaunay ends in the Delaunay triangulation of the Euclidean or decorated hyperbolic metric at every scale, preserving areas and angle sums respectively Penner coordinates, and refuses nonmanifold edges. "
     "The tufted cover of any triangle mesh is closed, edge-manifold and oriented, with each face in both orientations, and buildTuftedLaplacian equals half the intrinsic Delaunay Laplacian and masses of the cover glued in the angular order around every edge: symmetric, without positive off-diagonal entries, with zero row sums and the area of the surface.",
     ["inputs"], "all triangle meshes, manifold and not, closed and with boundary, lengths and factors",
     WHY.format("the space of meshes and lengths"),
     [S + "intrinsic_mollification.cpp", S + "simple_idt.cpp", S + "tufted_laplacian.cpp"],
     [("mollification", S + "intrinsic_mollification.cpp"), ("flips", S + "simple_idt.cpp"), ("tufted Laplacian", S + "tufted_laplacian.cpp")],
     ["lengths, meshes and matrices"], note="independent glued-triangle structure with its own flips in extended precision")
prop("C27", "Subdivision, remeshing and simplification follow their rules and constraints",
     "On every manifold mesh, with or without boundary, linear, Catmull–Clark and Loop subdivision produce exactly the children of the faces with the positions of the standard masks; quadric simplification collapses to points which minimise the summed plane distances within the tolerance, keeping the corners, planes and volume of polyhedra; fixDelaunay makes planar meshes Delaunay; smoothing moves vertices by the documented tangential step. "
     "Edge length adjustment splits exactly the edges which are too long at their midpoints and collapses only those which are too short, for absolute and relative targets, without moving the boundary by interior collapses; remeshing in n iterations is n times one iteration. "
     "All of them keep a valid manifold mesh of the same topology with up-to-date geometry, respect the fixed vertices and protected edges of a mutation manager, and perform every change through it.",
     ["inputs", "histories"], "all manifold meshes, compressed or not, options, tolerances and constraints",
     WHY.format("the space of meshes, options and constraints"),
     [S + "subdivide.cpp", S + "remeshing.cpp", S + "quadric_error_simplification.cpp", S + "manifold_surface_mesh.cpp"],
     [("subdivision", S + "subdivide.cpp"), ("remeshing", S + "remeshing.cpp"), ("simplification", S + "quadric_error_simplification.cpp")],
     ["mesh and positions afterwards", "callbacks seen on the way"],
     technique="property-based testing against explicit subdivision masks, quadric sums, smoothing formulas and metamorphic relations", note="children of faces identified by labels; quadrics accumulated by an observer")
prop("C33", "The mutation manager reports every mutation and enforces its constraints",
     "For every history of vertex moves, flips, splits, collapses and face splits, with and without geometry, the manager changes exactly the requested elements to the requested positions, or nothing where a constraint or the connectivity forbids it, as the return value says. "
     "Every registered policy and handler hears of each mutation once before it, while the mesh is still unchanged, and once after it, with the elements, the parameter and its own data; removed policies hear nothing more and are deleted. "
     "Parts of split edges inherit their constraints, other new elements get the default.",
     ["histories"], "all triangle meshes, histories of mutations, registrations, removals and constraint changes",
     WHY.format("the space of histories"),
     [S + "mutation_manager.cpp", "include/geometrycentral/surface/mutation_manager.ipp", "include/geometrycentral/surface/mutation_manager.h"],
     [("mutations and constraints", S + "mutation_manager.cpp"), ("handlers", "include/geometrycentral/surface/mutation_manager.ipp")],
     ["mesh, positions, return values", "log of callbacks"],
     technique="stateful model-based property testing of mutation histories", note="model of the event log, constraints and positions; snapshots taken inside the callbacks")
