"""The properties: what they say, where they are anchored and how they are decided."""
I, H, C, P = "inputs", "histories", "configurations", "programs"
TESTS = "The only reliably passing test evaluates seven operators on one fixed 3-vector. "
NOT_APPLICABLE = {}
META = [
dict(id="P01", title="Small vectors and matrices obey linear algebra",
 statement="For every shape and every entry, constructing, indexing, comparing and combining small vectors and matrices (entrywise arithmetic with matrices and scalars in both operand orders, column and row extraction and insertion, transposition, norms, scalar, dyadic, cross and Hadamard products) yields exactly the mathematically defined entries. Every product variant, including those with transposed factors, equals the product defined by the textbook triple sum. In-place variants agree with their out-of-place counterparts and leave other operands unchanged.",
 over=[I, C], quant="all shapes up to 10 rows/columns in three scalar types, all finite entries, including zeros and mixed magnitudes",
 why=TESTS + "Shapes with different row and column counts, transposed products and aliased operands are never instantiated.",
 files=["include/HyperHDG/dense_la.hxx"],
 mech=[("column-major SmallMat storage and loc_matrix_index", "include/HyperHDG/dense_la.hxx"), ("product overload set (mat_times_mat, transposed_mat_times_mat, ...)", "include/HyperHDG/dense_la.hxx")],
 observe=["return values and operands after every operation"],
 tech="property-based testing against a naive long-double reference", note="Random entries over 16 shapes and 64 shape triples in float and double; every operator is compared entrywise with a triple-loop model."),
dict(id="P02", title="Dense linear systems are solved or refused",
 statement="For every well-conditioned square matrix and every number of right-hand sides, dividing by the matrix returns the solution of the linear system up to rounding, independently of whether pivoting is necessary or the system is badly scaled. For an exactly singular matrix the division refuses with the documented exception instead of returning a result. The operands that are passed by constant reference are left unchanged, and all right-hand sides are solved independently of each other.",
 over=[I, C], quant="all non-singular and exactly singular matrices of size 1 to 9 with 1 to 7 right-hand sides, in single and double precision",
 why=TESTS + "No system is ever solved by it.",
 files=["include/HyperHDG/dense_la.hxx", "include/HyperHDG/wrapper/lapack.hxx"],
 mech=[("lapack_solve (dgesv/sgesv) and its info check", "include/HyperHDG/wrapper/lapack.hxx"), ("operator/ for SmallMat", "include/HyperHDG/dense_la.hxx")],
 observe=["solution, residual, thrown exception type"],
 tech="property-based testing: residual oracle plus constructed singular systems", note="Residual bound relative to norm and condition; singular matrices are singular in exact arithmetic by construction."),
dict(id="P03", title="QR decompositions and determinants are correct",
 statement="For every matrix, the QR decomposition returns an orthogonal factor and an upper triangular factor whose product is the matrix; the variant that promises a rotation returns determinant plus one for the orthogonal factor and the in-place and reduced triangular factors agree. The determinant function returns the determinant of a square matrix with the right sign, and for rectangular matrices the volume factor. Rank-deficient and axis-aligned matrices are no exception.",
 over=[I, C], quant="all matrices with 1 to 9 rows and 1 to 4 columns including wide, rank-deficient, diagonal and axis-aligned ones",
 why=TESTS + "Factorisations are not covered; several were wrong or did not compile.",
 files=["include/HyperHDG/dense_la.hxx", "include/HyperHDG/wrapper/lapack.hxx"],
 mech=[("Householder factors: get_q_from_lapack_qr_result, get_r_from_lapack_qr_result, lapack_det", "include/HyperHDG/wrapper/lapack.hxx"), ("qr_decomp", "include/HyperHDG/dense_la.hxx")],
 observe=["Q, R, determinant"],
 tech="property-based testing: QR=A, orthogonality, determinant by reference elimination", note="Algebraic oracles; determinant compared with long-double Laplace/LU evaluation."),
dict(id="P04", title="Affine mappings agree with their geometry",
 statement="An affine mapping with any full-rank matrix sends reference points to translation plus matrix times point, and its columns, offsets, functional determinant (the volume scaling) and QR factors describe that same map. Inner normals are unit vectors in the span of the mapped hyperedge, orthogonal to the facet and directed outward; outer normals are unit vectors orthogonal to the whole hyperedge and to each other. This holds for each pair of hyperedge and space dimension.",
 over=[I, C], quant="all full-rank maps from dimension 1..3 into dimension 1..8, in two precisions",
 why=TESTS + "Mappings are not tested at all.",
 files=["include/HyperHDG/mapping/linear.hxx"],
 mech=[("inner_normal / outer_normal from QR of the matrix", "include/HyperHDG/mapping/linear.hxx"), ("functional determinant", "include/HyperHDG/mapping/linear.hxx")],
 observe=["mapped points, normals, determinant"],
 tech="property-based testing against Gram-Schmidt geometry", note="12 dimension pairs; orthogonality, length, orientation and volume are checked, never the particular choice of basis."),
dict(id="P05", title="Tensorial index decompositions are bijections",
 statement="Decomposing a running index of a tensor product into its per-direction indices is the mixed-radix decomposition: each index tuple within range occurs exactly once, and recomposing it returns the running index. Points of tensor-product point sets built from one-dimensional points have exactly those coordinates, in that order.",
 over=[I, C], quant="all dimensions, ranges and indices within them",
 why="No test touches it; errors only show for indices beyond the first direction or special ranges.",
 files=["include/HyperHDG/hypercube.hxx"],
 mech=[("index_decompose and tensorial_pt", "include/HyperHDG/hypercube.hxx")],
 observe=["returned indices and points"],
 tech="property-based testing with recomposition round trip and exhaustive small ranges", note="Dimensions 1..6."),
dict(id="P06", title="Degrees of freedom of hypernodes never overlap or get lost",
 statement="For every number of hypernodes and degrees of freedom per hypernode, the degree-of-freedom indices of different hypernodes are disjoint, and together they are exactly 0 to total minus one. The hypernode of a degree of freedom is found again from its index. Getting, setting and adding values of one hypernode reads or changes exactly its own entries of the global vector, in order, so that an arbitrary history of such operations leaves the vector in the state of a plain map from hypernode to values, also for index types beyond 32 bits.",
 over=[I, H, C], quant="all numbers of nodes and dofs per node, all operation histories",
 why="No test covers it; aliasing between hypernodes needs histories on several nodes.",
 files=["include/HyperHDG/hypernodefactory.hxx"],
 mech=[("HyperNodeFactory dof indexing", "include/HyperHDG/hypernodefactory.hxx")],
 observe=["global vector after every operation"],
 tech="stateful model-based testing against a map model", note="Histories of operations over up to dozens of nodes; 64-bit index families."),
dict(id="P07", title="A hypergraph gives coherent access to all its hyperedges",
 statement="Iterating over a hypergraph forwards or backwards visits precisely its hyperedges, each delivering topology, geometry, node types and stored data of the same index; a modification through one access is visible through every other access to that index and no other one. Hypernode counts, global numbers of degrees of freedom and refinement levels agree with the underlying topology at all times. After a refinement the data container, iterators and counts match the refined graph.",
 over=[I, H, C], quant="all graphs, iterator operations and refinement histories",
 why="No test covers it; failures depend on histories of iterator moves, writes and refinements.",
 files=["include/HyperHDG/hdg_hypergraph.hxx", "include/HyperHDG/hy_data_container.hxx"],
 mech=[("HDGHyperGraph::iterator", "include/HyperHDG/hdg_hypergraph.hxx"), ("HDGHyperGraph::set_refinement", "include/HyperHDG/hdg_hypergraph.hxx"), ("HyDataContainer", "include/HyperHDG/hy_data_container.hxx")],
 observe=["dereferenced hyperedges, counts, stored data"],
 tech="stateful model-based testing with mock topology/geometry", note="Mock constituents report which index they were asked for; an independent model predicts every answer."),
dict(id="P08", title="A .geo file is read as it is written",
 statement="For every consistent domain description, reading the file yields precisely the numbers of points, hyperedges, hypernodes, and for each hyperedge the hypernodes, face types, point indices and (optional) properties that the file states, and the coordinates of all points with the full precision of the chosen number type, independently of surrounding text, blank lines and whitespace. The consistency check accepts it and changes nothing, and reading one file never depends on files read before.",
 over=[I, H], quant="all consistent domain descriptions in all dimension combinations and layouts",
 why="No passing test reads a file; the shipped ones are few and hand-written.",
 files=["include/HyperHDG/read_domain.hxx"],
 mech=[("read_domain_geo", "include/HyperHDG/read_domain.hxx"), ("DomainInfo", "include/HyperHDG/read_domain.hxx")],
 observe=["DomainInfo content"],
 tech="property-based testing: write/read round trip against a model", note="Generated descriptions with random layout; 7 dimension combinations."),
dict(id="P09", title="Inconsistent domain descriptions are refused",
 statement="A domain description that contradicts itself or the program reading it - wrong dimensions, missing keywords or values, fewer hyperedges than announced, indices out of range, hypernodes or points repeated within a hyperedge, coinciding points or hyperedges, or an unknown file type - is never accepted silently by a build with assertions: reading it ends with a failed assertion. The consistency check of a domain reports such an inconsistency wherever it is, in builds with and without assertions. Consistent descriptions are never refused.",
 over=[I, C], quant="all consistent descriptions with one inconsistency planted anywhere",
 why="No test reads a bad file; a refusal must not depend on where in the file the error is.",
 files=["include/HyperHDG/read_domain.hxx"],
 mech=[("hy_check / hy_assert in read_domain_geo", "include/HyperHDG/read_domain.hxx"), ("DomainInfo::check_consistency", "include/HyperHDG/read_domain.hxx")],
 observe=["exception or abort; result of check_consistency"],
 tech="mutation-based fuzzing of valid inputs with crash-isolated oracle", note="One mutation per case; files in builds with assertions, the consistency check also without."),
dict(id="P10", title="Epsilon neighborhood graphs connect precisely the close points",
 statement="From every point cloud and epsilon, the generated graph has as hyperedges precisely the pairs of distinct points whose distance is below epsilon, each pair once, irrespective of the order of the points in the file; the written domain description, when read back, yields the same points bit by bit and this graph. Point clouds whose graph is not connected, repeated points, and incomplete point files are refused.",
 over=[I, H], quant="all point clouds in dimension 1..3 and all epsilon",
 why="No test builds one; errors depend on point order, distances and digits.",
 files=["include/HyperHDG/epsilon_neighborhood_graph.hxx", "include/HyperHDG/read_domain.hxx"],
 mech=[("make_epsilon_neighborhood_graph", "include/HyperHDG/epsilon_neighborhood_graph.hxx")],
 observe=["written .geo file and domain read from it"],
 tech="property-based testing against brute-force neighbor model, round trip", note="Includes lattice points exactly at distance epsilon."),
dict(id="P11", title="Cubic hypergraphs glue hyperedges precisely where their faces coincide",
 statement="For every number of elements per direction, every hyperedge and space dimension and every refinement level, a cubic hypergraph contains each cell of the (refined) grid of that dimension exactly once, and two faces of hyperedges have the same hypernode if and only if they are the same face in space. The numbers of hyperedges and hypernodes are those of the grid, and every hypernode belongs to some hyperedge. This also holds after any sequence of refinements and coarsenings and for copies.",
 over=[I, H, C], quant="all numbers of elements, dimensions 1..3 in 1..4, all refinement histories",
 why="Topologies are not built by any passing test; the tests that would need submodules that are missing.",
 files=["include/HyperHDG/topology/cubic.hxx", "include/HyperHDG/geometry/unit_cube.hxx", "include/HyperHDG/wrapper/tpcc.hxx"],
 mech=[("Topology::Cubic hyEdge constructor and set_refinement", "include/HyperHDG/topology/cubic.hxx"), ("Geometry::UnitCube positions", "include/HyperHDG/geometry/unit_cube.hxx")],
 observe=["hypernode indices and face positions of all hyperedges"],
 tech="property-based testing: bijection between hypernodes and face positions", note="Complete graphs are enumerated per generated configuration; with two numberings of directions of the stand-in for the missing submodule."),
dict(id="P12", title="Hypergraphs from files keep their connectivity under refinement",
 statement="A hypergraph read from a file connects its hyperedges as the file says. At every refinement level each hyperedge of the file is divided into equal subcubes that lie on it, neighboring subcubes share a hypernode which no other hyperedge has, and subfaces of a hypernode of the file are shared by all hyperedges at this hypernode at matching positions and by no others. Numbers of hyperedges and hypernodes agree with this after any sequence of refinements and coarsenings and for copies.",
 over=[I, H, C], quant="all domain descriptions and refinement histories",
 why="No passing test reads a graph.",
 files=["include/HyperHDG/topology/file.hxx", "include/HyperHDG/geometry/file.hxx"],
 mech=[("Topology::File hyEdge constructor and set_refinement", "include/HyperHDG/topology/file.hxx")],
 observe=["hypernode indices and face positions of all hyperedges"],
 tech="property-based testing: bijection between hypernodes and face identities", note="Random abstract connectivity with random parallelotopes as hyperedges."),
dict(id="P13", title="Hyperedge geometry is consistent with the map of the hyperedge",
 statement="For every hyperedge of a unit cube or a file, at any refinement, the mapped points, spanning vectors, orthogonal frame, areas of the hyperedge and its faces, face barycenters, outward inner normals (in space and in the hyperedge's frame), orthonormal outer normals and tensor product points, on the hyperedge and its boundary, all describe the same parallelotope that the file or the grid prescribes. Properties that a file states for a hyperedge are those of each of its parts.",
 over=[I, C], quant="all hyperedges of all grids and parallelotope files, dimensions 1..3 in 1..4, all levels",
 why="No passing test evaluates a geometry.",
 files=["include/HyperHDG/geometry/unit_cube.hxx", "include/HyperHDG/geometry/file.hxx", "include/HyperHDG/mapping/linear.hxx"],
 mech=[("UnitCube::hyEdge", "include/HyperHDG/geometry/unit_cube.hxx"), ("File::hyEdge", "include/HyperHDG/geometry/file.hxx")],
 observe=["all geometric queries of a hyperedge"],
 tech="property-based testing against independent Gram-Schmidt geometry", note="14 combinations of geometry and dimensions."),
dict(id="P14", title="Faces carry their boundary type at every refinement level",
 statement="For files, a face of a (refined) hyperedge carries the type that the file states for the face of the original hyperedge it is part of, and the type of an interior face if it arose from refinement. For cubic graphs the type encodes precisely on which sides of the unit cube the face lies. The types do not depend on the history of refinements or on copying.",
 over=[I, H, C], quant="all files, grids and refinement histories",
 why="No passing test evaluates node types.",
 files=["include/HyperHDG/node_descriptor/cubic.hxx", "include/HyperHDG/node_descriptor/file.hxx"],
 mech=[("NodeDescriptor::Cubic / File hyEdge constructors", "include/HyperHDG/node_descriptor/")],
 observe=["types of all faces"],
 tech="property-based testing against positions of faces", note="As for P11 and P12."),
dict(id="P15", title="The global operator is the sum of the local contributions",
 statement="For every hypergraph and every local solver, multiplying a global vector with the global operator equals scattering each hyperedge's local result, computed from precisely the values of its hypernodes, back to its hypernodes - whichever of the supported local solver interfaces is implemented - with rows of Dirichlet degrees of freedom set to zero. The total flux or residual vector includes the data at the given time, and errors are accumulated over all hyperedges and rooted once. The result never depends on earlier calls.",
 over=[I, H, C], quant="all graphs, local solvers, vectors, times, and histories of calls",
 why="No test runs a global loop (they need submodules that are not there).",
 files=["include/HyperHDG/global_loop/elliptic.hxx", "include/HyperHDG/global_loop/prototype.hxx"],
 mech=[("macro-generated loops over hyperedges", "include/HyperHDG/global_loop/prototype.hxx"), ("dirichlet index handling", "include/HyperHDG/global_loop/elliptic.hxx")],
 observe=["returned vectors"],
 tech="stateful model-based testing with random mock local solvers", note="Mock graphs and local solvers; a dense global model predicts each vector."),
dict(id="P16", title="The assembled sparse matrix is the global operator",
 statement="The triplets (row indices, column indices, values) of the assembled matrix, duplicates added up, represent the same linear map as the matrix-free product on all rows that are not Dirichlet rows, for every hypergraph, local solver and history of refinements.",
 over=[I, H, C], quant="all graphs, local solvers and histories",
 why="No test assembles a matrix.",
 files=["include/HyperHDG/global_loop/elliptic.hxx", "include/HyperHDG/global_loop/prototype.hxx"],
 mech=[("sparse_matrix / get_sparse_matrix assembly", "include/HyperHDG/global_loop/prototype.hxx")],
 observe=["triplets and matrix-vector products"],
 tech="differential property-based testing: assembled vs. matrix-free vs. dense model", note="Dirichlet rows are deliberately not compared: the library leaves them to the user."),
dict(id="P17", title="Eigenvalue loops evaluate mass, stiffness and Jacobian consistently",
 statement="For all eigenvalue loops, the operator products (stiffness, mass, Jacobian, initial guess) are the scattered contributions of the local solvers, each called with precisely the values of its own hypernodes and with the given state, time and eigenvalue in their right places; a vector that carries the eigenvalue as an additional last entry yields a result of the same length. The reported Dirichlet indices are precisely the sorted Dirichlet degrees of freedom of the current (possibly refined) graph. Results depend on the current graph and the arguments only.",
 over=[I, H, C], quant="all graphs, local solvers, states and histories including refinements",
 why="No test runs them.",
 files=["include/HyperHDG/global_loop/nonlinear_eigenvalue.hxx", "include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx", "include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx"],
 mech=[("loops in global_loop/*eigenvalue*", "include/HyperHDG/global_loop/"), ("dirichlet_indices()", "include/HyperHDG/global_loop/")],
 observe=["returned vectors and index lists"],
 tech="stateful model-based testing with random mock local solvers", note="All three eigenvalue loops."),
dict(id="P18", title="Time stepping keeps the data of every hyperedge at the right time",
 statement="In the parabolic loop, initial data, stored hyperedge data, residuals, and operator products are those of the local solvers at the given time for precisely the hyperedge in question; storing new data changes the data of every hyperedge once, from the values of its own hypernodes. Times are passed on unrounded, and the history of steps determines all results.",
 over=[I, H, C], quant="all graphs, local solvers, times and histories of steps",
 why="No test runs a time step.",
 files=["include/HyperHDG/global_loop/parabolic.hxx", "include/HyperHDG/global_loop/prototype.hxx"],
 mech=[("Parabolic::make_initial, set_data, residual_flux", "include/HyperHDG/global_loop/parabolic.hxx")],
 observe=["returned vectors and hyperedge data"],
 tech="stateful model-based testing with mock local solvers carrying data", note="Fractional times included."),
dict(id="P19", title="Iterative solver and vector operations do what they promise",
 statement="Norms, scalar products and linear combinations of vectors of every length return the entrywise defined result, also if the result overwrites an operand, and vectors of different lengths are refused. The conjugate gradient method solves every symmetric positive definite system up to the tolerance within as many steps as it has unknowns (up to rounding), never performs more steps than allowed, and leaves the right-hand side unchanged. If it cannot reach the tolerance, it says so by an exception instead of returning something that is not a solution.",
 over=[I], quant="all operators, right-hand sides, start vectors, tolerances and iteration limits",
 why="No test solves a system.",
 files=["include/HyperHDG/sparse_la.hxx"],
 mech=[("conjugate_gradient", "include/HyperHDG/sparse_la.hxx"), ("vector helpers", "include/HyperHDG/sparse_la.hxx")],
 observe=["solution vector, iteration count, exception"],
 tech="property-based testing with residual oracle on generated SPD and non-SPD operators", note="Indefinite and singular systems check that a returned result is honest."),
dict(id="P20", title="Plots show the computed solution on the right geometry",
 statement="For every graph and every combination of plot options, the written file is a well-formed unstructured grid whose declared counts match its content, whose points are the mapped plot points of each hyperedge, and whose values at these points are those of the local solution there. File name, numbering and increments follow the options, options are returned as they were set, and an option that is unknown or of the wrong kind is refused.",
 over=[I, H, C], quant="all graphs, option combinations and histories of plots",
 why="No test writes a plot.",
 files=["include/HyperHDG/plot.hxx"],
 mech=[("plot_vtu, plot_edge_values, set_plot_option", "include/HyperHDG/plot.hxx")],
 observe=["parsed .vtu file"],
 tech="property-based testing: independent parser of the written file vs. model", note="Values plotted on boundaries (deliberately zero in the library) are not claimed."),
dict(id="P21", title="Local diffusion solvers solve the discrete local problem",
 statement="For every affine hyperedge, polynomial degree, penalty, coefficient, right-hand side, boundary datum, time and trace on the faces, each local solver for second-order elliptic problems (plain and post-processed diffusion, diffusion-advection-reaction, interior penalty, uniform) returns the unique discrete solution: bulk values and fluxes, taken together, satisfy the defining weak equations of the method. What enters the global system is the numerical flux of that solution on every face that is not Dirichlet and zero on Dirichlet faces, the flux is linear in the trace and the residual flux differs from it by a contribution of the data alone, all coefficients are evaluated at the mapped points and the given time, and errors are the L2 distance between discrete and analytic solution. Polynomial solutions within the discrete space are reproduced up to rounding.",
 over=[I, C], quant="all affine hyperedges of dimension 1..3 in space dimension up to 3, degrees 0..3, smooth coefficients, times, traces and face types",
 why="The tests of local solvers need a submodule that is not part of the pinned tree, and sample one parameter set each.",
 files=["include/HyperHDG/local_solver/diffusion_ldgh.hxx", "include/HyperHDG/local_solver/diffusion_ldgh_pp.hxx", "include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx", "include/HyperHDG/local_solver/diffusion_ip.hxx", "include/HyperHDG/local_solver/diffusion_uniform_ldgh.hxx"],
 mech=[("assemble_loc_matrix and assemble_rhs_*", "include/HyperHDG/local_solver/diffusion_ldgh.hxx"), ("trace_to_flux, residual_flux, errors, bulk_values", "include/HyperHDG/local_solver/")],
 observe=["outputs of trace_to_flux, residual_flux, errors, bulk_values"],
 tech="property-based testing: residual of the weak form evaluated by independent quadrature, metamorphic relations, polynomial exactness", note="The external quadrature library is replaced by a stand-in in /verif; the weak form is evaluated by an independent implementation."),
dict(id="P22", title="Local plate solvers solve the discrete local problem",
 statement="For every affine hyperedge, polynomial degree, penalty, coefficient, right-hand side, boundary data, time and pair of traces on the faces, the local solvers for the bilaplacian (with coefficient, and uniform) return the unique discrete solution of the coupled second-order system: bulk values satisfy the defining weak equations. Each of the two flux components is the numerical flux belonging to its trace, is zero precisely on the faces on which that trace is prescribed, and is linear in the traces; the residual flux differs from it by a contribution of the data alone. Errors are the L2 distance between discrete and analytic solution, and initial traces are the L2 projections of the given functions on the given faces.",
 over=[I, C], quant="all affine hyperedges of dimension 1..3, degrees 0..3, smooth coefficients, data, times, traces and face types",
 why="No test runs a plate solver.",
 files=["include/HyperHDG/local_solver/bilaplacian_ldgh.hxx", "include/HyperHDG/local_solver/bilaplacian_uniform_ldgh.hxx"],
 mech=[("assemble_loc_matrix, assemble_rhs_*, trace_to_flux, residual_flux, make_initial, errors", "include/HyperHDG/local_solver/bilaplacian_ldgh.hxx")],
 observe=["outputs of trace_to_flux, residual_flux, make_initial, errors, bulk_values"],
 tech="property-based testing: differential against an independent discretisation", note="The external quadrature library is replaced by a stand-in in /verif."),
dict(id="P23", title="Local time steppers advance exactly one step of their scheme",
 statement="For every history of time steps (initial values, then any sequence of steps with traces at new times), the hyperedge data of the time-dependent local solvers is that of the theta-scheme applied to the discrete problem: it depends on the previous data, the trace, the data of the problem at the old and new time, the step size and theta, in their right places, and on nothing else. The flux is that of the new state for the given trace, linear in it, and the residual adds the contribution of data and old state; errors are the L2 distance between the stored and the analytic solution, and evaluating fluxes, residuals, errors or bulk values never changes the stored state.",
 over=[I, H, C], quant="all affine hyperedges, histories of steps, theta, step sizes, coefficients and data",
 why="No test performs a time step of a local solver.",
 files=["include/HyperHDG/local_solver/diffusion_parab_ldgh.hxx", "include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx", "include/HyperHDG/local_solver/advection_parab_ldgh.hxx"],
 mech=[("make_initial, set_data, trace_to_flux, residual_flux", "include/HyperHDG/local_solver/diffusion_parab_ldgh.hxx")],
 observe=["hyperedge data and outputs of the local solver after every step"],
 tech="stateful model-based testing: independent theta-scheme run in parallel", note="Plate time stepping is claimed for the implicit Euler method (theta = 1) only."),
dict(id="P24", title="Local eigenvalue solvers are consistent with their linearisation",
 statement="For every affine hyperedge, eigenvalue, trace and coefficient, the local eigenvalue solvers return the flux of the discrete eigenvalue problem at the given eigenvalue, and their Jacobian is the derivative of that flux with respect to trace and eigenvalue, in the direction given. Initial states are L2 projections of the given functions, errors the L2 distance to the analytic solution.",
 over=[I, C], quant="all affine hyperedges, degrees, eigenvalues, traces and directions",
 why="No test runs an eigenvalue solver.",
 files=["include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx", "include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx"],
 mech=[("trace_to_flux, jacobian_of_trace_to_flux, make_initial, errors", "include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx")],
 observe=["outputs of trace_to_flux, jacobian_of_trace_to_flux, make_initial, errors, bulk_values"],
 tech="property-based testing: differential against an independent discretisation and its exact derivative", note="The coefficient is generated independent of time, because the solver passes the eigenvalue in its place."),
dict(id="P25", title="The local beam solver solves Timoshenko's equations on every straight beam",
 statement="For every straight beam in space, polynomial degree, penalty, time, loads, Dirichlet data, traces and (optional) per-beam stiffness data (stiffnesses along given axes, collected along the axes of the beam's frame by the cosines between them), the local solver of the Timoshenko beam network returns the unique discrete solution of the beam equations in the beam's own frame and the forces and moments that belong to it, expressed in global coordinates. Fluxes are affine in the traces, do not depend on the order of evaluation, are zero on Dirichlet ends, and vanish for rigid motions; errors are the L2 distance to the analytic displacements.",
 over=[I, C], quant="all straight beams, degrees, penalties, stiffness data, loads, boundary data, times and traces",
 why="No test runs the beam solver; it needs a geometry with per-edge data and a submodule which is not part of the pinned tree.",
 files=["include/HyperHDG/local_solver/timoshenko_network.hxx"],
 mech=[("node_dof_to_edge_dof, edge_dof_to_node_dof, node_system_rhs, trace_to_flux, residual_flux, errors", "include/HyperHDG/local_solver/timoshenko_network.hxx")],
 observe=["outputs of trace_to_flux, residual_flux, errors, bulk_values"],
 tech="property-based testing: differential against an independent discretisation in global coordinates, rigid motions, linearity", note="The external quadrature library is replaced by a stand-in in /verif; right-handed frames, zero-initialised output as the global loops provide it."),
dict(id="P26", title="The solver stack reproduces every solution that lies in its discrete space",
 statement="For every hypergraph (cubic, or read from a file: patches of affine hyperedges in any embedding with any numbering, and networks of lines with branching points), every refinement of it, every local solver for steady diffusion (with or without post-processing, advection and reaction, interior penalty), plates and beam networks, every degree, penalty and coefficient: the global system assembled from trace_to_flux and residual_flux is uniquely solvable, its solution has a vanishing residual, and whenever the exact solution is a piecewise polynomial of the discrete space the error reported is zero up to rounding. This holds at branching points of networks as well, where the fluxes of all hyperedges balance.",
 over=[I, C, H], quant="all graphs, refinements, coefficients and polynomial solutions of each local solver",
 why="Tests never run topology, geometry, node descriptor, global loop and local solver together; every example does.",
 files=["include/HyperHDG/global_loop/elliptic.hxx", "include/HyperHDG/hdg_hypergraph.hxx", "include/HyperHDG/local_solver/diffusion_ldgh.hxx", "include/HyperHDG/topology/file.hxx", "include/HyperHDG/geometry/file.hxx"],
 mech=[("trace_to_flux, residual_flux, errors", "include/HyperHDG/global_loop/elliptic.hxx"), ("operator[] of the hypergraph", "include/HyperHDG/hdg_hypergraph.hxx")],
 observe=["errors() of the solved system", "residual_flux() of the solution"],
 tech="property-based testing: manufactured polynomial solutions on generated hypergraphs, own elimination; network solutions from the node equations", note="Systems of up to 130 unknowns; the external tensor-product libraries are replaced by stand-ins."),
dict(id="P27", title="Time stepping reproduces every solution that its scheme represents exactly",
 statement="For every hypergraph (cubic or from a file), refinement, theta, time-step size and degree, the parabolic loop with the time-dependent local solvers (diffusion, plates, advection) starts from the exact initial state and stays exact over every number of steps whenever the solution is affine in time and a polynomial of the discrete space in space: initial state, traces, stored hyperedge data and reported errors agree at all times.",
 over=[I, C, H], quant="all graphs, refinements, schemes, step sizes, numbers of steps and polynomial solutions",
 why="No test performs a time step.",
 files=["include/HyperHDG/global_loop/parabolic.hxx", "include/HyperHDG/local_solver/diffusion_parab_ldgh.hxx", "include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx", "include/HyperHDG/local_solver/advection_parab_ldgh.hxx"],
 mech=[("make_initial, set_data, trace_to_flux, residual_flux, errors", "include/HyperHDG/global_loop/parabolic.hxx")],
 observe=["errors() after every step"],
 tech="stateful property-based testing: manufactured solutions affine in time over generated sequences of steps", note="Plates with theta = 1 only; advection with flow that does not change direction on a face."),
dict(id="P28", title="The Python import returns the problem that was asked for, built from the current sources",
 statement="For every history of Python processes that import problems one after another (configurations with arbitrary class names, template arguments, include files, replacements, own code, debug mode) and of edits of headers, templates and own code in between those processes, in any folder, HyperHDG.include(config) returns a class that is built from exactly the configuration it was given and from the sources as the process finds them: two different configurations never share a module, earlier imports of the same process never influence later ones, headers found automatically are those that define the classes named, every edit of a file that takes part is noticed, and nothing is built again if nothing changed.",
 over=[I, H, C], quant="all configurations and histories of imports and edits",
 why="No test runs the Python layer; stale or mixed-up modules appear only after particular sequences of imports and edits.",
 files=["import/HyperHDG/import_cxx/include.py", "import/HyperHDG/import_cxx/names.py", "import/HyperHDG/import_cxx/compile_prep.py", "import/HyperHDG/import_cxx/config.py", "import/HyperHDG/import_cxx/cpp.py", "import/HyperHDG/import_cxx/paths.py"],
 mech=[("include", "import/HyperHDG/import_cxx/include.py"), ("files, names, extract_includes, need_compile", "import/HyperHDG/import_cxx/names.py")],
 observe=["the class returned by HyperHDG.include", "calls of cython, compiler and linker"],
 tech="stateful model-based testing with injected stand-ins for cython, compiler and linker; differential against a clean build", note="Time stamps come from a logical clock with one tick per edit; edits within one clock tick of a build are not claimed."),
dict(id="P29", title="The Python classes compute what the C++ classes compute",
 statement="For every global loop with a Python class (elliptic, parabolic, nonlinear, mass-approximating and shifted-inverse eigenvalue problems), every constructor that the C++ class has, and every history of calls with any vectors, times, options and refinements, each method of the Python class returns exactly what the C++ method of that name returns for the same history (optional arguments having the defaults of the C++ class), and plots write identical files. The classes build from their templates with cython and the C++ compiler.",
 over=[I, H], quant="all problems, constructor arguments and histories of calls",
 why="No test builds or calls a Python class.",
 files=["cython/elliptic.pyx", "cython/elliptic.pxd", "cython/parabolic.pyx", "cython/parabolic.pxd", "cython/nonlinear_eigenvalue.pyx", "cython/mass_approx_eigenvalue.pyx", "cython/shifted_inverse_eigenvalue.pyx", "import/HyperHDG/import_cxx/include.py"],
 mech=[("PythonClassName", "cython/elliptic.pyx"), ("PythonClassName", "cython/parabolic.pyx"), ("PythonClassName", "cython/nonlinear_eigenvalue.pyx")],
 observe=["return values of all methods of the Python classes", "plot files"],
 tech="property-based testing: generated call histories, bitwise differential of the Python class against a C++ program", note="A transparent local solver takes the place of a PDE; a geometry argument without a local solver argument is not a constructor of the C++ class and not claimed."),
dict(id="P30", title="Eigenvalue problems on networks and boxes have the eigenvalues of the continuous problem",
 statement="For every network of lines with branching points (in any embedding, numbering and refinement), coefficient, penalty and shift, the operators of the three eigenvalue loops with the eigenvalue solvers for diffusion and plates act on node values as the continuous problem does: at a shift they are the node fluxes of the exact solutions of -(k u')' = shift u (respectively the fourth-order equation) on every line up to the discretisation error, the Jacobian is the derivative of that map, stiffness and mass of the mass approximation are exact on lines, initial values are nodal values, and the prescribed degrees of freedom are reported as such. On every box (cubic graph or patch from a file, any embedding and refinement) each exact Dirichlet eigenvalue is one of the discrete problem up to the discretisation error.",
 over=[I, C], quant="all networks, boxes, embeddings, refinements, coefficients, penalties, shifts and modes",
 why="No test runs an eigenvalue problem; every eigenvalue example needs loop, graph and solver together.",
 files=["include/HyperHDG/global_loop/nonlinear_eigenvalue.hxx", "include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx", "include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx", "include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx", "include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx"],
 mech=[("trace_to_flux, jacobian_of_trace_to_flux, make_initial", "include/HyperHDG/global_loop/nonlinear_eigenvalue.hxx"), ("trace_to_mass_flux", "include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx"), ("trace_to_flux", "include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx")],
 observe=["results of the operators of the eigenvalue loops", "eigenvalues of the assembled matrices"],
 tech="property-based testing: closed-form Dirichlet-to-Neumann maps of generated networks, exact eigenvalues of generated boxes by inverse iteration", note="Error bounds are ten to twenty times the worst observed error by degree, of the proven order in wave number times mesh size; the penalty is kept above the value at which a single hyperedge may resonate."),
dict(id="P31", title="The model problems that come with the library are solved by the solutions they state, and the solvers converge to them",
 statement="For every model problem in reproducibles_python/parameters (diffusion, diffusion with advection and reaction, plates, transport), every space dimension, point, time and tangential direction of a hyperedge, the stated exact solution satisfies the equation of the matching local solver with the stated coefficients and right-hand side, the boundary and initial values are those of the solution, and the lists of boundary types are those of the problem. Run with these problems through the complete stack (loop, graph, node descriptor, local solver), every solver has an L2 error that decreases with the mesh size at order p + 1 (p + 2 after postprocessing), and with the time step at first (implicit Euler) or second order (Crank-Nicolson), for every degree, mesh, refinement, penalty and start time.",
 over=[I, C], quant="all model problems, dimensions, points, times, tangential spaces; all degrees, meshes, penalties, time steps and start times",
 why="The tests that solve these problems need Python modules that cannot be built here, and sample a single mesh sequence, penalty and start time.",
 files=["reproducibles_python/parameters/diffusion.hxx", "reproducibles_python/parameters/diffusion_advection_reaction.hxx", "reproducibles_python/parameters/bilaplacian.hxx", "reproducibles_python/parameters/advection.hxx", "include/HyperHDG/local_solver", "include/HyperHDG/global_loop/elliptic.hxx", "include/HyperHDG/global_loop/parabolic.hxx"],
 mech=[("TestParameters* classes", "reproducibles_python/parameters"), ("errors", "include/HyperHDG/global_loop/elliptic.hxx"), ("make_initial, set_data, errors", "include/HyperHDG/global_loop/parabolic.hxx")],
 observe=["functions of the parameter classes", "errors of the discrete solutions"],
 tech="property-based testing: residual of the stated solution in the equation by numerical differentiation at generated points; error bounds of the promised order for generated discretisations", note="The constants of the bounds are about 2.5 times the largest ones observed in 2 900 calibration runs; non-polynomial solutions, so the checks of exactness (P26, P27) do not cover them."),
]
