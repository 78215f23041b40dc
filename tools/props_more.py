prop('C01', 'Robust simplicial zero tests are sign-consistent and order-independent',
 'For all fixed-point vector values and distinct vertex ids, the robust orientation sign is never zero, equals the exact determinant sign when that is nonzero and otherwise the sign under a symbolic perturbation that depends only on the ids. Swapping two vertices flips the orientation; the verdict that a simplex contains the zero (or a given point) does not depend on the order in which its vertices are listed and equals exact containment on non-degenerate data. As a result a zero on a shared edge, vertex or face is attributed consistently by all simplices that share it: it is never lost or counted twice.',
 'every integer vector/point value (including all degenerate, collinear and zero ones), every assignment of distinct ids, every vertex order, dimensions 1 to 3',
 'Tests use a few synthetic fields; degenerate sign patterns and id orders have measure zero or combinatorially many cases.',
 [N+f for f in ('sign_det.hh','critical_point_test.hh','swap.hh','sign.hh','det.hh')],
 [('perturbed determinants', N+'sign_det.hh'), ('containment', N+'critical_point_test.hh')],
 note='Proof over exact integers (quantised values as mathematical integers).')
prop('C02', 'Every simplex of a regular mesh has one unique id and is visited exactly once',
 'On a regular space or space-time mesh of any bounds, mapping an element to its integer id and back returns the same element, distinct elements have distinct ids, ids of d-simplices fill exactly 0..n(d)-1, and no id computation overflows. Iterating over all elements, over the ordinal elements of a timestep or over the interval elements between two timesteps (optionally restricted to a sub-lattice) visits every such element exactly once and nothing else. A parallel loop calls its body exactly once per index whatever the number of threads.',
 'every lattice size and offset, mesh dimensions 1 to 4, every element dimension, scope and id; every number of tasks and threads',
 'Tests enumerate one or two tiny meshes; ids of large meshes, offset bounds and odd thread splits are never exercised.',
 [M+'simplicial_regular_mesh.hh', M+'lattice.hh', 'include/ftk/object.hh'],
 [('ids', M+'simplicial_regular_mesh.hh'), ('iteration', M+'simplicial_regular_mesh.hh'), ('parallel loop', 'include/ftk/object.hh')],
 note='Ids and work indices proved for symbolic mesh sizes; the thread split of the parallel loop is bounded (tasks<=9, threads<=5).')
prop('C03', 'The regular-mesh triangulation is complete and its incidences are exact',
 'The simplex types of the regular mesh in dimension 1 to 4 are exactly the ordered vertex chains of the unit cube (so the n! top simplices per cell tile the cube and neighbouring cells agree on shared faces). The sides of a simplex are exactly its facets and the simplices listed as containing it are exactly those that have it as a side, and both keep the right dimension and position. An element is valid exactly when all of its vertices lie inside the mesh bounds.',
 'every mesh position and bounds, every simplex type of every dimension in 1D to 4D meshes',
 'Tests check counts for small meshes only; a wrong neighbour offset or a missing coface silently breaks trajectories only in rare configurations.',
 [M+'simplicial_regular_mesh.hh'],
 [('simplex types', M+'simplicial_regular_mesh.hh'), ('sides and side-of', M+'simplicial_regular_mesh.hh')],
 note='All types enumerated (finite); positions and bounds symbolic.')
prop('C04', 'Lattice coordinates and linear indices are in bijection',
 'For every lattice with any starts and sizes, converting a contained point to its linear index and back returns the same point, indices fill exactly [0, number of points), and index order is first-dimension-fastest. Containment, lower/upper bounds, sizes and conversion to and from block bounds agree with the half-open box [start, start+size). Only a lattice whose last extent is the sentinel is treated as unlimited in time, and that dimension is never cut.',
 'every start, size and point in 1 to 4 dimensions',
 'Tests use one or two lattices.',
 [M+'lattice.hh'], [('index conversion', M+'lattice.hh'), ('bounds', M+'lattice.hh')],
 note='Full proof for symbolic starts and sizes in 1D to 4D.')
prop('C05', 'Domain decomposition tiles the domain exactly and ghosts are clamped',
 'Partitioning a lattice into a requested number of blocks either is refused or gives that many blocks which lie inside the lattice, do not overlap and together cover every point exactly once, honouring any requested number of cuts per dimension; an unlimited time dimension is never cut. The ghost extent of each block is the block grown by the requested widths on each side, clamped to the lattice, and is stored in the same order as the blocks.',
 'every lattice start and size, every ghost width, in 1D to 3D',
 'Tests partition one or two lattices; off-by-one remainders and clamping depend on divisibility.',
 [M+'lattice_partitioner.hh', M+'lattice.hh'], [('partition', M+'lattice_partitioner.hh'), ('ghost', M+'lattice_partitioner.hh')],
 note='Ghosts proved; tiling is bounded in the number of blocks (1..9, 12, 16) with symbolic lattices.')
prop('C06', 'N-dimensional arrays keep every element at the position its index denotes',
 'For every shape, an element written through any accessor is read back unchanged through every other accessor of the same coordinates, sits at its first-dimension-fastest position, and the write changes no other element; element counts and positions are exact for arrays of any representable size. Reshaping, copying, converting and swapping keep shape, flags and elements as documented, and coordinates recovered from a position are the original ones. Element-wise arithmetic, filling, clamping and the reductions (minimum, maximum, magnitude) have their mathematical meaning on every element.',
 'every shape of 1 to 5 dimensions (accessors: up to 7), every element position and every value',
 'Tests read back a handful of elements of tiny arrays; stride or overflow mistakes show only for particular extents.',
 [ND,'include/ftk/ndarray/ndarray_base.hh'], [('layout', ND), ('shape bookkeeping', 'include/ftk/ndarray/ndarray_base.hh')],
 note='Shapes, positions and contents symbolic (unbounded loops by the loop-summary rule); reductions and equality bounded.')
prop('C07', 'Slices, boxes, transposes, stacks and stored arrays put each element in its place',
 'Taking a time slice, a box or a sub-array of an array, transposing it, interleaving several arrays into components or stacking them along a new last dimension produces the documented shape, and every element of the result is exactly the element of the source that its coordinates denote; the source is unchanged. Writing an array out and reading it back, in binary or serialised form, reproduces shape, flags and all elements.',
 'every shape, box, time index and content of 1 to 4 dimensional arrays; multicomponent arrays with vector and matrix components',
 'Tests slice one or two arrays; wrong strides cancel on cubic shapes and boxes at the origin.',
 [ND,'include/ftk/ndarray/ndarray_base.hh'], [('slicing', ND), ('transposition', ND), ('serialisation', ND)],
 note='Slices, boxes, 2D transposition, concat/stack and binary transfer proved for symbolic shapes; 3D/4D transposition, multicomponent boxes and serialisation bounded.')
prop('C09', 'Connected components, union-find and graph searches are exact',
 'After any sequence of operations on a union-find structure two elements are reported in the same set exactly when they are connected by the unions performed, queries never change the partition, and the listed sets contain every element exactly once. Component extraction and image labelling return exactly the connectivity classes of the qualified nodes (components of successive steps are linked exactly when they share a node), breadth-first search visits each reachable accepted node once and no other, and the shortest-path search returns a shortest path.',
 'every reachable union-find state, every graph, every qualified set or criterion, every binary image, every positive edge weight',
 'Tests use one or two small graphs; path compression, one-sided adjacency and label equivalences only matter on particular shapes and orders.',
 ['include/ftk/basic/union_find.hh','include/ftk/basic/simple_union_find.hh','include/ftk/basic/duf.hh']+[A+f for f in ('cca.hh','cca_bfs.hh','bfs.hh','dijkstra.hh','hoshen_kopelman.hh')],
 [('union-find', 'include/ftk/basic/union_find.hh'), ('components', A+'cca.hh'), ('labelling', A+'hoshen_kopelman.hh')],
 over=('inputs','histories'), level='other',
 note='Bounded: one operation from every state (4 or 5 elements; inductive over histories), every graph on 3-4 nodes, every image up to 4x3.')
prop('C21', 'Nearest-neighbour queries return a true nearest point',
 'The spatial search tree contains every input point, each node separates its children along its axis, and a nearest-neighbour query returns a point of the set such that no other point is closer to the query location, in two and three dimensions, including ties, duplicates and query points on splitting planes.',
 'every point set, every query location',
 'Tests compare random points in general position; ties and points on splitting planes never occur.',
 ['include/ftk/basic/kd.hh'], [('search', 'include/ftk/basic/kd.hh'), ('construction', 'include/ftk/basic/kd.hh')],
 note='The search step is proved for any depth and number of points by induction over the recursion contract; construction bounded (<=4 points).')
prop('C11', 'Interpolation reproduces its data and inverse interpolation finds exactly the zero',
 'Linear, bilinear, trilinear, quadratic and gridded multilinear interpolation return the exact weighted combination of the surrounding values for every position inside, and positions outside are refused. Quadratic fits take the given values at vertices and midpoints and their gradients and Hessians are their derivatives. Inverse interpolation on edges, triangles, tetrahedra and bilinear cells returns weights that sum to one and interpolate to zero (or minimise the residual), and reports a zero exactly when these weights lie in the cell.',
 'every vertex value, position, tolerance and grid size (non-degenerate simplices); real arithmetic',
 'Tests evaluate a handful of sample points; a wrong weight, index or range comparison only shows at particular positions.',
 [N+f for f in ('linear_interpolation.hh','inverse_linear_interpolation_solver.hh','bilinear_interpolation.hh','inverse_bilinear_interpolation_solver.hh','trilinear_interpolation.hh','quadratic_interpolation.hh','wachspress_interpolation.hh')]+[ND],
 [('barycentric', N+'linear_interpolation.hh'), ('inverse', N+'inverse_linear_interpolation_solver.hh'), ('gridded', ND)],
 note='Proof over the reals; multi-component gridded interpolation bounded (one 3x4 grid).')

prop('C12', 'Polynomial arithmetic is exact and the real root solvers return exactly the roots',
 'Sums, differences, products, multiples, derivatives and values of polynomials have their mathematical meaning for every pair of degrees. The linear, quadratic and cubic solvers return every real root of the polynomial and nothing else, including when roots repeat or when leading or constant coefficients vanish, never write beyond the roots they report, and report the right multiplicities where they report any; complex solvers return the conjugate pair and the discriminant.',
 'every real coefficient vector (each coefficient zero or above the solver tolerance)',
 'Tests use random coefficients, where repeated roots and vanishing coefficients have probability zero.',
 [N+f for f in ('polynomial.hh','linear_solver1.hh','quadratic_solver.hh','cubic_solver.hh')],
 [('arithmetic', N+'polynomial.hh'), ('quadratic roots', N+'quadratic_solver.hh'), ('cubic roots', N+'cubic_solver.hh')],
 note='Root solvers proved over the reals (pow/acos/cos by their defining equations; the complex pair of a cubic with one real root is not covered); polynomial arithmetic bounded in the degree.')
prop('C14', 'Eigenvalues are right and critical points are classified by their signs',
 'Eigenvalues of symmetric and general 2x2 and symmetric 3x3 matrices and generalised eigenvalues are exactly the roots of the characteristic polynomial, with multiplicity; computed eigenvectors have unit length and satisfy the eigenvector equation. A critical point is reported as minimum, maximum, saddle, attracting, repelling, focus, center or degenerate exactly as the signs of its eigenvalues (real and imaginary parts) dictate, and every type has its own name.',
 'every real matrix (symmetric where stated; eigenvectors: component sum not zero, simple eigenvalue)',
 'Tests check random matrices; degenerate, repeated and complex cases are never sampled and the classification itself is not tested.',
 [N+f for f in ('critical_point_type.hh','eigen_solver2.hh','eigen_solver3.hh','characteristic_polynomial.hh','symmetric_matrix.hh','matrix_decomposition.hh')],
 [('classification', N+'critical_point_type.hh'), ('2x2 eigenvalues', N+'eigen_solver2.hh'), ('3x3 eigenvalues', N+'eigen_solver3.hh')],
 note='Proved over the reals; acos/cos/pow and the complex square root by their defining equations; callees of the classification replaced by their contracts.')
prop('C15', 'Gradient, Jacobian and derived fields are the central differences at every node',
 'Gradients and Jacobians of scalar and vector fields on regular 2D/3D grids (static and time varying) are, at every interior node, every timestep and for every component and direction, the difference of the two neighbours in that direction times the same fixed factor of that field. Vorticity, cross products and products of the Jacobian (or its transpose) with the field equal their definitions at every interior node, and gradients on triangles and tetrahedra are exact for every affine field.',
 'every scalar or vector field on every grid (extents bounded as stated), every nondegenerate simplex',
 'The result at one node of one component can be wrong (index swapped, slice missed, sign) while the tracked features of the sampled synthetic data stay the same.',
 ['include/ftk/ndarray/grad.hh', N+'gradient.hh', N+'linear_solver.hh'],
 [('regular grids', 'include/ftk/ndarray/grad.hh'), ('simplices', N+'gradient.hh')],
 note='Regular grids bounded in the extents (all values symbolic); simplex gradients proved.')
prop('C08', 'Smoothing kernels are normalised Gaussians and convolutions the sums they denote',
 'Gaussian kernels in 1D, 2D and 3D are positive, symmetric, sum to one and weight every entry by the Gaussian of its distance from the center. Every element of a convolution is the kernel-weighted sum of its window, with zero outside the domain, divided by the kernel size, and the result has exactly the shape that data, kernel and padding determine.',
 'every data array, kernel and sigma (extents bounded as stated)',
 'Smoothing is only exercised through whole trackers on a few images; shifted windows, wrong borders or a wrong weight at one kernel entry change the result slightly and no test compares the values.',
 ['include/ftk/ndarray/conv.hh'],
 [('convolution', 'include/ftk/ndarray/conv.hh')],
 note='Bounded in the extents; values, kernels and sigma symbolic; exp assumed to be a positive function of its argument.')
prop('C13', 'Interval arithmetic denotes set operations and inequality solvers the solutions',
 'An interval (ends finite or infinite, open or closed) contains exactly the numbers between its ends; intersection, union, overlap, emptiness and the special intervals, and unions and intersections of several intervals, denote the corresponding set operations. The linear inequality solver returns exactly the solution set and the cubic one its closure (up to isolated zeros); fixed-point numbers add, compare, multiply, divide and convert exactly on their scaled integers.',
 'every interval, every real coefficient vector (unions of up to three intervals), every scaled integer within range',
 'Touching, open, empty and unbounded intervals are corner cases random endpoints never produce; the one existing test draws a random linear inequality.',
 [N+f for f in ('basic_interval.hh','disjoint_intervals.hh','linear_inequality_solver.hh','cubic_inequality_solver.hh','fixed_point.hh')],
 [('intervals', N+'basic_interval.hh'), ('unions', N+'disjoint_intervals.hh'), ('inequalities', N+'cubic_inequality_solver.hh'), ('fixed point', N+'fixed_point.hh')],
 note='Single intervals, inequalities and fixed point proved over the reals / integers (cubic root solver by its contract, see C12); unions bounded to three intervals.')
prop('C16', 'Space-time extrusion of unstructured meshes is complete and its incidences exact',
 'Extruding a triangular or tetrahedral mesh in time yields, per time step, elements whose ids decode to the documented vertices at this and the next step, and (for triangular meshes) encode back to the same id, for any step including negative ones. The sides of every element are exactly its faces and the elements listed as containing a face are exactly those that have it, across prisms and steps, so space-time cells tile without gaps. Elements within a step and between steps partition all elements, coordinates and neighbours follow the base mesh, and ids of a part resolve to the global element.',
 'every base mesh (seen through its contract: sorted vertices, unique ids), every element type and base simplex, every step within range',
 'Tests run one tracker on one mesh; a wrong neighbour at one relative position, a wrong id at a negative step or a missing coface only breaks particular trajectories.',
 [M+f for f in ('simplicial_unstructured_extruded_2d_mesh.hh','simplicial_unstructured_extruded_2d_mesh_implicit.hh','simplicial_unstructured_extruded_3d_mesh.hh')],
 [('triangular base', M+'simplicial_unstructured_extruded_2d_mesh_implicit.hh'), ('tetrahedral base', M+'simplicial_unstructured_extruded_3d_mesh.hh')],
 note='Proof for symbolic mesh sizes, ids and steps against the contract of the base mesh; at most two cofaces of a base simplex at a time. Vertex-to-step decoding in 2D restricted to steps >= 0.')
prop('C17', 'Mesh connectivity, derivatives and smoothing follow the element list exactly',
 'For triangular and tetrahedral meshes given by coordinates and elements (vertices in any order), every edge, triangle and tetrahedron has exactly one id, is found by its vertices, and the reported sides, cofaces and neighbours are exactly those implied by the element list; ids of a part resolve to the global ones. Field derivatives on a mesh are exact for affine fields and otherwise the mean over the adjacent elements, evaluation at a point is the barycentric combination, and the nearest vertex is nearest. Smoothed fields, gradients and second derivatives are the Gaussian-kernel-weighted sums over exactly the vertices connected within three sigma.',
 'every element list of the stated sizes with any vertex order, every field, coordinate and weight value',
 'A wrong neighbour or id of one element type only affects trajectories through it, and derivative errors stay invisible as long as only topology of sampled data is compared.',
 [M+f for f in ('simplicial_unstructured_2d_mesh.hh','simplicial_unstructured_3d_mesh.hh')]+['include/ftk/algorithms/bfs.hh'],
 [('triangles', M+'simplicial_unstructured_2d_mesh.hh'), ('tetrahedra', M+'simplicial_unstructured_3d_mesh.hh')],
 note='Bounded: all meshes of up to 3 elements (connectivity enumerated symbolically); field values, coordinates, weights and sigma symbolic.')
prop('C23', 'Point location finds a triangle containing the point whenever there is one',
 'Locating a point in a triangular mesh returns a triangle whose closed area contains the point together with its barycentric coordinates, and reports none only if no triangle contains it, including points on edges, vertices and the outer boundary. The search tree holds every triangle in exactly one leaf, the box of every node contains all triangles below it, and its flat copy is identical.',
 'every point; every node of the tree at any depth (elements per node bounded as stated)',
 'Points on box boundaries and triangles reaching over their quadrant are measure-zero or rare cases that a sampled test never hits.',
 [M+f for f in ('point_locator_2d_quad.hh','aabb.hh','bvh2d.hh')],
 [('point locator', M+'point_locator_2d_quad.hh'), ('boxes', M+'aabb.hh')],
 note='Barycentric test, boxes and the leaf case proved; tree construction by a recursion contract for two elements per node; search bounded to trees of up to seven nodes with symbolic boxes. Meshes with coinciding triangle centroids excluded.')
F='include/ftk/filters/'
prop('C18', 'Critical point trackers report exactly the cells containing a zero',
 'On regular grids in two and three dimensions, a point is reported for a space-time cell exactly when the robust test finds a zero of the quantised field in it, where every cell vertex uses the sample of the right grid position and snapshot. Its position, time and scalar are the interpolation at the zero in the configured coordinates (lattice, bounds, rectilinear or explicit), its type follows the interpolated Jacobian, and its tag, timestep and flag for lying within one timestep identify the cell. Each timestep tests every cell of the step and every cell up to the next one, keeps exactly the points of the requested types, advances by one snapshot, and loses or alters no stored point.',
 'every field value, Jacobian, scalar, coordinate, domain and array extent, mesh offset, timestep and cell type (12 in 2D+time, 60 in 3D+time)',
 'Tests track a few synthetic fields with default options on square domains at the origin; offsets, other coordinate modes, given Jacobians and filters are hardly exercised.',
 [F+f for f in ('critical_point_tracker_2d_regular.hh','critical_point_tracker_3d_regular.hh','critical_point_tracker_regular.hh','critical_point_tracker.hh','regular_tracker.hh')],
 [('cell test', F+'critical_point_tracker_3d_regular.hh'), ('snapshots', F+'critical_point_tracker.hh'), ('set-up', F+'regular_tracker.hh')],
 note='Proof against the contracts of the zero test (C01), inverse interpolation (C11), classification (C14) and derivatives (C15); one process, fewer than 2^31 lattice points; choice of the quantisation factor not covered; stepping, storing and joining bounded as stated.')
