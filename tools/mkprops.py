"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['pycomplex/' + f for f in files],
                     state=[dict(name=n, meaning=m) for n, m in state],
                     mechanism=[dict(name=n, where='pycomplex/' + w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


I, H, C = 'inputs', 'histories', 'configurations'

prop('C01', 'Incidence matrices form a signed chain complex with every face once',
     'From any list of cells (simplices or cubes, any dimension, vertex naming, cell order, corner order), the topology lists every '
     'face of every cell exactly once, keeps the given cells, and relates n- and n+1-elements by matrices whose entries are +-1 '
     'exactly for incident pairs, with the sign of the induced orientation under one convention per dimension. Consecutive matrices '
     'multiply to zero, and the chain check rejects any complex where they do not.',
     [I], 'all cell lists, dimensions 1-4, any orientation, relabelling, union, identification',
     'tests build a few meshes and look at one product or an Euler number; sign errors that need a particular corner order or a face '
     'shared in a particular way pass unnoticed',
     ['topology/primal.py', 'topology/simplicial.py', 'topology/cubical.py', 'topology/base.py', 'topology/util.py'],
     [('boundary generation', 'topology/simplicial.py generate_simplex_boundary'), ('cube boundary generation', 'topology/cubical.py generate_cube_boundary'),
      ('relative parity', 'topology/simplicial.py relative_simplex_parity'), ('matrix assembly', 'topology/util.py topology_matrix')],
     ['elements', 'matrices', 'n_elements', 'check_chain'],
     [('matrices', 'signed incidence between n and n+1 elements')])

prop('C02', 'Orientation is decided and repaired correctly',
     'A complex reports being oriented exactly when every shared facet is seen from opposite sides by its two cells; for every orientable '
     'complex, connected or not and with loose cells, fixing the orientation yields the same cells with consistent orientation. '
     'For a non-orientable complex both the query for relative parity and the repair are rejected, and boundary and dual refuse a '
     'mis-oriented complex.',
     [I], 'all orientable and non-orientable complexes in any corner order, with any number of components',
     'tests cover a Moebius strip and a grid; the SAT encoding must be right for every graph of cells',
     ['topology/base.py', 'topology/simplicial.py', 'topology/cubical.py'],
     [('SAT parity', 'topology/base.py relative_parity'), ('repair', 'topology/simplicial.py fix_orientation')],
     ['relative_parity', 'is_oriented', 'fix_orientation', 'boundary', 'dual'])

prop('C03', 'Boundary is exactly the once-covered facets, oriented and closed',
     'The boundary of an oriented complex consists of exactly the facets that belong to one cell, with their faces, carries the induced '
     'orientation and the parent\'s own incidence signs, names its elements in the parent correctly, and has no boundary itself; a complex is closed exactly when there are no such facets. '
     'The boundary and interior selectors split every chain into precisely the elements on and off the boundary.',
     [I], 'all oriented complexes of dimension 1-4, with holes, several components, non-manifold contacts',
     'tests look at counts on one or two meshes', ['topology/primal.py', 'topology/util.py'],
     [('boundary extraction', 'topology/primal.py boundary'), ('selectors', 'topology/primal.py selector_boundary')],
     ['boundary', 'boundary.parent_idx', 'is_closed', 'selector_interior', 'selector_boundary'])

prop('C04', 'Dual topology is the transpose of the primal, closed at the boundary',
     'The dual of an oriented complex is the reversed, transposed chain complex, completed by the dual of the boundary such that '
     'consecutive matrices multiply to zero and every dual edge runs between exactly two dual vertices. Element counts, selectors and the stripped '
     'derivative agree with that numbering.',
     [I], 'all oriented complexes of dimension 1-4, open or closed',
     'tests check chains of three meshes with a check that skips the last pair', ['topology/dual.py', 'topology/primal.py'],
     [('gluing of the boundary dual', 'topology/dual.py Dual.matrices')],
     ['dual.matrices', 'dual.matrices_2', 'dual.n_elements', 'dual.selector_interior', 'dual.selector_boundary'])

prop('C05', 'Subsets, components and manifoldness reflect the cells',
     'Selecting cells gives a topology of exactly those cells whose parent indices lead every element back to the same element of the '
     'parent; splitting partitions the cells into facet-connected components, largest first. Component labels, connectedness, the number '
     'of local regions per vertex and the manifold verdict agree with a direct graph traversal.',
     [I, H], 'all complexes and all (nested) selections',
     'tests select once from one mesh', ['topology/primal.py', 'topology/base.py'],
     [('subset', 'topology/primal.py select_subset'), ('components', 'topology/base.py label_connections'), ('regions', 'topology/base.py regions_per_vertex')],
     ['select_subset', 'parent_idx', 'split_connected_components', 'label_connections', 'regions_per_vertex', 'is_manifold'])

prop('C06', 'Every subdivision refines the topology without changing it',
     'Each subdivision (fundamental, cubical, simplicial, loop, direct loop) and each product yields a valid complex with the element '
     'counts, Euler characteristic, boundary and covered volume of what it subdivides or multiplies, and is consistently oriented (equal to the '
     'parent orientation up to one global sign). Cells of the result lie in the parent cell they are attributed to.',
     [I], 'all oriented complexes in the dimensions each subdivision supports',
     'tests plot or check an Euler number of one mesh', ['topology/simplicial.py', 'topology/cubical.py', 'complex/simplicial/base.py', 'complex/cubical.py', 'complex/simplicial/euclidian.py', 'complex/simplicial/spherical.py'],
     [('fundamental domains', 'topology/simplicial.py fundamental_domains'), ('cubical domains', 'topology/cubical.py cubical_domains'), ('loop', 'topology/simplicial.py subdivide_loop_direct'), ('product', 'topology/cubical.py product')],
     ['subdivide_fundamental', 'subdivide_cubical', 'subdivide_simplicial', 'subdivide_loop', 'subdivide_loop_direct', 'product'])

prop('C07', 'Transfer operators between subdivision levels are chain maps of coincidence',
     'For every subdivision that offers transfer operators, the operator for n-elements has a one exactly where a fine n-element lies inside '
     'a coarse n-element, on the primal and on the dual including its boundary; where fine elements keep the orientation of the coarse ones (loop, direct loop), the '
     'operators commute with the boundary matrices as signed chain maps.',
     [I, H], 'all oriented complexes, repeated subdivision',
     'tests assert commutation on one mesh', ['topology/simplicial.py', 'topology/cubical.py', 'topology/dual.py'],
     [('loop transfer', 'topology/simplicial.py subdivide_loop_transfer'), ('cubical transfer', 'topology/cubical.py subdivide_cubical_transfers'), ('dual transfer', 'topology/dual.py transfer_matrices')],
     ['transfer_matrices', 'dual.transfer_matrices'])

prop('C08', 'Averaging operators and degrees count incidences exactly',
     'The averaging operators from vertices and from cells have rows that sum to one and weigh exactly the incident elements, equally; the '
     'degree of an element is the number of cells it belongs to, for any valence.',
     [I], 'all complexes including very high valence',
     'tests use small valences, where narrow integer types do not overflow', ['topology/base.py', 'sparse.py'],
     [('accumulated incidence', 'topology/base.py accumulated_operators_N'), ('degree', 'topology/base.py degree')],
     ['averaging_operators_0', 'averaging_operators_N', 'degree'])

prop('C09', 'Euclidean metrics and Hodge stars measure the real geometry',
     'For any embedded Euclidean simplicial complex (also weighted and off-origin) primal metrics are the Hausdorff measures of the elements, '
     'metrics scale, and are invariant to rigid motion and renaming; where (weighted) circumcentres lie inside their elements, the dual metrics are the measures of the circumcentric dual cells '
     'including those on the boundary, and primal times dual metric of each dimension sums to binomial times the total volume. Hodge stars are the ratios of dual to primal metric. The face opposite each corner, its relative orientation, and sums over faces and corners are those of the incidence.',
     [I], 'well-centred meshes for the dual metric, any mesh for the primal metric; dimensions 1-3',
     'tests compare one metric sum on one mesh', ['complex/simplicial/euclidian.py', 'complex/base.py', 'geometry/euclidian.py'],
     [('metric', 'complex/simplicial/euclidian.py metric'), ('hodge', 'complex/base.py hodge_from_metric')],
     ['primal_metric', 'dual_metric', 'hodge_DP', 'hodge_PD'])

prop('C10', 'Spherical metrics tile the sphere',
     'Primal cell areas and dual cell areas of a closed spherical complex each sum to the area of the sphere of its radius, edge lengths '
     'are great-circle distances, and all metrics scale with the power of the radius matching their dimension; sub-complexes measure what they cover. The dual statements are for triangles that contain their circumcentre.',
     [I], 'all Delaunay triangulations of the sphere, random radius, rotations, subdivisions',
     'tests check the sum on one icosphere', ['complex/simplicial/spherical.py', 'geometry/spherical.py'],
     [('metric', 'complex/simplicial/spherical.py metric')], ['primal_metric', 'dual_metric', 'primal_position', 'dual_position'])

prop('C11', 'Regular-grid metrics and duals measure boxes exactly',
     'For regular (axis-aligned box) complexes, their subdivisions, subsets and boundaries, primal metrics are the exact measures of the boxes, '
     'dual metrics are the exact measures of the clipped dual cells, and both tile the domain; positions are box and dual cell centres.',
     [I], 'all grid shapes 1-4D, holes, subset selections',
     'tests use tiny grids', ['complex/regular.py', 'geometry/regular.py'],
     [('metric', 'complex/regular.py metric')], ['primal_metric', 'dual_metric', 'primal_position', 'dual_position'])

prop('C12', 'Euclidean geometry primitives satisfy their defining equations',
     'Circumcentres are equidistant (equal power when weighted) from the corners and lie in their hull plane, volumes equal the Gram determinant, normals '
     'are orthogonal with the right-hand sign, barycentric coordinates reproduce the point; each within rounding relative to the size of the simplex, '
     'wherever it is placed and however scaled.',
     [I], 'all non-degenerate simplices in all dimensions n <= N, batch shapes, scales 1e-6..1e6, offsets',
     'tests use a random unit-scale simplex', ['geometry/euclidian.py', 'math/linalg.py'],
     [('circumcentre', 'geometry/euclidian.py circumcenter_barycentric'), ('volume', 'geometry/euclidian.py unsigned_volume')],
     ['circumcenter', 'circumcenter_barycentric_weighted', 'unsigned_volume', 'simplex_normals', 'segment_normals', 'barycentric'])

prop('C13', 'Spherical geometry primitives satisfy spherical trigonometry',
     'Edge lengths are finite great-circle angles for every pair of unit vectors, triangle areas are the (unsigned) spherical excess, which adds up under subdivision and '
     'is invariant to rotation, mirroring and corner order; circumcentres are unit and equidistant, intersections lie on both great circles.',
     [I], 'all unit vectors including nearly equal and nearly antipodal ones, tiny and huge triangles',
     'tests check one octant', ['geometry/spherical.py'],
     [('areas', 'geometry/spherical.py triangle_area_from_corners')],
     ['edge_length', 'triangle_area_from_corners', 'triangle_angles', 'triangle_circumcenter', 'intersect_edges'])

prop('C14', 'Primal point location finds the containing simplex',
     'Picking a point in a simplicial complex returns a cell that contains it and barycentric coordinates that are non-negative, sum to one and '
     'reproduce the point, irrespective of batch shape or neighbours; for a point outside, the (partly negative) coordinates of the returned cell '
     'still reproduce the point. The search of all cells agrees.',
     [I, H], 'all (weighted) Delaunay meshes, Euclidean and spherical, of one or several components, and all query points',
     'tests pick a regular grid of points and plot', ['complex/simplicial/base.py', 'complex/simplicial/euclidian.py', 'complex/simplicial/spherical.py'],
     [('pick', 'complex/simplicial/euclidian.py pick_primal')], ['pick_primal'])

prop('C15', 'Dual and fundamental point location agree with weighted distance',
     'Picking the dual cell of a point returns the vertex whose (weighted) power distance is smallest, and picking the fundamental domain returns '
     'a domain that contains the point, with coordinates that reproduce it and the indices of the elements that span it.',
     [I, H], 'all pairwise Delaunay meshes (well centred for fundamental domains), weights and query points',
     'tests plot the result', ['complex/simplicial/base.py', 'complex/simplicial/euclidian.py', 'complex/simplicial/spherical.py'],
     [('dual pick', 'complex/simplicial/euclidian.py pick_dual'), ('fundamental pick', 'complex/simplicial/base.py pick_fundamental')],
     ['pick_dual', 'pick_fundamental'])

prop('C16', 'Sampling a 0-form reproduces what it interpolates',
     'Sampling a primal 0-form is linear, exact on affine functions, equals the vertex value at vertices and stays within the range of the cell; sampling a dual '
     '0-form is linear, exact on constants, equals the cell value at the cell centre and stays within the range of the cells around the nearest vertex.',
     [I], 'all pairwise Delaunay meshes (well centred for dual forms), scalar and vector valued forms, query points',
     'tests plot the result', ['complex/simplicial/base.py', 'complex/simplicial/euclidian.py', 'complex/simplicial/spherical.py'],
     [('sampling', 'complex/simplicial/base.py sample_primal_0')], ['sample_primal_0', 'sample_dual_0'])

prop('C17', 'Picking and sampling on regular grids is exact',
     'On a uniform axis-aligned regular complex, holes included, the picked cube contains the point for any hint, multilinear interpolation reproduces multilinear functions, and dual and fundamental picks name the nearest vertex and the domain that contains the point.',
     [I, H], 'all grids with holes, query points, hints',
     'tests plot the result', ['complex/regular.py'], [('pick', 'complex/regular.py pick_primal')],
     ['pick_primal', 'pick_fundamental', 'sample_primal_0', 'sample_dual_0'])

prop('C18', 'Smoothing and subdivision act as their operators',
     'Subdividing and smoothing a complex moves vertices exactly by the advertised linear operators, whose rows sum to one, which commute with affine maps and renaming, keep crease vertices determined by their crease alone, and never mix components.',
     [I], 'all meshes, any crease selection, any affine map',
     'tests plot the surface', ['complex/base.py', 'complex/simplicial/base.py', 'complex/cubical.py', 'complex/simplicial/euclidian.py'],
     [('smoothing operators', 'complex/base.py smooth_operators')], ['smooth', 'smooth_operator', 'subdivide_loop', 'subdivide_cubical', 'subdivide_*_operator'])

prop('C19', 'Reconstructing velocity from flux is exact for uniform flow',
     'Integrating a uniform vector field over the facets of a flat complex and reconstructing velocities on the dual vertices returns that field, as do differences of a linear potential over dual edges; for any other flux the result is the least squares fit in each cell, and the map is linear.',
     [I], 'all meshes and constant fields',
     'the only test fails on the baseline', ['complex/base.py', 'complex/simplicial/euclidian.py', 'complex/regular.py'],
     [('reconstruction', 'complex/base.py dual_flux_to_dual_velocity')], ['dual_flux_to_dual_velocity', 'get_dual_edge...'])

prop('C20', 'Weight optimisation improves the dual without touching the primal',
     'Optimising weights keeps topology, positions and radius, does not depend on position, orientation, scale (weights grow with its square), handedness or numbering, leaves symmetric meshes alone, and brings circumcentres closer to centroids on average; fundamental weights make every domain of the subdivision well-centred.',
     [I], 'all meshes', 'tests plot the result', ['complex/simplicial/euclidian.py', 'complex/simplicial/spherical.py', 'complex/base.py'],
     [('weights', 'complex/simplicial/euclidian.py optimize_weights')], ['optimize_weights', 'optimize_weights_fundamental', 'optimize_weights_metric'])

prop('C21', 'Clip, extrude, volume, area and centre of mass are geometrically exact',
     'Clipping keeps exactly the volume on one side of the surface, extrusion of a surface has the expected volume and orientation, and volume, area and centre of '
     'mass of solids are independent of triangulation and position of the origin.',
     [I], 'all meshes, planes, extrusion profiles', 'tests export to STL', ['complex/simplicial/euclidian.py'],
     [('clip', 'complex/simplicial/euclidian.py clip'), ('extrude', 'complex/simplicial/euclidian.py extrude')], ['clip', 'extrude', 'volume', 'area', 'center_of_mass'])

prop('C22', 'STL export and import round-trip a surface',
     'Saving a triangulated surface and loading it again gives the same surface: same triangles at the same single-precision positions, same orientation, merged vertices.',
     [I, C], 'all surfaces, float32 precision', 'tests save one mesh', ['complex/simplicial/euclidian.py'], [('STL', 'complex/simplicial/euclidian.py save_STL')], ['save_STL', 'load_STL'])

prop('C23', 'Dual multigrid transfer on the sphere conserves area',
     'The transfer between dual cells of two levels of a subdivided sphere is non-negative, its rows and columns sum to the fine and coarse dual areas, and the resulting '
     'restriction and prolongation keep constants and integrals.',
     [I, H], 'all spherical triangulations, one or more levels', 'tests run one icosphere', ['complex/simplicial/spherical.py'],
     [('overlap', 'complex/simplicial/spherical.py multigrid_transfer_dual')], ['multigrid_transfer_dual', 'coarse_to_fine', 'fine_to_coarse'])

prop('C24', 'Cubical multigrid transfers and hierarchy keep constants and integrals',
     'The multigrid transfer operators between levels of a subdivided cubical complex have rows that sum to one: 0-forms average the corners of the coarse element they lie in (so linear functions are exact), constant k-forms on uniform grids are reproduced where fine elements keep the coarse orientation (always up to two dimensions and on grids), N-forms copy the coarse element they lie in, and elements only receive from the coarse elements around them.',
     [I], 'all cubical complexes', 'tests compare a single pair', ['complex/cubical.py', 'complex/regular.py', 'topology/cubical.py'], [('transfers', 'complex/cubical.py multigrid_transfers')], ['multigrid_transfers'])

prop('C25', 'Stencil topology is the grid chain complex',
     'On any grid shape, the stencil derivative and its dual are the signed differences of the periodic grid, square to zero, are mutually adjoint, and averaging and transfer operators keep constants.',
     [I, C], 'all shapes 1-4D', 'tests use one shape', ['stencil/topology.py', 'stencil/operator.py'], [('derivatives', 'stencil/topology.py primal')], ['primal', 'dual', 'averaging_operators_0', 'transfers'])

prop('C26', 'Stencil operator algebra is linear algebra',
     'Composition, sum, transposition, simplification, inversion and conversion of stencil operators act on every form exactly as the matrices they stand for (to single precision), and mismatched shapes are refused. Transposes of grid transfer operators are excepted: these are transposes up to a scale.',
     [I, H], 'all expression trees over all shapes', 'tests apply one operator once', ['stencil/operator.py'], [('composition', 'stencil/operator.py ComposedOperator')], ['__call__', '__mul__', '__add__', '.transpose', 'simplify', 'aslinearoperator'])

prop('C27', 'Stencil block arrays and operators are block linear algebra',
     'Block arrays and block operators over forms of any mix of shapes, equal shapes included, behave as the dense concatenation they represent: arithmetic, products, transposes, slices, assignment, conversion, flat linear operators, and the diagonal of the normal equations of first order systems.',
     [I, H], 'all block structures', 'tests use a two block toy', ['stencil/block.py'], [('blocks', 'stencil/block.py BlockOperator')], ['BlockArray', 'BlockOperator', 'to_dense', 'from_dense', 'diagonal'])

prop('C28', 'Stencil systems transform to equivalent systems',
     'The canonical system is the symmetric block matrix of hodge stars and derivatives; slices by ranges or lists of rows and columns are its submatrices with matching form labels and never alias the original; both kinds of normal equations are the products they stand for and keep solutions; restriction to the coarse grid follows the hodge stars.',
     [I, H], 'all shapes, degrees and coefficient fields', 'tests solve one system', ['stencil/linear_system.py'], [('system', 'stencil/linear_system.py System')], ['canonical', 'normal', 'normal_ne', 'restrict_dual', '__getitem__'])

prop('C29', 'Stencil complex coarsening, refinement and sampling are consistent',
     'On periodic grids, coarsening and refinement of forms are the documented averages and interpolations, adjoint up to the factor 2^N, keep constants and totals, refinement commutes with the derivative up to the factor one half, Hodge stars match the grid metric on every level, and sampling is periodic multilinear interpolation. Grids with an odd extent refine but are refused when asked to coarsen.',
     [I, H], 'all even shapes, forms and points', 'tests use one shape', ['stencil/complex.py'], [('transfer', 'stencil/complex.py coarsen')], ['coarsen', 'refine', 'sample_0', 'hodge'])

prop('C30', 'Stencil equation solvers converge to the solution of the system',
     'Stencil diffusion problems are the documented first order systems on every level of their hierarchy. Residuals, smoothers and V and full cycles are the linear iterations they document, leave solutions fixed and their arguments untouched, and solvers return the solution of the (normal) equations to the requested tolerance; repeated V cycles converge for smooth coefficients in one and two dimensions.',
     [I, H], 'all right-hand sides and coefficient fields', 'tests plot one solve', ['stencil/equation.py', 'stencil/multigrid.py', 'stencil/diffusion.py'], [('multigrid', 'stencil/multigrid.py')], ['solve', 'v_cycle', 'smooth', 'residual'])

prop('C31', 'Block matrices act as the merged matrix',
     'Block vectors and block matrices of the block module act as the dense arrays they partition, for any block structure, equally shaped blocks included: merge, split, products, transposes, diagonals, norms, slices, copies, balancing and the normal equations equal the dense operation and change no argument.',
     [I, H], 'all block structures and dtypes', 'no unit test of block semantics', ['block.py'], [('blocks', 'block.py SparseBlockMatrix')], ['merge', 'split', '__mul__', 'transpose'])

prop('C32', 'Iterative solvers return solutions',
     'The conjugate gradient and minres drivers solve every symmetric (semi-)definite consistent system to the requested tolerance from any start (none, zero, exact or arbitrary), at any scale for conjugate gradients and near unit scale for minres; they keep a given constraint, keep the shape of the unknowns and do not change their arguments.',
     [I], 'all SPD/SPSD systems and starts', 'tests solve one system', ['solvers.py'], [('drivers', 'solvers.py solve_cg')], ['solve_cg', 'solve_minres'])

prop('C33', 'Small linear algebra helpers satisfy their defining equations',
     'Normalisation, orthonormalisation (the closest rotation), fractional powers, rotations from planes and angles of rotations, adjoints and inverses of 3x3 matrices and pseudo-inverses satisfy the equations that define them for every batch shape, rank and scale; the null vector of a singular 3x3 matrix is annihilated by it.',
     [I], 'all batches of matrices', 'tests use single random matrices', ['math/linalg.py'], [('helpers', 'math/linalg.py')], ['orthonormalize', 'pinv', 'null', 'power', 'normalized'])

prop('C34', 'Permutation parity tables and combinatorial enumerations are right',
     'Permutations, combinations and binary indices are enumerated once each with the parity of the sorting permutation; the permutation tables of simplices and cubes list exactly the valid corner orders with their orientation and refuse a cube whose corners do not fit together. Relative permutations, selections, transfers, lookups, pairings and the grid helpers satisfy their definitions for every dimension and index array.',
     [I], 'all dimensions up to 5, random index arrays', 'tests check a few', ['math/combinatorial.py', 'topology/simplicial.py', 'topology/cubical.py', 'topology/util.py', 'util.py'], [('permutation maps', 'topology/simplicial.py permutation_map')], ['permutations', 'combinations', 'permutation_map', 'relative_permutations', 'element_indices'])

prop('C35', 'Sparse utilities act as their dense counterparts',
     'The sparse helpers (ones-like, row normalisation of rows without stored zeros, inverse diagonal, zeros, multi-indices) and the labelled sparse container (sum, product, scaling, transpose, dot product, filter, dense conversion with missing entries marked) equal their dense definition for every sparsity pattern, empty ones included.',
     [I], 'all sparsity patterns and dtypes', 'tests cover two patterns', ['sparse.py'], [('helpers', 'sparse.py')], ['normalize_l1', 'inv_diag', 'ones_like', 'Sparse'])

prop('C36', 'Objects are immutable: queries are pure and independent of history',
     'No public query, derived construction, pick or sample changes its arguments or the observable state of the complex it is called on, and every result is the same in whatever order and however often queries are made, and for an equal copy.',
     [H], 'all interleavings of public queries and derivations on one object', 'tests call each query once on a fresh object', ['topology/base.py', 'topology/primal.py', 'complex/base.py', 'complex/simplicial/base.py', 'complex/regular.py', 'complex/cubical.py'],
     [('cached properties', 'complex/base.py')], ['all public attributes'])

prop('C37', 'Synthetic generators produce valid, oriented, positively measured meshes',
     'Every generator of the synthetic module yields, for every parameter it accepts, a valid oriented complex of the advertised dimension, number of elements, closedness, connectedness and extent whose top elements have positive measure and where advertised cover the domain once; delaunay generators yield triangulations of their cube.',
     [I, C], 'all parameters', 'tests use one parameter each', ['synthetic.py'], [('generators', 'synthetic.py')], ['n_cube', 'n_cube_grid', 'n_simplex', 'icosphere', 'delaunay_cube'])

prop('C38', 'Copies, transforms and type casts keep what they do not change',
     'Copies and casts keep vertices, topology, weights and radius except for what was asked; transforms, translations, scalings and homogeneous affine maps move exactly the vertices and leave the original as it was. Measures and metrics are invariant under rigid motion and scale with the n-th power of the scale.',
     [I, H], 'all complexes and transforms', 'tests transform one mesh', ['complex/base.py', 'complex/simplicial/euclidian.py', 'complex/regular.py', 'complex/cubical.py'], [('copy', 'complex/base.py copy')], ['copy', 'transform', 'translate', 'scale', 'as_*'])
prop('C39', 'Every query answers',
     'On every consistently oriented complex or topology of at least one dimension, and on the boundaries, duals, copies and subdivisions derived from it, every public query that its type supports returns an answer in whatever order it is asked: none fails with an accidental exception; refusals are assertions, NotImplementedError or the documented errors.',
     [I, H], 'all kinds of complexes, dimensions, codimensions and derived objects', 'tests call a few queries of a few meshes', ['topology/base.py', 'topology/primal.py', 'topology/dual.py', 'complex/base.py', 'complex/simplicial/base.py', 'complex/regular.py', 'complex/cubical.py'], [('query surface', 'complex/base.py')], ['all public attributes'])

prop('C40', 'Drawings show the complex and the form',
     'Whatever is drawn is the complex at hand: the projected edges, dual edges and vertices asked for and no others, only the faces that look at the viewer when back faces are culled, arcs of great circles on the sphere, and for a form the value or colour of every face or the level sets and bands of its linear interpolant; drawings on given axes and on new ones agree, and drawing changes neither the complex nor the form.',
     [I, C], 'all complexes that can be projected on the plane, forms and options', 'tests call the plots and look at nothing', ['complex/simplicial/euclidian.py', 'complex/simplicial/spherical.py', 'complex/cubical.py', 'complex/regular.py', 'complex/base.py', 'stencil/complex.py'],
     [('culling', 'complex/simplicial/euclidian.py plot_primal_0_form'), ('stream lines', 'stencil/complex.py plot_1')], ['plot', 'plot_3d', 'plot_domains', 'plot_primal_0_form', 'plot_primal_2_form', 'plot_dual_0_form_interpolated', 'plot_dual_flux', 'plot_0', 'plot_1', 'plot_2'])


prop('C41', 'Answers depend on the values of arrays and not on how they are stored',
     'Complexes, topologies, forms, points and matrices given as arrays that hold the same numbers in another way (column-major, reversed, strided, with axes in another order, read-only, in wider, narrower or unsigned integers, as subclasses, nested lists or tuples) give the same objects and the same answers as plain contiguous arrays do.',
     [I], 'all public constructors, queries and geometric functions, every layout numpy knows', 'tests pass contiguous arrays of default types only', ['complex/base.py', 'topology/base.py', 'geometry/euclidian.py', 'geometry/spherical.py', 'math/linalg.py', 'stencil/operator.py', 'block.py'],
     [('constructors', 'topology/base.py from_simplices, complex constructors'), ('views', 'stencil/operator.py, math/linalg.py')], ['constructors', 'metrics', 'pick_primal', 'pick_dual', 'sample_0', 'select_subset', 'find_correspondence', 'circumcenter_barycentric', 'pinv'])
prop('C42', 'Work is vectorised and storage is sparse',
     'The number of interpreter steps that a query, derivation, operator or geometric function takes does not grow with the number of elements or rows of its input (except in the per-vertex loops of the manifold checks, where it grows in proportion), and its peak memory grows at most in proportion to its input: incidence stays sparse, and no quadratic table is built.',
     [I], 'all complexes and batches, all sizes', 'tests run one small size each and measure no cost', ['complex/base.py', 'topology/base.py', 'topology/util.py', 'geometry/euclidian.py', 'complex/simplicial/base.py', 'complex/simplicial/euclidian.py', 'stencil/complex.py', 'sparse.py', 'block.py'],
     [('feature: vectorized and efficiently implemented', 'README.md'), ('incidence matrices', 'topology/base.py'), ('picking by tree', 'complex/simplicial/base.py')], ['metrics', 'hodge', 'pick_primal', 'pick_dual', 'sample_primal_0', 'subdivide_cubical', 'select_subset', 'boundary', 'dual', 'from_simplices', 'from_cubes', 'normalize_l1'])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps(p) + '\n')
    done, na = [], []
    for p in P:
        mod = os.path.join(HERE, 'vmon', 'checks', p['id'].lower() + '.py')
        if os.path.exists(mod):
            src = open(mod).read()
            note = src.split('NOTE = ', 1)
            level_note = None
            import ast
            for node in ast.parse(src).body:
                if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'NOTE':
                    level_note = ast.literal_eval(node.value)
            done.append(dict(
                property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                technique='runtime monitoring: online oracles over executions of the real code under generated hostile workloads',
                level='exploration',
                level_note=level_note or 'Holds on every execution observed (seeded workload, counts in the evidence file); trusts the independent reference oracle, numpy and scipy.'))
        else:
            na.append(dict(property=p['id'], reason=NA.get(p['id'], 'its monitor has not been built yet; nothing is claimed')))
    man = dict(version=1, setup_cmd='./check --selftest', checks=done, not_applicable=na,
               notes='No hooks are needed in /repo: the monitors observe public API results and call arguments from the harness.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
    print(len(done), 'checks', len(na), 'not claimed')


NA = {}

if __name__ == '__main__':
    main()
