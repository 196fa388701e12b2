import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=[observe]
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)
K0='meshless/espim/plate2d_calc_k0.py'; KG='meshless/espim/plate2d_calc_kG.py'; RM='meshless/espim/read_mesh.py'
CL='meshless/espim/classes.py'; UT='meshless/utils.py'; IN='meshless/interpolate.py'
AD='meshless/espim/plate2d_add_k0s.py'; CB='meshless/espim/plate2d_add_k0s_cell_based.py'; NS='meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py'; EB='meshless/espim/plate2d_add_k0s_edge_based.py'
SY='meshless/dev/sympytools.py'
p('C01','Polygon area equals the enclosed area for every simple polygon',
  'The area reported for a polygon with any number n >= 3 of vertices equals the absolute value of its shoelace integral, i.e. the enclosed area of a simple polygon. It therefore never depends on which vertex is listed first, on the traversal direction, or on a translation of the coordinates, and it is never negative.',
  ['inputs'],'all n >= 3, all vertex coordinate sequences, start vertices, directions, translations',
  'No test calls the area function; it is reached only through one mesh with one or two polygon shapes (3 and 4 vertices), while the statement is over every n and every coordinate vector.',
  [UT],[('cyclic accumulation of the shoelace terms with wrapped indices','area_of_polygon')],'return value')
p('C02','2D Lagrange interpolation is the exact tensor-product interpolant',
  'For any pairwise distinct control coordinates in each direction and any nodal field, the 2D interpolation returns the tensor-product Lagrange interpolant at every query point. Hence it reproduces the nodal value at every control point, reproduces every polynomial whose degree in each variable is below the number of control coordinates in that direction, is linear in the nodal field, and evaluates each query point independently of the others.',
  ['inputs'],'all numbers of control coordinates per direction, all distinct (also unsorted) control coordinates, all fields, all query points',
  'The single test uses one 3x3 grid with equal spacing and a field constant in one direction, so permuted factors, mixed-up directions or errors for unequal spacing or unequal counts are invisible.',
  [IN],[('products over the other control coordinates, summed over all nodal values','interpolate_lagrange_2D')],'return value')
p('C03','3D Lagrange interpolation is the exact tensor-product interpolant',
  'For any pairwise distinct control coordinates in each of three directions and any nodal field, the 3D interpolation returns the tensor-product Lagrange interpolant at every query point. Hence it reproduces nodal values at control points and polynomials whose degree per variable is below the number of control coordinates of that direction, and it is linear in the nodal field.',
  ['inputs'],'all numbers of control coordinates per direction, all distinct control coordinates, all fields, all query points',
  'The single test pins one 4x3x3 grid; its pinned numbers even encode a z-direction that is evaluated with the wrong control coordinates, so agreement with the test says nothing about other inputs.',
  [IN],[('products over the other control coordinates, summed over all nodal values','interpolate_lagrange_3D')],'return value')
p('C04','Meshes built from a triangulation carry the complete, exact connectivity',
  'For every point cloud and triangulation, the mesh holds one node per point (numbered 1..N in order, at the given coordinates, 2D points placed at zero height) and one triangle per simplex (numbered 1..M, with the simplex corners in the given order), and exactly one edge for every unordered pair of nodes that share a triangle side. Every edge lists exactly the triangles having that side, every triangle lists exactly its three edges, and every node lists exactly the edges and triangles it belongs to, all without duplicates. Nodes and triangles start without properties and share no connectivity containers with one another.',
  ['inputs'],'all N, all 2D or 3D point arrays, all lists of triangles over these points (any orientation, any corner order, unused points allowed)',
  'The only test reads one random cloud and checks little more than that reading succeeds; adjacency is a relation over every pair of elements of an arbitrary mesh.',
  [RM,CL],[('edge collection keyed by the sorted node pair, back references filled in later passes','read_delaunay'),('edge record','Edge')],
  'mesh.nodes, mesh.elements, mesh.edges and their cross references')
p('C05','Meshes read from a Nastran deck carry the complete, exact connectivity',
  'For every deck made of grid points and linear triangles, with arbitrary (also non-contiguous and unordered) identifiers, the mesh keeps the identifiers, coordinates and corner order of the deck and holds exactly one edge for every unordered pair of nodes that share a triangle side. Every edge lists exactly the triangles having that side, every triangle lists exactly its three edges, and every node lists exactly the edges and triangles it belongs to. A deck with any other structural element (springs, bars, other shells, solids, masses, rigid elements) is rejected with a not-implemented error instead of being read partially.',
  ['inputs'],'all decks of GRID and CTRIA3 cards with arbitrary identifiers and order; decks containing any other element type',
  'The only test reads one 16-node deck with consecutive identifiers and no foreign elements.',
  [RM,CL],[('edge collection keyed by the sorted node pair, back references filled in later passes','read_mesh'),('edge record','Edge')],
  'mesh.nodes, mesh.elements, mesh.edges and their cross references, raised errors')
p('C06','Smoothing domains of the edges tile the plate with outward boundaries',
  'After the constitutive stiffness is computed, the smoothing domain of every edge is the polygon of the edge end points and the centroids of its one or two triangles, and its area is one third of the area of these triangles, so that the domains of all edges tile the mesh. Each boundary segment of the domain carries exactly one integration point located at its midpoint and expressed by shape-function values of a triangle containing it, with the segment length and an outward unit normal in the plane, so the length-weighted normals of each domain sum to zero. This holds for clockwise and counter-clockwise triangles, either direction of the edge, every triangle order and every planar position of the mesh.',
  ['inputs','configurations'],'all planar meshes of non-degenerate triangles, all orientations and orderings of triangles, edges and nodes, boundary and interior edges, any constant height',
  'Tests only compare a final eigenvalue or deflection on one structured mesh at zero height; local geometry of arbitrary neighbour pairs is never observed.',
  [K0,CL,UT],[('construction of segments, normals, lengths and shape-function values per edge','calc_k0 (first loop over edges)'),('integration point record','IntegrationPoint'),('polygon area, centroid, unit vector','area_of_polygon, getMid, unitvec')],
  'edge.Ac, edge.sdomain, edge.ipts, edge.othernode1, edge.othernode2 after the call')
p('C07','Every node gets its own five degrees of freedom and matrices have that size',
  'After the constitutive stiffness is computed, the node indices are a bijection between the nodes of the mesh and 0..n-1, and the constitutive and geometric stiffness matrices are square with five rows per node. Contributions of an edge or triangle only reach the rows and columns of the nodes of that edge\'s triangles, also when the node with index zero or the last node takes part, and nodes that belong to no triangle keep zero rows and columns.',
  ['inputs','configurations'],'all meshes with any node identifiers and order, including nodes not used by any triangle, boundary edges touching the first or last index',
  'Tests use meshes with consecutive identifiers where all nodes are used; wrap-around writes through the placeholder index of boundary edges would go unnoticed in the pinned scalar results.',
  [K0,KG],[('renumbering of the nodes','calc_k0 (index loop)'),('allocation and placeholder fourth index of boundary edges','calc_k0, calc_kG')],
  'node.index, shape and sparsity of the returned matrices')
p('C08','Constitutive stiffness is exact for linear displacement fields',
  'For every mesh and every displacement field whose in-plane displacements and rotations vary linearly over the plate, the quadratic form of the constitutive stiffness equals the exact membrane, bending and coupling strain energy (twice) of the laminate integrated over the plate. In particular rigid-body translations, in-plane rotation and uniform rotations of the normals give zero, and no stiffness is attached to the deflection.',
  ['inputs','configurations'],'all planar meshes of non-degenerate triangles in any orientation, position and ordering, all laminate matrices A, B, D (symmetric, also with coupling and 16/26 terms), both ways of assigning properties',
  'The tests use one mesh, one isotropic symmetric laminate (zero coupling and zero shear-extension terms) and tolerances up to 5 percent; whole blocks of the stiffness are multiplied by zero in every test.',
  [K0,CL,UT],[('smoothed strain assembled per edge into the global matrix','calc_k0 (assembly loop)')],'returned matrix')
p('C09','Constitutive stiffness is the symmetric sum of smoothed strain energies',
  'For every mesh the constitutive stiffness equals the sum over edges of area times B-transpose C B, where B maps nodal values to the area-weighted average of the triangle gradients over the smoothing domain of the edge and C is the averaged laminate stiffness. It is therefore symmetric, and positive semidefinite whenever the laminate stiffness is; it is the same for every ordering and orientation of the nodes, edges and triangles up to the node numbering.',
  ['inputs','configurations'],'all planar meshes of non-degenerate triangles, all orientations and orderings, all laminate matrices, arbitrary nodal displacements',
  'Tests only see one scalar per configuration of one mesh and one isotropic laminate; a wrong entry among the 256 hand-expanded expressions that multiplies a zero of that laminate cannot show.',
  [K0,CL,UT],[('256 expanded entries per edge, accumulated in the global matrix','calc_k0 (assembly loop)')],'returned matrix')
p('C10','Laminate properties are averaged consistently in both assignment modes',
  'With properties per triangle, the stiffness of an edge uses the area-weighted mean of its triangles; with properties per node, it uses the value of the linear field interpolated at, and averaged over, the corners of the smoothing domain (for transverse shear of a single triangle, the mean of its nodes). The weights sum to one, so when all properties are equal the two modes give identical matrices, and every property that contributes (in-plane, coupling, bending, transverse shear, thickness, correction factors) is averaged with the same weights.',
  ['inputs','configurations'],'all assignments of different laminates to nodes or triangles, all planar meshes, both modes, constitutive, geometric and transverse shear stiffness',
  'All tests assign the same laminate object to every node and triangle, so any set of weights summing to one passes.',
  [K0,KG,CB,NS,EB],[('averaging of A, B, D','calc_k0, calc_kG'),('averaging of shear stiffness, correction factors and thickness','add_k0s')],'returned matrices')
p('C11','Geometric stiffness is the work of the in-plane forces of the given state',
  'For every mesh and displacement vector, the geometric stiffness equals the sum over edges of area times the in-plane force resultants acting on the smoothed deflection gradients, where the resultants follow from the smoothed membrane strains and curvatures of that vector through the averaged A and B. It is symmetric, linear in the displacement vector, zero for rigid-body states, touches only deflection entries, and for linear displacement fields with a uniform laminate gives the exact work of the uniform resultants; the displacement vector and the mesh are left unchanged.',
  ['inputs','configurations'],'all planar meshes, displacement vectors, laminates with coupling, both assignment modes, all node numberings including boundary edges that use index zero',
  'The buckling test pins one eigenvalue of one symmetric isotropic plate: coupling, shear resultant and bending terms are all zero there.',
  [KG,UT],[('stress state and 16 expanded entries per edge','calc_kG')],'returned matrix')
p('C12','Transverse shear terms are added in place and only where they belong',
  'Adding transverse shear modifies the given matrix in place and returns that same matrix, by exactly adding a symmetric matrix that is independent of the previous contents, positive semidefinite for positive shear stiffness, and confined to the deflection and rotation degrees of freedom of nodes sharing a triangle (or adjacent triangles for the edge variant). In-plane rows and columns keep their values bit for bit, uniform deflection gets zero energy, and the mesh is not changed.',
  ['inputs','histories','configurations'],'all meshes, all previous matrix contents, repeated additions, all three variants, both assignment modes',
  'Tests never inspect the matrix; they see one solved deflection or eigenvalue per variant on one mesh.',
  [AD,CB,NS,EB],[('accumulation of the expanded entries','add_k0s in the three variants, boundary_edge, interior_edge')],'given and returned matrix, mesh objects')
p('C13','Cell-based shear passes the constant-shear and pure-bending patch tests',
  'For both per-triangle variants, every mesh and every state of constant transverse shear (linear deflection plus uniform rotations), the added shear energy equals the exact transverse shear energy with the corrected shear stiffness of each triangle; for every state of constant curvature with matching quadratic deflection the added shear energy is zero. The smoothed variant gives the same matrix for every corner order and orientation of the triangles.',
  ['inputs','configurations'],'all planar meshes of non-degenerate triangles, all corner orders and orientations, constant-shear and constant-curvature states, both assignment modes',
  'The static test accepts 5 percent on one structured mesh, and the buckling test pins one number; patch-test exactness on irregular meshes is never checked.',
  [CB,NS,UT],[('discrete-shear-gap operator per sub-triangle, smoothed over the triangle','add_k0s in the two cell-based variants')],'added matrix')
p('C14','Edge-based shear passes the constant-shear patch test',
  'For the edge-based variant, every mesh and every state of constant transverse shear, (linear deflection plus uniform rotations), the added shear energy equals the exact energy over the smoothing domains with the corrected shear stiffness of each edge; in particular a rigid tilt of the plate (linear deflection with the rotations that follow it) gets zero energy. This holds for edges on the boundary and in the interior, in either direction and for either orientation of the triangles.',
  ['inputs','configurations'],'all planar meshes of non-degenerate triangles, all orientations, boundary and interior edges, both assignment modes',
  'One eigenvalue of one mesh is pinned to whatever the code computed when the test was written (and that value contains a defect); no test compares the edge-based variant with a known solution.',
  [EB,UT],[('discrete-shear-gap operator per sub-triangle, smoothed over the edge domain','boundary_edge, interior_edge')],'added matrix')
p('C15','Shear stiffness uses the right direction, correction and stabilisation',
  'In all variants the shear strain in each direction is paired with the laminate shear stiffness and the shear correction factor of that same direction, scaled by 1/(1 + alpha l^2/h^2) with h the averaged thickness and l either the longest relevant edge length or the square root of the area, as selected. With alpha zero the full stiffness is used, larger alpha never increases it, and the coupling between the two directions is neglected, except for interior edges of the edge-based variant, where it enters with the smaller of the two correction factors and the same scaling; when not given, alpha is 0.08, the length is the longest edge and the smoothed per-triangle variant is used.',
  ['inputs','configurations'],'all laminates with different shear moduli and correction factors per direction, thicknesses, alpha >= 0, both length rules, all variants and assignment modes, defaults and keywords',
  'All tests use one isotropic laminate with equal factors, one alpha, and never the area-based length, the defaults or non-uniform thickness.',
  [AD,CB,NS,EB],[('effective shear stiffness','add_k0s in the three variants, boundary_edge, interior_edge'),('dispatch and defaults','plate2d_add_k0s.add_k0s')],'added matrix')
p('C16','Invalid models and options are rejected with the documented error',
  'Computing the constitutive stiffness raises a value error when any property needed by the selected assignment mode is missing, and a not-implemented error when an edge belongs to neither one nor two triangles; properties of the mode that is not selected are never required. An unknown transverse shear variant raises a value error and leaves the matrix and the mesh unchanged; the edge-based variant raises a not-implemented error when an edge belongs to more than two triangles.',
  ['inputs','configurations'],'every position of the missing property in every mesh, both modes, every string as variant, edges with zero or more than two triangles',
  'No test exercises any failure path, and which element is defective is an unbounded choice.',
  [K0,AD,EB],[('property and adjacency checks before assembling','calc_k0'),('dispatch','plate2d_add_k0s.add_k0s')],'raised errors, unchanged matrix')
p('C17','Results depend only on the current model, not on previous calls',
  'Calling the stiffness functions again on the same mesh, after any sequence of earlier calls and of changes to coordinates, properties or assignment mode in between, gives what a freshly built mesh in the current state would give. Node coordinates, connectivity and laminate objects are never modified by the analysis functions, and two returned matrices never share storage.',
  ['histories','inputs'],'all call sequences on one mesh with arbitrary changes of coordinates, properties and modes in between',
  'Tests either rebuild the mesh for every run or only toggle the mode on an unchanged uniform mesh.',
  [K0,KG,AD,CB,NS,EB,CL],[('derived data stored on edges and nodes is recomputed','calc_k0'),('read-only use of mesh and laminates','calc_kG, add_k0s')],'returned matrices, mesh attributes')
p('C18','Power expansion preserves the value of generated code',
  'For every arithmetic expression text, expanding powers with non-negative integer exponents into products yields a text with the same value for all values of the variables, whatever the base (name, number, bracketed, call, indexed, nested power) and whatever other powers occur next to it. Powers that cannot be expanded (negative, fractional, symbolic exponents) keep their value, and plain names and bracketed bases with integer exponents contain no power operator afterwards.',
  ['programs'],'all arithmetic expression texts built from names, numbers, calls, indexing, brackets, + - * / and powers written with ** or pow()',
  'One test with one string; the failures of text substitution depend on which other operands occur in the same string.',
  [SY],[('operand recognition and replacement','pow2mul')],'returned string evaluated as an expression')
p('C19','Printed matrix code rebuilds the symbolic matrix it was generated from',
  'For every symbolic matrix and every combination of options, interpreting the text generated by the sparse, dense and array printers (with the documented meaning of row/column offsets, per-node numbering, substitutions, common subexpressions, upper-triangle-only output and storage order) rebuilds exactly the given matrix, or its upper triangle when only that is requested. The announced number of terms equals the number of printed terms, the same text is written to the file when requested, and the given matrix is not modified.',
  ['programs','configurations'],'all matrix shapes and entries, all combinations of the options of the three printers',
  'Tests print three tiny row matrices (and two of the comparisons are not even asserted); per-node numbering, symmetry, Fortran order and multi-row matrices are never used.',
  [SY],[('sparse, dense and array printers','mprint_as_sparse, mprint_as_dense, mprint_as_array')],'returned string, created file, argument matrix')
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
