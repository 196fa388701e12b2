"""Fixed texts of the evidence files."""
BACKENDS = {
    'normal form': 'exact rational normal form over the atoms of the path (own engine, dv/alg.py)',
    'normal form + numeric witness': 'refutation: normal forms differ and a numeric instance separates them',
    'z3': 'z3 4.x, nonlinear real or linear integer arithmetic', 'z3-LIA': 'linear integer arithmetic', 'z3-NRA': 'nonlinear real arithmetic',
    'LIA': 'linear integer arithmetic', 'identity': 'object identity in the symbolic heap', 'frame log': 'log of all attribute writes, reads and element stores',
    'type': 'type of the symbolic value', 'count': 'length of a concrete list', 'symbolic execution': 'outcome of the path',
    'sign': 'sign derivation', 'canonical sums and products': 'canonical big sums and products (dv/bigop.py)',
    'z3 with quantifiers': 'z3, quantified linear integer and real arithmetic over the indices of the input (valid for all sizes)',
    'text proof': 'equality of pieces of the text with the contract after symbolic execution over texts of unknown length (dv/strexec.py), languages decided by derivatives (dv/rx.py)',
    'structural induction': 'inductive lemma of a loop over the characters of a grammatical segment, proved with the real loop body',
    'text structure': 'structure of the text read as a program',
    'countermodel': 'z3 found a small input for which the obligation fails', 'heap structure': 'kind or number of objects in the symbolic heap',
    'heap structure refuted': 'kind or number of objects in the symbolic heap',
    'canary': 'a false contract was refused', 'path': 'decided on the path'}

TRUSTED = [
    'machine floating point is treated as real arithmetic; decimal literals that are truncated p/q (q <= 1000) mean p/q',
    'engine of dv/ (loader, symbolic numpy and heap of dv/shim.py, normal forms of dv/alg.py and dv/ctx.py, z3) is trusted; canaries and planted bugs test it',
    'the real source files of /repo are loaded on every run (AST kept; only for loops over the mesh and over sequences of unknown length are turned into calls of the induction rule, see DESIGN.md); nothing else is dropped',
    'the mesh satisfies the contract C04/C05 (edges, triangles and nodes refer to each other completely) and is planar at constant height with non-degenerate triangles',
    'numpy functions are replaced by contracts (dv/shim.py, compared with numpy on samples by tools/shimtest.py); pyNastran objects by contracts (dv/mesh.py) that are proved for the source of the installed pyNastran (program pynastran), except that the basic coordinate system leaves positions as they are',
    'a loop over all edges (triangles) is reduced to one arbitrary element because iterations only add to the matrix and write attributes of their own element; this independence is an obligation (frame log), the induction itself is meta-level',
    'sums over elements and positive semidefiniteness of a sum follow from the per-element contracts (meta-level linear algebra)',
]

GENERAL = TRUSTED[:2]
SEQ = GENERAL + ['the real source files of /repo are loaded on every run; loops over sequences of unknown length go through the induction rule, nothing is dropped',
                 'arithmetic of numpy arrays with numbers and arrays of the same length is elementwise']
HEAP = GENERAL[1:] + [
    'the engine dv/heap.py (objects per allocation site and loop index, effects log, loop rule) is trusted; canaries, planted bugs and the concrete layer test it',
    'the real source of read_mesh.py, classes.py and logger.py and of the GRID/CTRIA3/BDF methods of the installed pyNastran that are called is interpreted from its AST on every run, nothing is dropped',
    'machine integers are mathematical; node identifiers of a deck are pairwise distinct per kind of card',
    'C04: contract of the triangulation object: simplices holds M rows of three distinct row numbers of the point array; contract of numpy rows: item access only',
    'C05: contract of read_bdf: dictionaries nodes, elements, masses and rigid_elements with distinct keys, all references to nodes resolved, CTRIA3 with three distinct corners; every other class of card may be anything',
    'C05: masses and rigid elements stand for every dictionary of pyNastran that read_mesh is expected to look at; plot-only elements are not considered']
PRINT = GENERAL[1:] + [
    'the engine dv/text.py (matrix of unknown size, texts as real strings with tokens for unknown parts, loop rule) is trusted; canaries, planted bugs and the concrete layer test it',
    'the real source of meshless/dev/sympytools.py is loaded on every run (loops, comprehensions, comparisons and attribute access become calls of the engine), nothing is dropped',
    'contract of pow2mul: the text of an expression stays the text of an expression with the same value (proved as C18, for the grammar stated there)',
    'contracts of sympy: str(v) is an expression text of v; v.subs(subs) has the value of v once new = old is defined, and new occurs in its text; collect(v, s, evaluate=False) maps keys to coefficients whose products add up to v; cse(m) gives definitions in order and the matrix written with them, zero where m is zero',
    'contracts of numpy: ndenumerate, ravel, ndindex enumerate the entries row by row (flattening is a bijection)',
    'meaning of the text: c starts at -1, i<n>*dof is the first row of node n, row/col/pos are offsets, the k-th entry is stored at the k-th value of c']
TEXTS = GENERAL[1:] + [
    'the engine dv/strexec.py (texts as literals and unknown segments, linear positions, path choices, jump lemmas) and dv/rx.py (regular languages, patterns of re as parsed by re itself) is trusted; canaries, planted bugs and the concrete layer test it',
    'the real source of pow2mul and _operand_start is interpreted from its AST on every run; nothing is dropped',
    'texts are expressions over printable ASCII: names, numbers, calls, indexing, attributes, brackets, + - * / // % **, commas and blanks; no keywords, strings, comparisons, numeric suffixes or underscores in numbers, no other white space',
    'lemma of this grammar: replacing a complete operand raised to an integer literal that is not itself raised to a power, or a call pow(v, n) with an integer literal n, by a bracketed product of exactly n copies of the operand (of the bracketed v) keeps the value; blanks inside an operand carry no meaning; 1 stands for no copies',
    'the scan of finditer is left to right without overlaps and the calls in the text found from the right stay where they are while the text behind them is rewritten (meta-level induction over the matches; each step is an obligation)']
PER = {'C18': TEXTS, 'C19': PRINT, 'C01': SEQ[:3], 'C02': SEQ, 'C03': SEQ, 'C04': HEAP, 'C05': HEAP}

K0 = ['meshless.espim.plate2d_calc_k0.calc_k0', 'meshless.espim.classes.IntegrationPoint.__init__', 'meshless.utils.area_of_polygon', 'meshless.utils.unitvec', 'meshless.utils.getMid', 'meshless.logger.msg']
KGF = ['meshless.espim.plate2d_calc_kG.calc_kG']
DISP = ['meshless.espim.plate2d_add_k0s.add_k0s']
CELL = ['meshless.espim.plate2d_add_k0s_cell_based.add_k0s', 'meshless.espim.plate2d_add_k0s_cell_based_no_smoothing.add_k0s']
EDGE = ['meshless.espim.plate2d_add_k0s_edge_based.add_k0s', 'meshless.espim.plate2d_add_k0s_edge_based.boundary_edge', 'meshless.espim.plate2d_add_k0s_edge_based.interior_edge']
READ = ['meshless.espim.classes.Edge', 'meshless.logger.msg', 'pyNastran GRID, CTRIA3 (constructors, node_ids, get_edge_ids; from their real source)']
ALL = K0 + KGF + DISP + CELL + EDGE
FUNCTIONS = {'C01': ['meshless.utils.area_of_polygon'], 'C02': ['meshless.interpolate.interpolate_lagrange_2D'], 'C03': ['meshless.interpolate.interpolate_lagrange_3D'],
             'C04': ['meshless.espim.read_mesh.read_delaunay'] + READ, 'C05': ['meshless.espim.read_mesh.read_mesh'] + READ, 'C06': K0, 'C07': ALL, 'C08': K0, 'C09': K0, 'C10': ALL, 'C11': K0 + KGF, 'C12': DISP + CELL + EDGE + K0, 'C13': DISP + CELL,
             'C14': K0 + DISP + EDGE, 'C15': ALL, 'C16': ['meshless.espim.plate2d_calc_k0.calc_k0'] + DISP + EDGE[:1], 'C17': ALL, 'C18': ['meshless.dev.sympytools.pow2mul', 'meshless.dev.sympytools._operand_start'], 'C19': ['meshless.dev.sympytools.mprint_as_sparse', 'meshless.dev.sympytools.mprint_as_dense', 'meshless.dev.sympytools.mprint_as_array']}

MESH = 'concrete meshes (single triangles, pairs, fans, grids, Delaunay, holes, unused nodes, parts; random laminates, also orthotropic, metallic, of equal thickness, with strong shear coupling; identifiers, orders, directions, orientations; both assignment modes); a case is non-trivial when its description differs from all others'
RULE = {p: MESH for p in ('C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16')}
RULE.update({
    'C01': 'polygons with 3..101 vertices (simple, concave, degenerate, integer), compared with exact rational shoelace sums, as lists, tuples, arrays, rotated, reversed, translated',
    'C02': 'control coordinates (random, unsorted, integer, nearly equal, large), fields and query points against exact rational Lagrange interpolants',
    'C03': 'control coordinates (random, unsorted, integer, nearly equal, large), fields and query points against exact rational Lagrange interpolants',
    'C04': 'all lists of up to two triangles over four points, random lists of up to six triangles over 5-8 points, Delaunay triangulations of up to 40 points',
    'C05': 'decks written for lists of triangles over 4-25 points with random unordered identifiers; decks with other element types (bars, springs, shells, solids, masses, rigid elements)',
    'C17': 'histories of six steps (calls, moves, reflections, property permutations and edits, mode changes, failed calls, other node orders, nodes used in another model) on 72 meshes against fresh meshes',
    'C18': 'texts: 39 bases x exponents x surrounding operators, pow() forms, nested powers, 2500 random expressions of depth up to 4, every expression with up to two operators over four leaves (thorough: three operators); evaluated exactly for three assignments before and after',
    'C19': '14 matrices x printers x option combinations (all with up to two options, a sample of the rest); the text is executed and compared entry by entry with the exact values'})
EXPLORE = {}
