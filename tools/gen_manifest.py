"""Regenerates MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, HERE)
from jobs import jobs
MESHLOOP = 'contracts on the real functions, symbolic verification-condition generation per edge/triangle, discharge by exact normal forms and z3'
SEQ = 'contract on the real function with loop induction over sequences of any length, discharge by canonical sums/products and z3'
HEAP = 'contract on the real function, symbolic execution over a heap of unknown size with a loop rule, discharge by z3 with quantifiers'
TEXT = 'contract on the real function, symbolic execution over texts of unknown length, loops by inductive lemmas over the grammar, patterns by regular-language equivalence'
TECH = {'C18': TEXT, 'C01': SEQ, 'C02': SEQ, 'C03': SEQ, 'C04': HEAP, 'C05': HEAP,
        'C19': 'contract on the real function, symbolic execution over texts with unknown parts and a loop rule, discharge by z3'}
NOTE = {
    'C01': 'All vertex counts and coordinates; real arithmetic instead of floating point; engine dv/ trusted. Start vertex, direction and translation invariance are lemmas over the contract.',
    'C02': 'All numbers of control coordinates and all pairwise distinct coordinates, one query point and arrays of any length (elementwise arithmetic of numpy assumed). Real arithmetic.',
    'C03': 'As C02. The code has a recorded defect (y_nodes in the z product): proved exact when z_nodes and y_nodes coincide, and proved equal to exactly the defective formula for any other z_nodes, whichever values the two have in common.',
    'C04': 'All numbers of points and triangles, all triangulations with distinct corners, 2D and 3D points. Engine dv/heap.py trusted; scipy result and numpy rows by contract.',
    'C05': 'All numbers of grid points and elements, all distinct identifiers. Engine dv/heap.py trusted; read_bdf of pyNastran by contract, its GRID and CTRIA3 methods from their real source.',
    'C18': 'All expression texts of the grammar in the evidence (ASCII, blanks as white space), of any length and nesting, all integer exponents. Engine dv/strexec.py and dv/rx.py and the lemma of the grammar trusted; a failed obligation is decided by the bounded layer.',
    'C19': 'All matrix shapes and entries, all option combinations, all node sizes and numbers of substitutions, terms and subexpressions. Engine dv/text.py trusted; sympy, numpy and pow2mul by contract.'}
GEN = 'Proved for an arbitrary edge (triangle) of an arbitrary mesh satisfying C04/C05, all orientations, orders and laminates, real arithmetic instead of floating point; engine dv/ trusted (canaries, planted bugs); sums over elements are meta-level. Undecided obligations fall back to the bounded concrete layer and are never counted as discharged.'
EXTRA = {'C14': ' Interior edges have a recorded defect (z for y): proved exact for boundary edges and where both coincide, otherwise proved to be exactly the defective formula.'}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    c = dict(property=i, quick_cmd='/opt/venv/bin/python check.py %s' % i, thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % i,
             technique=TECH.get(i, MESHLOOP if jobs(i) else 'bounded check of the contract on the real function (stand-in)'),
             level='proof' if jobs(i) else 'exploration', level_note=NOTE.get(i, GEN + EXTRA.get(i, '')))
    checks.append(c)
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.dont_write_bytecode=True; import dv.progs, conc.run, jobs" && /opt/venv/bin/python tools/shimtest.py', checks=checks, not_applicable=[],
         notes='One runner: check.py PROPERTY. Known findings: known_findings.json. Replay: replay.py FILE.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
