"""Re-run a saved counterexample against the code in /repo.

usage: /opt/venv/bin/python /verif/replay.py FILE
exit 1 when the case still fails, 0 when it passes."""
import json
import os
import sys

os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
if d.get('case') is None:
    print(json.dumps(d, indent=1)[:6000])
    print('no failing input: only the failed obligation is recorded')
    sys.exit(1)
from conc import run  # noqa: E402
r, known = run.one(d['property'], d['case'])
for x in r:
    print(x)
print('FAILS' if r else 'passes')
sys.exit(1 if r else 0)
