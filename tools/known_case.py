"""known_case.py ID KIND SEED N: the exact footprint of a case, for known-findings.json."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import cases, engine, known, roofs
pid, kind, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
m = importlib.import_module('mon.checks.' + pid.lower())
keep = []
orig = cases.draw
def spy(*a, **k):
    keep.append(orig(*a, **k))
    return keep[-1]
cases.draw = spy
r = engine.one(m, kind, seed, n)
c = keep[-1]
k = {'property': pid, 'contours': c.cs}
print(json.dumps({'fails': r.bad and r.bad[0], 'known': r.known, 'replay': known.replay(k), 'contours': c.cs}))
