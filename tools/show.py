"""show.py REPLAYFILE: what the reference and the tree say about the case of a replay file."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import refskel, target, cert, domain, cases
d = json.load(open(sys.argv[1]))
case = [w[1] for w in d['why'] if w[0] == 'case']
import importlib
from mon import engine
cs = None
if case:
    # the exact input: rerun the drawing
    m = importlib.import_module('mon.checks.' + d['property'].lower())
    keep = []
    orig = cases.call
    def spy(cs, g):
        keep.append((cs, g))
        return orig(cs, g)
    cases.call = spy
    m.run(d['kind'], d['n'], engine.rng_of(d['property'], d['kind'], d['seed'], d['n']))
    cs, g = keep[-1]
    json.dump(cs, open('/tmp/w/case.json', 'w'))
R = refskel.skeleton(cs)
c = target.run(cs)
f = domain.features(cs)
print({k: v for k, v in f.items() if k != 'ref'})
N, NC, M = R.nodes, R.ncontour, c.pts
fm = lambda p: tuple(round(x, 3) for x in p)
print('contour', [[fm(p) for p in l] for l in cs])
print('ref faces', [(k, fc, [fm(N[i]) for i in fc if i >= NC]) for k, fc in enumerate(R.faces)])
print('got faces', [(fc, [fm(M[i]) for i in fc if i >= NC]) for fc in c.faces])
print('missing', [(i, fm(N[i])) for i in range(NC, len(N)) if min(abs(N[i][0]-q[0])+abs(N[i][1]-q[1]) for q in M) > .02])
print('extra', [(i, fm(M[i])) for i in range(NC, len(M)) if min(abs(M[i][0]-q[0])+abs(M[i][1]-q[1]) for q in N) > .02])
print(cert.roof(cs, c.cidx, c.pts, c.faces, 1.0, 0.0, .02))
