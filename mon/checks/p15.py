"""P15: detected dormers and apses."""
from .. import cases, cert, clusters, domain, roofs
from ..engine import Res
from . import p02, p16

ID = 'P15'
TITLE = 'Dormers and apses still give a roof over the whole footprint'
TECHNIQUE = 'runtime monitor at polygonize() and skeletonize(): cover and wall oracle on uneven dormers, certified straight skeleton with the kept nodes of apses'
NOTE = ('Every sampled footprint with uneven bays or a noisy apse is judged. The position of the peak of an uneven dormer is a heuristic of the library and '
        'not judged, only that the roof closes and every wall has its face.')
RULE = ('Footprints with rectangular bays whose sides, feet or neighboring walls differ, and with circular ends of 6 to 9 noisy segments; a case counts '
        'when it has a bay in the range of detection that is uneven, or nodes nearer than 0.1 within 2.5 of the center of an apse; distinct = different '
        'contours rounded to 1 mm')
PLAN = {
    'quick': [('uneven', 35000), ('onbay', 21000), ('apse', 42000)],
    'thorough': [('uneven', 300000), ('onbay', 160000), ('apse', 350000)],
}
MINIMUM = {'roofs over uneven dormers': 2500, 'walls matched': 40000, 'nodes kept apart in an apse': 150}
ASSUMPTIONS = ['same domain as P01; for apses nodes nearer than 0.1 within 2.5 (Manhattan) of the center of the circle through its ends and its middle']
FAMS = {'apse': {'noisyapse': 1}}


def judge(c, g, o, r):
    bad = cert.topology(o.cidx, len(o.pts), o.faces, None)
    if not any(b[0] in ('index', 'short') for b in bad):
        bad += cert.tiling(c.cs, o.pts, o.faces, c.tol)
    r.bad += bad
    p02.judge(c, g, o, r)
    r.see('roofs over uneven dormers')


def accept(cs, f):
    if not f['ud']:
        return 'no uneven dormer'
    # closing an uneven bay moves the nodes around it by about its unevenness
    un = max(un for w, con, un, i in domain.dormers(cs[0]) if w * w < 101 and con < 0.36)
    if FACTOR * un > f['dn'] or FACTOR * un > f['de']:
        return 'nodes nearer than the inaccuracy of the dormer'


FACTOR = 2.0


def run(kind, n, rng):
    if kind in ('uneven', 'onbay'):
        return roofs.watch('uneven' if kind == 'uneven' else 'onbay', rng, judge, uneven=True, accept=accept)
    d = cases.raw(rng, FAMS[kind])
    if d is None:
        return Res(skip='no footprint')
    fam, cs = d
    f = domain.features(cs)
    if f['ud']:
        return Res(skip='uneven dormer')
    M = clusters.expected(cs, f)
    if isinstance(M, str):
        return Res(skip=M)
    if not M.nkept:
        return Res(skip='no near nodes in an apse')
    if f['wide']:
        return Res(skip='faces wider than their wall (known finding F1)')
    return p16.judge(fam, cs, f, M, rng)
