"""P04: skeletonize() computes the straight skeleton."""
import math
from .. import cases, compare, domain, roofs, target
from ..engine import Res

ID = 'P04'
TITLE = 'skeletonize computes the straight skeleton'
TECHNIQUE = 'runtime monitor at skeletonize(), compared with an independent certified straight skeleton'
NOTE = ('Nodes, heights and connections of every skeleton are compared with a reference computed by another algorithm '
        'and certified; trusts the reference only after its certificate. Sampled inputs, not a proof.')
RULE = ('Footprints of 24 families as lists of Edge2 (from vectors, from indices with an offset, with given unit vectors); '
        'kept when an independent reference certifies the straight skeleton and no documented simplification applies; '
        'distinct = different contours rounded to 1 mm; each has at least one skeleton node')
PLAN = {
    'quick': [('mixed', 16240), ('holes', 3760), ('symmetric', 3760), ('free', 3760), ('real', 2500)],
    'thorough': [('mixed', 100000), ('holes', 25000), ('symmetric', 25000), ('free', 25000), ('real', 15000)],
}
MINIMUM = {'calls': 6000, 'nodes matched': 40000, 'connections matched': 80000, 'splits of the wavefront': 6000}
ASSUMPTIONS = ['same domain as P01', 'a dormer\'s peak is not connected along the plane of the wall behind it (by design)']


def run(kind, n, rng):
    c = cases.draw(rng, roofs.KINDS[kind])
    if isinstance(c, str):
        return Res(skip=c)
    r = Res(key=cases.shape_key(c.cs))
    how = rng.choice(['vectors', 'vectors', 'vectors3', 'indices', 'units'])
    ec, off = compare.edge_contours(c.cs, how, rng)
    before = compare.freeze(ec)
    try:
        sk = target.bps.skeletonize(ec)
    except Exception as e:
        r.fail('exception', '%s: %s' % (type(e).__name__, e))
        sk = None
    if sk is not None:
        r.see('calls')
        r.see('input as ' + how)
        r.see('splits of the wavefront', c.f['nsplit'])
        if compare.freeze(ec) != before:
            r.fail('input', 'skeletonize() has changed its input')
        try:
            compare.skeleton(c, sk, off, r)
        except Exception as e:
            r.fail('result', 'not a skeleton: %s: %s' % (type(e).__name__, e))
        if not r.bad:
            k = target.bps.checkEdgeCrossing(sk)
            if k:
                r.fail('crossing', 'checkEdgeCrossing() finds %d crossings in a correct skeleton' % k)
    return roofs.finish(c, None, r)
