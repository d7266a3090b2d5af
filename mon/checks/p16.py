"""P16: clusters of nearly coincident nodes."""
from .. import cases, cert, clusters, compare, domain, roofs, target
from ..engine import Res

ID = 'P16'
TITLE = 'Clusters of nearly coincident nodes become one node at their mean'
TECHNIQUE = 'runtime monitor at skeletonize() and polygonize(), compared with a certified straight skeleton whose near nodes are contracted'
NOTE = ('Positions, heights and connections of merged and of untouched nodes and the cover of the footprint are compared for every sampled '
        'footprint with clusters; cases at the limit of the threshold are left out.')
RULE = ('Footprints whose certified straight skeleton has nodes nearer than 0.09 (Manhattan), all others farther than 0.1 apart and 0.25 from contour '
        'vertices, and buildings with small rounded corners, whose near nodes end at contour vertices less than 0.19 apart; distinct = different contours rounded to 1 mm; cases without a cluster are not counted')
PLAN = {
    'quick': [('nearly', 40000), ('mixed', 25000), ('detail', 20000)],
    'thorough': [('nearly', 350000), ('mixed', 200000), ('detail', 200000)],
}
MINIMUM = {'merged nodes': 3000, 'nodes matched': 12000, 'connections matched': 20000, 'roofs': 2500, 'clusters kept as a detail': 800}
ASSUMPTIONS = ['the threshold is 0.1 in Manhattan distance, as the code documents', 'tolerance 0.02 in x and y']
FAMS = {'nearly': {'nearly': 1}, 'detail': {'detail': 1}, 'mixed': cases.WEIGHTS}


class _Case:
    pass


def run(kind, n, rng):
    d = cases.raw(rng, FAMS[kind], *([0.08] if kind == 'detail' else []))
    if d is None:
        return Res(skip='no footprint')
    fam, cs = d
    f = domain.features(cs)
    if f['ud']:
        return Res(skip='uneven dormer')
    M = clusters.expected(cs, f)
    if isinstance(M, str):
        return Res(skip=M)
    if not M.nmerged and not M.ndetail:
        return Res(skip='no cluster')
    if f['wide']:
        return Res(skip='faces wider than their wall (known finding F1)')
    return judge(fam, cs, f, M, rng)


def judge(fam, cs, f, M, rng):
    r = Res(key=cases.shape_key(cs))
    c = _Case()
    m = max(abs(v) for l in cs for p in l for v in p)
    c.fam, c.cs, c.f, c.R, c.tol = fam, cs, f, M, 0.02 + 1e-6 * m + M.spread
    if M.ndetail:
        c.tol = 0.004 + 1e-6 * m + M.spread
    ec, off = compare.edge_contours(cs, rng.choice(['vectors', 'indices', 'units']), rng)
    try:
        sk = target.bps.skeletonize(ec)
        r.see('merged nodes', M.nmerged)
        r.see('nodes kept apart in an apse', M.nkept)
        r.see('clusters kept as a detail', M.ndetail)
        compare.skeleton(c, sk, off, r, 0.002 if M.ndetail else 0.05)
    except Exception as e:
        r.fail('exception', 'skeletonize(): %s: %s' % (type(e).__name__, e))
    g = cases.config(rng, f['ref'], len(cs) - 1)
    o = cases.call(cs, g)
    if o.exc is not None:
        r.fail('exception', 'polygonize(): %s: %s' % (type(o.exc).__name__, o.exc))
    else:
        r.see('roofs')
        bad = cert.topology(o.cidx, len(o.pts), o.faces, None)
        if not any(b[0] in ('index', 'short') for b in bad):
            bad += cert.tiling(cs, o.pts, o.faces, c.tol)
        r.bad += [('roof ' + a, b) for a, b in bad]
    if r.bad:
        import random
        if not cases.stable(cs, random.Random(1)):
            return Res(skip='the outcome hangs on a decision within 0.0002')
        r.bad = r.bad[:4] + [('case', cases.describe(c, g))]
    r.sample = cases.describe(c, g)
    return r
