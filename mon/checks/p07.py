"""P07: the roof consists of the skeleton."""
import math
from .. import cases, geom, rawcase, target
from ..engine import Res

ID = 'P07'
TITLE = 'The roof is made of the skeleton that skeletonize() computes'
TECHNIQUE = 'runtime monitor: the skeleton reported by the debug output against the nodes and faces polygonize() returns'
NOTE = ('Both outputs of one call are related node by node; skeletonize() is called on its own for the same footprint. '
        'Sampled inputs, any simple footprint.')
RULE = ('Any simple footprint, hostile families included, in random layouts and pitches; debug output requested in half of the calls; '
        'distinct = different contours rounded to 1 mm')
ASSUMPTIONS = ['a corner sharper than 9 degrees (parallel walls, as documented) may lose contour vertices']
PLAN = {
    'quick': [('hostile', 11240), ('mixed', 10000), ('lattice', 2500)],
    'thorough': [('hostile', 130000), ('mixed', 120000), ('lattice', 30000)],
}
MINIMUM = {'skeletons': 8000, 'nodes compared': 60000, 'sinks looked up': 100000, 'contour vertices connected': 70000, 'calls without debug output': 4000}


def same(p, q, tol):
    return all(abs(a - b) <= tol for a, b in zip(p, q))


def run(kind, n, rng):
    c = rawcase.draw(kind, rng)
    if isinstance(c, str):
        return Res(skip=c)
    r = Res(key=cases.shape_key(c.cs))
    g = cases.config(rng, None, len(c.cs) - 1)
    g.height = 0.0
    dbg = target.bps.debugOutputs
    dbg.clear()
    try:
        if rng.random() < 0.5:
            # not requested: nothing is written, the result is the same
            o1 = cases.call(c.cs, g)
            r.see('calls without debug output')
            if dbg:
                r.fail('unasked', 'debug output %r without being asked' % sorted(dbg))
        else:
            o1 = None
        dbg.clear()
        asked = rng.choice([1, 1, True, 0, None, [], 'yes'])
        dbg['skeleton'] = asked
        r.see('asked with %r' % (asked,))
        o = cases.call(c.cs, g)
        sk = dbg.get('skeleton')
        keys = sorted(map(str, dbg))
    finally:
        dbg.clear()
    if o.exc is not None:
        return Res(skip='polygonize() fails (see P09)')
    if o1 is not None and o1.exc is None and (o1.pts != o.pts or o1.faces != o.faces):
        r.fail('influence', 'the request for debug output changes the result')
    if keys != ['skeleton']:
        r.fail('keys', 'debug output has the keys %r' % keys)
    if not isinstance(sk, list):
        r.fail('debug', 'the debug output is %r' % (sk,))
        return done(c, g, r)
    r.see('skeletons')
    try:
        judge(c, g, o, sk, r)
    except Exception as e:
        r.fail('result', 'not a skeleton: %s: %s' % (type(e).__name__, e))
    return done(c, g, r)


def sharp(cs):
    """Corners sharper than the angle within which walls count as parallel."""
    return any(math.pi - abs(a) < math.radians(9) for l in cs for a in geom.turn_angles(l))


def judge(c, g, o, sk, r):
    new = o.pts[o.n0:]
    m = max(abs(v) for l in c.cs for p in l for v in p)
    if len(new) != len(sk):
        r.fail('count', '%d nodes appended, the skeleton has %d' % (len(new), len(sk)))
        return
    tol = 1e-6 * m + 1e-5
    off = [sum(p[k] for p in c.cs[0]) / len(c.cs[0]) for k in (0, 1)]
    zb = o.pts[o.cidx[0][0]][2]
    for i, (p, a) in enumerate(zip(new, sk)):
        if not same(p[:2], (a.source[0] + off[0], a.source[1] + off[1]), tol):
            r.fail('place', 'node %d is at (%.5f, %.5f), the skeleton has it at (%.5f, %.5f)'
                   % (i, p[0], p[1], a.source[0] + off[0], a.source[1] + off[1]))
            return
        if abs(p[2] - zb - a.height * g.tan) > 2e-6 * (abs(zb) + abs(a.height * g.tan)) + 1e-6:
            r.fail('height', 'node %d has z=%.6f instead of %.6f' % (i, p[2], zb + a.height * g.tan))
            return
        r.see('nodes compared')
    known = [(x, y) for l in c.cs for x, y in l]
    srcs = [(a.source[0], a.source[1]) for a in sk]
    for i, a in enumerate(sk):
        for s in a.sinks:
            r.see('sinks looked up')
            if not any(abs(s[0] - q[0]) < 1e-5 and abs(s[1] - q[1]) < 1e-5 for q in srcs) and \
                    not any(same((s[0] + off[0], s[1] + off[1]), q, tol) for q in known):
                r.fail('sink', 'sink (%.6f, %.6f) of node %d is neither a contour vertex nor a node'
                       % (s[0] + off[0], s[1] + off[1], i))
                return
            if abs(s[0] - a.source[0]) < 1e-7 and abs(s[1] - a.source[1]) < 1e-7:
                r.fail('self', 'node %d is its own sink' % i)
                return
    if sharp(c.cs):
        r.see('needles, vertices not counted')
        return
    for q in known:
        k = sum(same((s[0] + off[0], s[1] + off[1]), q, tol) for a in sk for s in a.sinks)
        if k != 1:
            r.fail('vertex', 'contour vertex (%.4f, %.4f) is the sink of %d nodes' % (q + (k,)))
            return
    r.see('contour vertices connected', len(known))


def done(c, g, r):
    if r.bad:
        r.bad = r.bad[:4] + [('case', rawcase.describe(c, g))]
    r.sample = rawcase.describe(c, g)
    return r
