"""P12: checkEdgeCrossing() against exact arithmetic."""
import math
from fractions import Fraction as F
from .. import cases, compare, rawcase, target
from ..engine import Res

ID = 'P12'
TITLE = 'checkEdgeCrossing() counts exactly the crossings of skeleton edges'
TECHNIQUE = 'runtime monitor at checkEdgeCrossing(): every count compared with exact rational arithmetic'
NOTE = ('All pairs of edges are intersected in rational arithmetic; crossings within 1e-4 of an end of an edge may or may not be counted. '
        'Sampled arc lists and skeletons.')
RULE = ('Lists of arcs: random segments, random graphs with shared nodes, lattice drawings with touching and collinear edges, skeletons of '
        'hostile footprints, skeletons with one arc added; each also with arcs shuffled and turned; distinct = different arc lists')
PLAN = {
    'quick': [('random', 7500), ('graph', 7500), ('lattice', 7500), ('skeleton', 4500)],
    'thorough': [('random', 70000), ('graph', 70000), ('lattice', 70000), ('skeleton', 40000)],
}
MINIMUM = {'lists': 15000, 'crossings': 50000, 'lists without crossings': 1500, 'pairs with a common node': 50000, 'pairs that touch': 3000,
           'collinear pairs': 1000}


def sub(p, q):
    return (p[0] - q[0], p[1] - q[1])


def cr(a, b):
    return a[0] * b[1] - a[1] * b[0]


def count(segs, r):
    """-> (least, most) number of crossings."""
    lo = hi = 0
    S = [tuple((F(x), F(y)) for x, y in s) for s in segs]
    box = [(min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]), max(a[1], b[1])) for a, b in segs]
    for i in range(len(S)):
        a, b = S[i]
        for j in range(i + 1, len(S)):
            c, d = S[j]
            if a in (c, d) or b in (c, d):
                r.see('pairs with a common node')
            if box[i][0] > box[j][1] or box[j][0] > box[i][1] or box[i][2] > box[j][3] or box[j][2] > box[i][3]:
                continue
            u, v, w = sub(b, a), sub(d, c), sub(c, a)
            den = cr(u, v)
            if den == 0:
                if cr(u, w) == 0:
                    r.see('collinear pairs')
                continue
            s, t = cr(w, v) / den, cr(w, u) / den
            if not (0 <= s <= 1 and 0 <= t <= 1):
                e = F(1, 10 ** 7)
                continue
            m = min(s, 1 - s, t, 1 - t)
            if m == 0:
                r.see('pairs that touch')
                continue
            sharp = abs(float(den)) < 1e-9 * math.hypot(*map(float, u)) * math.hypot(*map(float, v))
            if m > F(1, 10 ** 4) and not sharp:
                lo += 1
            if m > F(1, 10 ** 7) or sharp:
                hi += 1
    return lo, hi


def arcs_of(segs, rng):
    """Group the segments into arcs at random."""
    V, S = target.Vector, target.bps.Subtree
    segs = [s if rng.random() < 0.5 else s[::-1] for s in segs]
    rng.shuffle(segs)
    g = {}
    out = []
    for a, b in segs:
        if a in g and rng.random() < 0.7:
            g[a].sinks.append(V(b))
        else:
            g[a] = S(V(a), rng.uniform(0, 9), [V(b)])
            out.append(g[a])
    return out


def f32(p):
    return tuple(target.Vector(p))


def make(kind, rng):
    if kind == 'random':
        m = rng.choice([1.0, 30.0, 500.0])
        return [(f32((rng.uniform(-m, m), rng.uniform(-m, m))), f32((rng.uniform(-m, m), rng.uniform(-m, m)))) for _ in range(rng.randint(1, 16))]
    if kind == 'graph':
        n = rng.randint(3, 14)
        m = rng.choice([5.0, 60.0])
        P = [f32((rng.uniform(-m, m), rng.uniform(-m, m))) for _ in range(n)]
        E = {tuple(sorted(rng.sample(range(n), 2))) for _ in range(rng.randint(1, 2 * n))}
        return [(P[a], P[b]) for a, b in sorted(E)]
    k = rng.randint(2, 6)
    s = rng.choice([1.0, 0.5, 4.0, 100.0])
    off = rng.choice([0.0, 0.0, 64.0])
    pt = lambda: (s * rng.randint(0, k) + off, s * rng.randint(0, k))
    out = set()
    for _ in range(rng.randint(2, 18)):
        a, b = pt(), pt()
        if a != b:
            out.add((min(a, b), max(a, b)))
    return sorted(out)


def run(kind, n, rng):
    r = Res()
    if kind == 'skeleton':
        c = rawcase.draw(rng.choice(['hostile', 'mixed']), rng, nmax=40)
        if isinstance(c, str):
            return Res(skip=c)
        try:
            sk = target.bps.skeletonize(compare.edge_contours(c.cs, 'indices')[0])
        except Exception:
            return Res(skip='skeletonize() fails (see P09)')
        lists = [sk]
        sg = [(tuple(a.source), tuple(s)) for a in sk for s in a.sinks]
        if sk:
            # an arc too many
            P = sorted({p for s in sg for p in s})
            a, b = rng.sample(P, 2)
            lists.append(arcs_of(sg + [(a, b)], rng))
        r.sample = {'skeleton of': rawcase.describe(c)}
    else:
        sg = make(kind, rng)
        lists = [arcs_of(sg, rng), arcs_of(sg, rng)]
        r.sample = {'segments': sg[:4]}
    r.key = (kind, tuple(sg))
    for sk in lists:
        sg = [(tuple(a.source), tuple(s)) for a in sk for s in a.sinks]
        lo, hi = count(sg, r)
        r.see('lists')
        r.see('crossings', lo)
        if not hi:
            r.see('lists without crossings')
        snap = [(tuple(a.source), a.height, [tuple(s) for s in a.sinks]) for a in sk]
        try:
            k = target.bps.checkEdgeCrossing(sk)
        except Exception as e:
            r.fail('exception', '%s: %s' % (type(e).__name__, e))
            r.fail('segments', sg)
            return r
        if not (type(k) is int and lo <= k <= hi):
            r.fail('count', 'counts %r crossings, there are %s' % (k, lo if lo == hi else '%d to %d' % (lo, hi)))
            r.fail('segments', sg)
        if [(tuple(a.source), a.height, [tuple(s) for s in a.sinks]) for a in sk] != snap:
            r.fail('input', 'modifies the skeleton')
    return r
