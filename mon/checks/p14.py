"""P14: bpyeuclid against exact arithmetic."""
import math
from fractions import Fraction as F
from .. import target
from ..engine import Res

ID = 'P14'
TITLE = 'The 2D geometry primitives agree with exact geometry'
TECHNIQUE = 'runtime monitor at the primitives of bpyeuclid: results compared with exact rational arithmetic'
NOTE = ('Every result is compared with rational arithmetic: existence of an intersection exactly for coordinates up to 2000, values within single '
        'precision. Sampled arguments, with many degenerate ones.')
RULE = ('Batches of 40 calls with integer coordinates (parallel, touching, collinear and identical configurations on purpose), dyadic and general '
        'coordinates; distinct = different batches')
PLAN = {
    'quick': [('intersect', 24000), ('distance', 12000), ('edges', 12000), ('predicates', 16000), ('circle', 12000), ('equal', 3200)],
    'thorough': [('intersect', 50000), ('distance', 20000), ('edges', 20000), ('predicates', 30000), ('circle', 20000), ('equal', 10000)],
}
MINIMUM = {'intersections': 20000, 'parallel': 5000, 'rays that miss': 5000, 'rays that touch at their origin': 500, 'distances': 25000,
           'edges': 25000, 'orientations': 30000, 'segments that cross': 4000, 'circles': 15000, 'points in line': 3000, 'comparisons': 10000}
BATCH = 40


def V(p):
    return target.Vector(p)


def num(rng, k):
    """A coordinate that single precision holds exactly."""
    if k == 0:
        return rng.randint(-4, 4)
    if k == 1:
        return rng.randint(-2000, 2000)
    if k == 2:
        return rng.randint(-4000, 4000) / 8.0
    return V((rng.uniform(-300, 300), 0))[0]


def pt(rng, k):
    return (num(rng, k), num(rng, k))


def ex(p):
    return (F(p[0]), F(p[1]))


def cr(a, b):
    return a[0] * b[1] - a[1] * b[0]


def close(p, q, tol):
    return all(abs(a - float(b)) <= tol for a, b in zip(p, q))


def short(rng, v, r):
    """Bisectors of nearly antiparallel walls are very short vectors."""
    if rng.random() < 0.3:
        s = 2.0 ** -rng.choice([6, 10, 14])
        r.see('short directions')
        return tuple(V((v[0] * s, v[1] * s)))
    return v


def intersect(rng, r, args):
    Line2, Ray2, Edge2 = target.euc.Line2, target.euc.Ray2, target.euc.Edge2
    k = rng.choice([0, 0, 1, 2, 3])
    objs, raw = [], []
    for j in range(2):
        p, v = pt(rng, k), pt(rng, k)
        if j and rng.random() < 0.25:
            v = raw[0][1] if rng.random() < 0.5 else (-raw[0][1][0], -raw[0][1][1])
        if j and rng.random() < 0.15:
            p = raw[0][0]
        if j and k < 2 and rng.random() < 0.2:
            s = rng.randint(-3, 3)
            p = tuple(V((raw[0][0][0] + s * raw[0][1][0], raw[0][0][1] + s * raw[0][1][1])))
        if v == (0, 0):
            v = (1, 0)
        ray = rng.random() < 0.6
        kind = 'ray'
        if ray:
            v = short(rng, v, r)
            o = Ray2(V(p), V(v))
        else:
            # derived lines know their direction as precisely as their ends
            kind = rng.choice(['pv', 'ray', 'line', 'edge']) if k == 3 or all(x == int(x * 8) / 8 for x in v) else 'pv'
            if kind == 'pv':
                v = short(rng, v, r)
                o = Line2(V(p), V(v), 'pv')
            elif kind == 'ray':
                o = Line2(Ray2(V(p), V(v)))
            elif kind == 'line':
                o = Line2(Line2(V(p), V(v), 'pv'))
            else:
                q = (p[0] + v[0], p[1] + v[1])
                o = Line2(Edge2(V(p), V(q)))
                q = tuple(V(q))
                v = (q[0] - p[0], q[1] - p[1])
                v = tuple(V(v))
                if v == (0, 0):
                    o, v = Line2(V(p), V((1, 0)), 'pv'), (1, 0)
        objs.append(o)
        raw.append((p, v, ray))
        args.append((kind if not ray else 'Ray2', p, v))
    a, b = objs
    got = a.intersect(b)
    (p, u, ra), (q, w, rb) = raw
    p_, u_, q_, w_ = ex(p), ex(u), ex(q), ex(w)
    den = cr(u_, w_)
    d = (q_[0] - p_[0], q_[1] - p_[1])
    if k == 3 and abs(float(den)) < 1e-4 * math.hypot(*u) * math.hypot(*w):
        return
    if den == 0:
        r.see('parallel')
        if got is not None:
            return 'parallel lines meet at %r' % (tuple(got),)
        return
    s, t = cr(d, w_) / den, cr(d, u_) / den
    if k == 3 and (ra and abs(s) < F(1, 1000) or rb and abs(t) < F(1, 1000)):
        return
    # single precision may round the products (integers are exact)
    sn = abs(float(den)) / (math.hypot(*u) * math.hypot(*w))
    soft = 4e-7 * math.hypot(float(d[0]), float(d[1])) / sn if k >= 2 else 0.0
    if ra and s != 0 and abs(s) * math.hypot(*u) < soft or rb and t != 0 and abs(t) * math.hypot(*w) < soft:
        return
    miss = ra and s < 0 or rb and t < 0
    if (ra and s == 0) or (rb and t == 0):
        r.see('rays that touch at their origin')
    if miss:
        r.see('rays that miss')
        if got is not None:
            return 'a ray pointing away meets at %r' % (tuple(got),)
        return
    r.see('intersections')
    x = (p_[0] + s * u_[0], p_[1] + s * u_[1])
    if got is None:
        return 'no intersection, but they meet at (%.4f, %.4f)' % (float(x[0]), float(x[1]))
    m = max(abs(float(c)) for c in x + p_ + q_)
    tol = 1e-6 * m + 1e-6 + soft
    if k == 3:
        # derived lines know their direction as precisely as their ends
        big = max(abs(c) for c in p + q + (p[0] + u[0], p[1] + u[1], q[0] + w[0], q[1] + w[1]))
        for o, v in ((p, u), (q, w)):
            tol += 3e-7 * big / math.hypot(*v) * math.hypot(float(x[0]) - o[0], float(x[1]) - o[1]) / sn
    if len(got) != 2 or not close(got, x, tol):
        return 'meet at %r instead of (%.6f, %.6f)' % (tuple(got), float(x[0]), float(x[1]))


def distance(rng, r, args):
    Line2, Ray2, Edge2 = target.euc.Line2, target.euc.Ray2, target.euc.Edge2
    k = rng.choice([0, 1, 2, 3])
    p, v, x = pt(rng, k), pt(rng, k), pt(rng, k)
    if v == (0, 0):
        v = (0, 1)
    q = (p[0] + v[0], p[1] + v[1])
    if math.hypot(*v) < 0.01 or tuple(V(q)) == tuple(V(p)):
        return
    kind = rng.choice(['pv', 'edge', 'ray'])
    l = Line2(V(p), V(v), 'pv') if kind == 'pv' else Line2(Edge2(V(p), V(q))) if kind == 'edge' else Line2(Ray2(V(p), V(v)))
    args.append((kind, p, v, x))
    got = l.distance(V(x))
    want = abs(v[0] * (x[1] - p[1]) - v[1] * (x[0] - p[0])) / math.hypot(*v)
    m = max(abs(c) for c in p + q + x)
    r.see('distances')
    # the direction of a short edge is known to the precision of its ends
    tol = 3e-6 * m + 1e-6 + math.hypot(x[0] - p[0], x[1] - p[1]) * 3e-7 * m / math.hypot(*v)
    if not abs(got - want) <= tol:
        return 'distance %.7f instead of %.7f' % (got, want)


def edges(rng, r, args):
    Edge2 = target.euc.Edge2
    k = rng.choice([1, 2, 3])
    a, b = pt(rng, k), pt(rng, k)
    if a == b:
        return
    how = rng.randrange(4)
    off = (0.0, 0.0)
    va, vb = V(a), V(b)
    d = (b[0] - a[0], b[1] - a[1])
    L = math.hypot(*d)
    if how == 0:
        e = Edge2(va, vb)
    elif how == 1:
        va, vb = V(a + (4.0,)), V(b + (4.0,))
        e = Edge2(va, vb)
    elif how == 2:
        off = (float(rng.randint(-50, 50)), float(rng.randint(-50, 50)))
        verts = [V((9, 9, 9))] * rng.randint(0, 3)
        i = len(verts)
        verts = verts + [V(a + (2.0,)), V(b + (2.0,))]
        swap = rng.random() < 0.3
        j, m = (i, i + 1) if not swap else (i + 1, i)
        if swap:
            verts[i], verts[i + 1] = verts[i + 1], verts[i]
        e = Edge2(j, m, None, verts, V((off[0], off[1], 0.0)))
        if (e.i1, e.i2) != (j, m):
            return 'indices %r instead of %r' % ((e.i1, e.i2), (j, m))
    else:
        n = V((d[0] / L, d[1] / L, 0.0))
        e = Edge2(va, vb, n)
    args.append((how, a, b, off))
    r.see('edges')
    m = max(abs(c) for c in a + b + off)
    tol = 3e-7 * m
    if len(e.p1) != 2 or len(e.p2) != 2 or len(e.norm) != 2:
        return 'not in the plane'
    if not close(e.p1, (a[0] - off[0], a[1] - off[1]), tol) or not close(e.p2, (b[0] - off[0], b[1] - off[1]), tol):
        return 'ends %r %r' % (tuple(e.p1), tuple(e.p2))
    if not close(e.norm, (d[0] / L, d[1] / L), 1e-6 + 3e-7 * m / L):
        return 'direction %r instead of (%.6f, %.6f)' % (tuple(e.norm), d[0] / L, d[1] / L)
    if not abs(e.length_squared() - L * L) <= 1e-6 * L * L + 4 * tol * L:
        return 'length^2 %r instead of %r' % (e.length_squared(), L * L)
    # ends are copies
    if how != 2:
        va[0] += 1.0
        if e.p1[0] == va[0]:
            return 'shares its end with the argument'


def predicates(rng, r, args):
    k = rng.choice([0, 0, 1, 2])
    P = [pt(rng, k) for _ in range(4)]
    args.append(P)
    A, B, C, D = [V(p) for p in P]
    a, b, c, d = [ex(p) for p in P]

    def o(x, y, z):
        v = cr((y[0] - x[0], y[1] - x[1]), (z[0] - x[0], z[1] - x[1]))
        return (v > 0) - (v < 0)
    r.see('orientations')
    if bool(target.euc.ccw(A, B, C)) != (o(a, b, c) > 0):
        return 'ccw is %r' % (target.euc.ccw(A, B, C),)
    s = (o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b))
    if 0 in s:
        return          # touching segments: not specified
    want = s[0] != s[1] and s[2] != s[3]
    if want:
        r.see('segments that cross')
    for X in ((A, B, C, D), (B, A, C, D), (C, D, B, A)):
        if bool(target.euc.intersect(*X)) != want:
            return 'intersect is %r' % (not want,)


def circle(rng, r, args):
    f = target.euc.fitCircle3Points
    n = rng.randint(3, 12)
    if rng.random() < 0.25:
        p, v = pt(rng, 1), pt(rng, 0)
        if v == (0, 0):
            v = (1, 3)
        P = [(p[0] + i * v[0], p[1] + i * v[1]) for i in range(n)]
        args.append(P)
        r.see('points in line')
        got = f([V(p) for p in P])
        if got is not None and not (got[1] > 1e6 or math.isinf(got[1])):
            return 'points in line have the circle %r' % (got,)
        return
    c = (rng.uniform(-100, 100), rng.uniform(-100, 100))
    R = rng.uniform(0.5, 60)
    a0, span = rng.uniform(0, 6.28), rng.uniform(1.0, 5.5) * rng.choice([1, -1])
    P = [tuple(V((c[0] + R * math.cos(a0 + span * i / (n - 1)), c[1] + R * math.sin(a0 + span * i / (n - 1))))) for i in range(n)]
    # only three of them count
    for i in range(n):
        if i not in (0, n // 2, n - 1) and rng.random() < 0.5:
            P[i] = (P[i][0] + 1, P[i][1])
    args.append(P)
    got = f([V(p) for p in P])
    r.see('circles')
    if got is None:
        return 'no circle'
    (x, y), rad = got[0][:2], got[1]
    if abs(x - c[0]) > 1e-3 or abs(y - c[1]) > 1e-3 or abs(rad - R) > 1e-3:
        return 'circle (%.5f, %.5f) %.5f instead of (%.5f, %.5f) %.5f' % (x, y, rad, c[0], c[1], R)


def equal(rng, r, args):
    x = rng.choice([0.0, rng.uniform(-2, 2), rng.uniform(-1e4, 1e4)])
    e = 10 ** rng.uniform(-9, 1) * rng.choice([1, -1])
    y = x + e if rng.random() < 0.5 else x * (1 + e)
    args.append((x, y))
    d, t = abs(x - y), 1e-5 * max(1.0, abs(x), abs(y))
    if 0.99 * t < d < 1.01 * t:
        return
    r.see('comparisons')
    if bool(target.bps.robustFloatEqual(x, y)) != (d < t):
        return '%r and %r are %s' % (x, y, 'different' if d < t else 'equal')


FUN = {'intersect': intersect, 'distance': distance, 'edges': edges, 'predicates': predicates, 'circle': circle, 'equal': equal}


def run(kind, n, rng):
    r = Res(key=(kind, n))
    for _ in range(BATCH):
        args = []
        try:
            why = FUN[kind](rng, r, args)
        except Exception as e:
            why = '%s: %s' % (type(e).__name__, e)
        if why:
            r.fail(kind, why)
            r.fail('arguments', args)
            break
    r.sample = {kind: args}
    return r
