"""P13: the graph of faces."""
import math
from fractions import Fraction as F
from .. import cases, roofs, target
from ..engine import Res

ID = 'P13'
TITLE = 'The faces graph traces exactly the bounded faces of a planar drawing'
TECHNIQUE = 'runtime monitor at poly2FacesGraph: embedding and faces compared with an independent rotation-system tracer'
NOTE = ('An own tracer with exact angular order gives the orbits of every drawing; embedding, edges and faces of the graph have to agree in every '
        'order of insertion. Sampled drawings.')
RULE = ('Certified roofs as graphs, random planar straight-line drawings (lattice and general points; contour vertices in front, bridges and dangling edges '
        'included, also disconnected ones), each inserted in two random orders with repeated edges; distinct = different drawings')
PLAN = {
    'quick': [('roof', 5400), ('lattice', 7500), ('points', 7500), ('rings', 4500)],
    'thorough': [('roof', 45000), ('lattice', 70000), ('points', 70000), ('rings', 40000)],
}
MINIMUM = {'graphs': 12000, 'faces traced': 60000, 'vertices ordered': 120000, 'edges repeated': 20000, 'faces of contour vertices only': 5000,
           'clockwise embeddings': 3000}


def half(d):
    return 0 if d[1] > 0 or (d[1] == 0 and d[0] > 0) else 1


def order(p, nb, P):
    """Neighbors counterclockwise around p (exact)."""
    import functools

    def d(q):
        return (F(P[q][0]) - F(P[p][0]), F(P[q][1]) - F(P[p][1]))

    def cmp(a, b):
        x, y = d(a), d(b)
        if half(x) != half(y):
            return half(x) - half(y)
        c = x[0] * y[1] - x[1] * y[0]
        return -1 if c > 0 else 1 if c < 0 else 0
    return sorted(nb, key=functools.cmp_to_key(cmp))


def orbits(adj, P):
    """Faces on the left of the directed edges."""
    ccw = {v: order(v, nb, P) for v, nb in adj.items()}
    todo = {(a, b) for a in adj for b in adj[a]}
    out = []
    while todo:
        e = min(todo)
        f = []
        while e in todo:
            todo.discard(e)
            f.append(e[0])
            a, b = e
            l = ccw[b]
            e = (b, l[l.index(a) - 1])
        out.append(f)
    return ccw, out


def cyc(f):
    """Smallest rotation."""
    return min(tuple(f[i:] + f[:i]) for i in range(len(f)))


def turn(l):
    i = l.index(min(l))
    return l[i:] + l[:i]


def cross_free(a, b, segs):
    """May segment a-b be drawn? (common end points allowed, nothing else); exact."""
    def o(p, q, r):
        c = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
        return (c > 0) - (c < 0)

    def on(p, q, r):
        return o(p, q, r) == 0 and min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
    for c, d in segs:
        sh = {a, b} & {c, d}
        if len(sh) == 2:
            return False
        if len(sh) == 1:
            s = sh.pop()
            x = b if a == s else a
            y = d if c == s else c
            if on(s, x, y) or on(s, y, x):
                return False
            continue
        if o(a, b, c) * o(a, b, d) <= 0 and o(c, d, a) * o(c, d, b) <= 0:
            return False
    return True


def drawing(kind, rng):
    """-> points, edges, number of contour vertices"""
    if kind == 'lattice':
        k = rng.randint(2, 5)
        s = rng.choice([1, 2, 8])
        P = [(s * x, s * y) for x in range(k) for y in range(k)]
        rng.shuffle(P)
        P = P[:rng.randint(3, len(P))]
    else:
        n = rng.randint(3, 22)
        m = rng.choice([64, 1024])
        P = sorted({(rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n)})
        rng.shuffle(P)
    n = len(P)
    E = []
    pairs = [(i, j) for i in range(n) for j in range(i)]
    rng.shuffle(pairs)
    keep = rng.choice([0.3, 0.7, 1.0])
    for i, j in pairs:
        if len(E) > 60 or rng.random() > keep:
            continue
        if any(k not in (i, j) and not cross_free(P[i], P[j], [(P[k], P[k])]) for k in range(n)):
            continue
        if cross_free(P[i], P[j], [(P[a], P[b]) for a, b in E]):
            E.append((i, j))
    nc = rng.choice([0, rng.randint(0, n), n // 2])
    return P, E, nc


def rings(rng):
    """An outer ring, inner points connected to it: the way roofs look like."""
    n = rng.randint(3, 9)
    P = [(int(1000 * math.cos(2 * math.pi * i / n)), int(1000 * math.sin(2 * math.pi * i / n))) for i in range(n)]
    E = [(i, (i + 1) % n) for i in range(n)]
    for _ in range(rng.randint(1, 8)):
        r, a = 800 * math.cos(math.pi / n) * math.sqrt(rng.random()), rng.uniform(0, 6.28)
        P.append((int(r * math.cos(a)), int(r * math.sin(a))))
    if len(set(P)) != len(P):
        return None
    N = len(P)
    pairs = [(i, j) for i in range(n, N) for j in range(i)]
    rng.shuffle(pairs)
    for i, j in pairs:
        if rng.random() < 0.8 and not any(k not in (i, j) and not cross_free(P[i], P[j], [(P[k], P[k])]) for k in range(N)) and \
                cross_free(P[i], P[j], [(P[a], P[b]) for a, b in E]):
            E.append((i, j))
    return P, E, n


def run(kind, n, rng):
    r = Res()
    if kind == 'roof':
        c = cases.draw(rng, roofs.KINDS['mixed'], far=False)
        if isinstance(c, str):
            return Res(skip=c)
        R = c.R
        P = [tuple(target.Vector((p[0], p[1]))) for p in R.nodes]
        E = sorted({(min(a, b), max(a, b)) for f in R.faces for a, b in zip(f, f[1:] + f[:1])} |
                   {(min(a, b), max(a, b)) for a, b in R.edges})
        nc = R.ncontour
    else:
        d = rings(rng) if kind == 'rings' else drawing(kind, rng)
        if d is None or not d[1]:
            return Res(skip='no drawing')
        P, E, nc = d
    r.key = (tuple(P), tuple(E), nc)
    r.sample = {'points': P[:8], 'edges': E[:8], 'contour vertices': nc}
    adj = {}
    for a, b in E:
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
    ccw, orb = orbits(adj, P)
    want = sorted(cyc(f) for f in orb if len(f) > 2 and any(v >= nc for v in f))
    r.see('faces of contour vertices only', sum(all(v < nc for v in f) for f in orb))
    V = target.Vector
    for rep in range(2):
        vl = [V((x, y, rng.uniform(0, 5))) if rep else V((x, y)) for x, y in P]
        ins = [e if rng.random() < 0.5 else e[::-1] for e in E]
        dup = rng.sample(ins, len(ins) // 3)
        ins += [e if rng.random() < 0.5 else e[::-1] for e in dup]
        rng.shuffle(ins)
        g = target.p2f.poly2FacesGraph()
        try:
            for e in ins:
                g.add_edge(rng.choice([tuple, list, set])(e))
            r.see('graphs')
            r.see('edges repeated', len(dup))
            es = {tuple(sorted(e)) for e in g.edges()}
            if es != {tuple(sorted(e)) for e in E}:
                r.fail('edges', 'edges() gives %r' % sorted(es ^ {tuple(sorted(e)) for e in E})[:4])
            emb = g.circular_embedding(vl, 'CCW')
            bad = None
            for v, l in ccw.items():
                r.see('vertices ordered')
                # the code lists the neighbors in the order it traces them: clockwise
                if sorted(emb[v]) != sorted(l) or turn(list(emb[v])) not in (turn(l[::-1]), turn(l)):
                    bad = v
            if bad is not None:
                r.fail('embedding', 'neighbors of vertex %d are %r, in the order of their angles %r' % (bad, list(emb[bad]), ccw[bad]))
            if rng.random() < 0.4:
                r.see('clockwise embeddings')
                cw = g.circular_embedding(vl, 'CW')
                if any(len(l) > 2 and turn(list(cw[v])) != turn(list(emb[v])[::-1]) for v, l in ccw.items()):
                    r.fail('embedding', 'clockwise is not the reverse of counterclockwise')
            fs = g.faces(emb, nc)
        except Exception as e:
            r.fail('exception', '%s: %s' % (type(e).__name__, e))
            return fin(r, P, E, nc)
        got = sorted(cyc(list(f)) for f in fs)
        r.see('faces traced', len(fs))
        if got != want:
            r.fail('faces', 'too much %r, missing %r' % ([f for f in got if f not in want][:3], [f for f in want if f not in got][:3]))
        if len(got) == len(want):
            for f in fs:
                es = list(zip(f, f[1:] + f[:1]))
                if any(a < nc and b < nc for a, b in es) and not (f[0] < nc and f[1] < nc):
                    r.fail('first', 'face %r does not start with a contour edge' % (f,))
        if r.bad:
            break
    return fin(r, P, E, nc)


def fin(r, P, E, nc):
    if r.bad:
        r.bad = r.bad[:4] + [('graph', {'points': P, 'edges': E, 'contour vertices': nc})]
    return r
