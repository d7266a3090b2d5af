"""P08: rigid motions, reflections, scaling and the first vertex."""
import math
import random
from .. import cases, compare, domain, geom, roofs, target
from ..engine import Res

ID = 'P08'
TITLE = 'The roof does not depend on position, orientation, scale or first vertex'
TECHNIQUE = 'runtime monitor relating polygonize() runs on transformed copies of one footprint (metamorphic oracle)'
NOTE = ('Nodes and faces of the run on a moved, rotated, mirrored, scaled or renumbered footprint are mapped back and compared with '
        'those of the original, uneven dormers included. Sampled inputs and transformations.')
RULE = ('Footprints of 24 families where no documented simplification applies (uneven dormers included in kind uneven) and up to five '
        'transformations of each; distinct = different contours rounded to 1 mm')
PLAN = {
    'quick': [('mixed', 6000), ('holes', 1400), ('symmetric', 1800), ('free', 1400), ('uneven', 3000), ('real', 1000), ('far', 2400)],
    'thorough': [('mixed', 60000), ('holes', 14000), ('symmetric', 18000), ('free', 14000), ('uneven', 30000), ('real', 10000), ('far', 20000)],
}
MINIMUM = {'calls': 18000, 'transformed runs': 14000, 'nodes compared': 80000, 'faces compared': 120000,
           'mirrored': 2500, 'scaled': 2500, 'rotated': 2500, 'other first vertex': 2500, 'with uneven dormers': 100, 'far': 1500}
ASSUMPTIONS = ['same domain as P01; scaling keeps every length on the same side of the documented absolute thresholds']


class T:
    """p -> f * Rot(phi) (mirror p) + d; roll: shift of the first vertices."""
    def __init__(self, rng, kind, cs):
        self.phi = self.dx = self.dy = 0.0
        self.f, self.mirror = 1.0, False
        self.roll = [0] * len(cs)
        self.kind = kind
        if kind == 'rotated':
            self.phi = rng.choice([math.pi / 2, math.pi, math.pi / 4, rng.uniform(0, 6.28), rng.uniform(0, 6.28)])
        elif kind == 'moved':
            self.dx, self.dy = rng.uniform(-300, 300), rng.uniform(-300, 300)
        elif kind == 'far':     # exact: the coordinates are multiples of 1/64
            d = 2.0 ** rng.randint(10, 17)
            self.dx, self.dy = rng.choice([-d, d]), rng.choice([-d, 0.0, d])
        elif kind == 'mirrored':
            self.mirror = True
            self.phi = rng.choice([0.0, math.pi / 2, rng.uniform(0, 6.28)])
        elif kind == 'scaled':
            self.f = rng.choice([0.5, 0.8, 1.25, 2.0, rng.uniform(1.0, 8.0)])
        else:
            self.roll = [rng.randrange(len(c)) for c in cs]
        if rng.random() < 0.3:
            self.roll = [rng.randrange(len(c)) for c in cs]

    def pt(self, p):
        x, y = p[0], p[1]
        if self.mirror:
            x = -x
        c, s = math.cos(self.phi), math.sin(self.phi)
        return (self.f * (c * x - s * y) + self.dx, self.f * (s * x + c * y) + self.dy)

    def contours(self, cs):
        """-> contours, wall[ci][i] = index of the transformed wall of wall i of contour ci"""
        out, wall = [], []
        for c, k in zip(cs, self.roll):
            n = len(c)
            q = [self.pt(p) for p in c]
            idx = list(range(n))
            if self.mirror:
                idx = idx[::-1]
            idx = idx[k:] + idx[:k]
            out.append([q[i] for i in idx])
            pos = {i: j for j, i in enumerate(idx)}
            # the wall i -> i+1 becomes pos[i] -> pos[i+1], or the other way round when mirrored
            wall.append([pos[(i + 1) % n] if self.mirror else pos[i] for i in range(n)])
        return target.q32(out), wall


def faces_by_wall(o):
    """-> {(contour, wall): face turned to its wall}, leftover faces"""
    ce = {}
    for ci, l in enumerate(o.cidx):
        for i in range(len(l)):
            ce[(l[i], l[(i + 1) % len(l)])] = (ci, i)
    d = {}
    for f in o.faces:
        for i in range(len(f)):
            w = ce.get((f[i], f[(i + 1) % len(f)]))
            if w is not None:
                d.setdefault(w, []).append(f[i:] + f[:i])
    return d


def thresholds(cs):
    """What decides about dormers: which of the bays are narrow enough."""
    return sorted((i, w * w < 100, con < 0.35) for w, con, un, i in domain.dormers(cs[0]))


def near(cs):
    """Is a bay near to the limits of the dormer detection?"""
    c = cs[0]
    n = len(c)
    for w, con, un, i in domain.dormers(c):
        a, b = c[i], c[(i + 1) % n]
        if abs(w - 10) < 0.05 or abs(con - 0.35) < 0.01:
            return True
        p, q = geom.dist(c[i - 1], c[i]), geom.dist(c[(i + 3) % n], c[(i + 4) % n])
        for k in (math.sqrt(0.125), math.sqrt(1.5)):
            if abs(p - k * w) < 0.02 or abs(q - k * w) < 0.02:
                return True
    return False


def relate(A, B, t, wall, tol, r):
    """Is roof B the image of roof A under t?"""
    na, nb = A.pts[A.n0:], B.pts[B.n0:]
    img = [t.pt(p) + (p[2] * t.f,) for p in na]
    used = {}
    for i, p in enumerate(img):
        j = min(range(len(nb)), key=lambda j: abs(nb[j][0] - p[0]) + abs(nb[j][1] - p[1]), default=None)
        if j is None or max(abs(x - y) for x, y in zip(nb[j], p)) > tol:
            r.fail(t.kind, 'no node at the image (%.4f, %.4f, %.4f) of node (%.4f, %.4f)' % (p + na[i][:2]))
            return
        used.setdefault(j, []).append(i)
    if len(nb) != len(na) or len(used) != len(na):
        r.fail(t.kind, '%d nodes, %d in the image' % (len(na), len(nb)))
        return
    r.see('nodes compared', len(na))
    back = {A.n0 + v[0]: B.n0 + k for k, v in used.items()}
    for ci, l in enumerate(A.cidx):
        n = len(l)
        for i in range(n):
            j = wall[ci][i]
            m = B.cidx[ci]
            back[l[i]] = m[(j + 1) % n] if t.mirror else m[j]
    fa, fb = faces_by_wall(A), faces_by_wall(B)
    if len(A.faces) != len(B.faces):
        r.fail(t.kind, '%d faces, %d in the image' % (len(A.faces), len(B.faces)))
    for (ci, i), fs in fa.items():
        gs = fb.get((ci, wall[ci][i]), [])
        if len(fs) != 1 or len(gs) != 1:
            if len(fs) != len(gs):
                r.fail(t.kind, 'wall %d has %d faces, its image %d' % (i, len(fs), len(gs)))
            continue
        f = [back[k] for k in fs[0]]
        if t.mirror:
            f = [f[1], f[0]] + f[:1:-1]
        r.see('faces compared')
        if f != gs[0]:
            r.fail(t.kind, 'the face of wall %d of contour %d is %r, its image should be %r, but is %r' % (i, ci, fs[0], f, gs[0]))
            return


def steady(cs, g, n=3):
    """Does polygonize() itself give the same roof for footprints moved by a tenth of a millimeter?"""
    rng = random.Random(2)
    A = cases.call(cs, g)
    if A.exc is not None:
        return True
    t = T(rng, 'moved', cs)
    t.dx = t.dy = 0.0
    t.roll = [0] * len(cs)
    wall = [list(range(len(c))) for c in cs]
    for _ in range(n):
        q = target.q32(cases.nudge(cs, rng, 1e-4))
        B = cases.call(q, g)
        s = Res()
        if B.exc is not None:
            return False
        relate(A, B, t, wall, 0.02, s)
        if s.bad:
            return False
    return True


def run(kind, n, rng):
    uneven = kind == 'uneven'
    far = kind == 'far'
    c = cases.draw(rng, roofs.KINDS['mixed' if far else kind], uneven=uneven, far=False, grid=64 if far else None)
    if isinstance(c, str):
        return Res(skip=c)
    if near(c.cs):
        return Res(skip='bay near to the limits of the dormer detection')
    r = Res(key=cases.shape_key(c.cs))
    g = cases.config(rng, None, len(c.cs) - 1)
    g.height, g.tan, g.z = 0.0, 1.0, 0.0
    A = cases.call(c.cs, g)
    r.see('calls')
    if A.exc is not None:
        r.fail('exception', '%s: %s' % (type(A.exc).__name__, A.exc))
        return roofs.finish(c, g, r)
    if c.f['ud']:
        nodes = A.pts[A.n0:]
        pts = nodes + [p for l in c.cs for p in l]
        if any(abs(p[0] - q[0]) + abs(p[1] - q[1]) < 0.2 for i, p in enumerate(nodes) for q in pts[i + 1:]):
            return Res(skip='nodes too near to each other')
        r.see('with uneven dormers')
    kinds = ['rotated', 'moved', 'mirrored', 'scaled', 'other first vertex'] if not far else ['far', 'far']
    for k in kinds:
        t = T(rng, k, c.cs)
        if t.f < 1.0 and (c.f['dn'] * t.f <= cases.NODE_SEP or c.f['de'] * t.f <= cases.PINCH or geom.clearance(c.cs) * t.f <= cases.CLEAR):
            continue
        cs2, wall = t.contours(c.cs)
        if t.f != 1.0 and (near(cs2) or not t.mirror and not any(t.roll) and thresholds(c.cs) != thresholds(cs2) or
                           sorted(x[1:] for x in thresholds(c.cs)) != sorted(x[1:] for x in thresholds(cs2))):
            continue
        B = cases.call(cs2, g)
        r.see('calls')
        r.see('transformed runs')
        r.see(k)
        if B.exc is not None:
            r.fail(k, '%s: %s' % (type(B.exc).__name__, B.exc))
            break
        m = max(abs(v) for l in cs2 for p in l for v in p)
        try:
            relate(A, B, t, wall, 0.03 * max(1.0, t.f) + (3e-7 if far else 2e-6) * m, r)
        except Exception as e:
            r.fail('result', 'not a roof: %s: %s' % (type(e).__name__, e))
        if r.bad:
            r.fail('how', {'phi': t.phi, 'scale': t.f, 'mirror': t.mirror, 'move': (t.dx, t.dy), 'first': t.roll})
            if c.f['ud'] and not (steady(c.cs, g) and steady(cs2, g)):
                return Res(skip='the roof of the uneven dormers hangs on a decision within 0.0001')
            break
    return roofs.finish(c, g, r)
