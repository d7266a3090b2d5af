"""Draws footprints from the domain on which the roof is determined: the straight skeleton is
known (the reference is certified) and none of the documented simplifications of the library
applies.  Nothing in here looks at what the code under test does."""
import math
from . import gen, geom, domain, target, refskel, cert

# families and how often they are drawn
WEIGHTS = {
    'convex': 3, 'star': 4, 'simple': 4, 'ortho': 5, 'holes': 5, 'regular': 2, 'rect': 1, 'bays': 4,
    'skewbays': 2, 'apse': 2, 'courtyard': 4, 'wonky': 2, 'collinear': 3, 'comb': 3, 'big': 1,
    'notched': 3, 'sym': 3, 'manyholes': 2, 'tiny': 2, 'huge': 2, 'spiral': 2, 'fillet': 2,
    'parametric': 2, 'osm': 3,
}
CLEAR = 0.5          # contours stay farther than this from themselves (documented merging works below)
NODE_SEP = 0.15      # Manhattan distance of skeleton nodes; nodes nearer than 0.1 are merged by design
PINCH = 0.02         # distance of skeleton nodes from foreign skeleton edges
ANGLE = 9.0          # degrees; sharper or straighter corners of a face than 8.1 are simplified by design
TOL = 0.02


class Case:
    __slots__ = ('fam', 'cs', 'f', 'R', 'tol', 'scale')


def ok_config(f, uneven=False, sharp=False):
    """Is the shape of the footprint (f = domain.features) in the domain?"""
    if f['ref'] is None:
        return 'reference not certified'
    if f['dn'] <= NODE_SEP:
        return 'nodes too near to each other'
    if f['de'] <= PINCH:
        return 'node at a foreign edge'
    if f['ms'] <= (0.8 if sharp else ANGLE):
        return 'sharp face'
    if sharp and not domain.spikes(f['ref']):
        return 'no needle'
    if f['ud'] and not uneven:
        return 'uneven dormer'
    if f['wide'] and f['n'] > 28:
        return 'known finding F1 (large contour with faces wider than their wall)'
    return None


def pick(rng, fams=None):
    fams = fams or WEIGHTS
    if isinstance(fams, dict):
        return rng.choices(list(fams), list(fams.values()))[0]
    return rng.choice(list(fams))


def place(rng, cs, far=True):
    """Move the footprint; the numbers grow, the shape stays."""
    k = rng.random()
    d = 0.0 if k < 0.4 else 50.0 if k < 0.75 or not far else 500.0
    if d:
        cs = gen.transform(cs, dx=rng.uniform(-d, d), dy=rng.uniform(-d, d))
    return cs


def raw(rng, fams=None, clear=CLEAR, far=True):
    """Any simple footprint: -> (family, contours) or None."""
    fam = pick(rng, fams)
    cs = gen.make(fam, rng)
    if cs is None:
        return None
    cs = target.q32(place(rng, cs, far))
    if not geom.is_simple_region(cs, clear):
        return None
    return fam, cs


def draw(rng, fams=None, uneven=False, far=True, tries=4, accept=None, sharp=False, grid=None):
    """-> Case, or the reason why there is none."""
    why = 'no footprint'
    for _ in range(tries):
        d = raw(rng, fams, far=far)
        if d is None:
            continue
        fam, cs = d
        if grid:
            cs = [[(round(x * grid) / grid, round(y * grid) / grid) for x, y in l] for l in cs]
            if not geom.is_simple_region(cs, CLEAR):
                continue
        f = domain.features(cs)
        why = ok_config(f, uneven, sharp)
        if why is None and accept is not None:
            why = accept(cs, f)
        if why is None:
            c = Case()
            c.fam, c.cs, c.f, c.R = fam, cs, f, f['ref']
            m = max(abs(v) for l in cs for p in l for v in p)
            c.scale = m
            c.tol = TOL + 1e-6 * m
            return c
    return why


def nudge(cs, rng, eps):
    """Shift the lines of the walls by up to eps; walls in one line stay in one line."""
    groups = []

    def line(a, b):
        L = geom.dist(a, b)
        d = ((b[0] - a[0]) / L, (b[1] - a[1]) / L)
        n = (-d[1], d[0])
        for g in groups:
            if abs(abs(g[0][0] * d[0] + g[0][1] * d[1]) - 1.0) < 1e-8 and \
                    max(abs(g[1][0] * p[0] + g[1][1] * p[1] - g[2]) for p in (a, b)) < 1e-3:
                return g
        g = [d, n, n[0] * a[0] + n[1] * a[1], rng.uniform(-eps, eps)]
        groups.append(g)
        return g
    out = []
    for c in cs:
        n = len(c)
        ls = [line(c[i], c[(i + 1) % n]) for i in range(n)]
        q = []
        for i, p in enumerate(c):
            g, h = ls[i - 1], ls[i]
            det = g[1][0] * h[1][1] - g[1][1] * h[1][0]
            if g is h or abs(det) < 1e-4:
                q.append((p[0] + g[1][0] * g[3], p[1] + g[1][1] * g[3]))
                continue
            # p moved by u with n_g.u = shift of g, n_h.u = shift of h (signs of the groups' normals)
            u = ((g[3] * h[1][1] - g[1][1] * h[3]) / det, (g[1][0] * h[3] - g[3] * h[1][0]) / det)
            q.append((p[0] + u[0], p[1] + u[1]))
        out.append(q)
    return out


def stable(cs, rng, tol=TOL, n=4, eps=2e-4):
    """Is the skeleton insensitive to tiny changes of the input?  Asked before a violation is
    reported: where it isn't, an implementation in single precision may take another decision."""
    try:
        R0 = refskel.skeleton(cs)
    except refskel.RefFailure:
        return False
    A = R0.nodes[R0.ncontour:]
    for _ in range(n):
        q = nudge(cs, rng, eps)
        try:
            R = refskel.skeleton(q)
        except refskel.RefFailure:
            return False
        if domain.refcert(q, R, 1e-3):
            return False
        B = R.nodes[R.ncontour:]
        for P, Q in ((A, B), (B, A)):
            for p in P:
                if min(abs(p[0] - r[0]) + abs(p[1] - r[1]) + abs(p[2] - r[2]) for r in Q) > tol:
                    return False
    return True


def shape_key(cs):
    return tuple(round(v, 3) for c in cs for p in c for v in p)


def signature(faces):
    """Combinatorial type of the roof: cyclic sequence of face sizes."""
    s = [len(f) for f in faces]
    n = len(s)
    if n > 40:
        return tuple(sorted(s))
    return min(tuple(s[i:] + s[:i]) for i in range(n))


# ---------------------------------------------------------------------------
# calls of polygonize() in all its configurations

class Config:
    __slots__ = ('height', 'tan', 'z', 'prefix', 'gaps', 'perm', 'outer_at', 'unit', 'faces', 'noholes', 'slope')


def config(rng, R=None, nholes=0):
    c = Config()
    k = rng.random()
    c.height = c.tan = 0.0
    if k < 0.55:
        c.tan = rng.choice([1.0, 0.5, 0.3, 2.0, rng.uniform(0.1, 3.0)])
    elif k < 0.85:
        c.height = rng.choice([1.0, 10.0, rng.uniform(0.5, 25.0)])
        if rng.random() < 0.5:
            c.tan = rng.uniform(0.1, 3.0)
    c.z = rng.choice([0.0, 0.0, 3.5, -2.25, rng.uniform(-50, 120)])
    c.prefix = rng.choice([0, 0, 1, 4, rng.randint(2, 30)])
    c.gaps = [rng.choice([0, 0, 0, 1, 3]) for _ in range(nholes + 1)]
    c.perm = list(range(nholes))
    if rng.random() < 0.4:
        rng.shuffle(c.perm)
    c.outer_at = 0 if rng.random() < 0.7 else rng.randint(0, nholes)
    c.unit = rng.random() < 0.35
    c.faces = rng.choice(['none', 'none', 'empty', 'some'])
    c.noholes = rng.choice([None, []])
    c.slope = slope_of(c, R)
    return c


def slope_of(c, R):
    if c.height:
        return c.height / max(p[2] for p in R.nodes) if R else None
    return c.tan


class Out:
    __slots__ = ('verts', 'n0', 'ret', 'faces', 'new', 'cidx', 'pts', 'before', 'junk', 'args', 'filled', 'exc')


def build(cs, g):
    """Lay the contours out in a vertex list as the configuration says."""
    V = target.Vector
    o = Out()
    verts, junk = [], []
    cidx = [None] * len(cs)
    k = [0]
    twins = (g.prefix + sum(g.gaps)) % 3 == 1

    def pad(m):
        for _ in range(m):
            junk.append(len(verts))
            k[0] += 1
            if twins:       # unrelated, but at the place of a contour vertex
                c = cs[k[0] % len(cs)]
                verts.append(V(c[5 * k[0] % len(c)] + (g.z if k[0] % 2 else 55.0,)))
            else:
                verts.append(V((1000.0 + 3 * k[0], -7.0 * k[0], 55.0)))

    def put(i, z):
        cidx[i] = list(range(len(verts), len(verts) + len(cs[i])))
        verts.extend(V((x, y, z)) for x, y in cs[i])
    pad(g.prefix)
    order = [i + 1 for i in g.perm]
    blocks = order[:g.outer_at] + [0] + order[g.outer_at:]
    for j, b in enumerate(blocks):
        put(b, g.z)
        if j < len(g.gaps):
            pad(g.gaps[j])
    holes = [(cidx[i][0], len(cs[i])) for i in order]
    uv = None
    if g.unit:
        uv = []
        for i in [0] + order:
            c = cs[i]
            for a, b in zip(c, c[1:] + c[:1]):
                v = V((b[0] - a[0], b[1] - a[1], 0.0))
                v.normalize()
                uv.append(v)
    faces = None
    if g.faces == 'empty':
        faces = []
    elif g.faces == 'some':
        faces = [[0, 1, 2], [2, 1, 0, 3]]
    o.verts, o.cidx, o.junk, o.n0, o.filled = verts, cidx, set(junk), len(verts), faces
    o.args = [verts, cidx[0][0], len(cs[0]), holes or g.noholes, g.height, g.tan, faces, uv]
    return o


def call(cs, g):
    """-> Out; o.faces are the new faces."""
    o = build(cs, g)
    o.before = [tuple(v) for v in o.verts]
    k = len(o.filled) if o.filled is not None else 0
    o.exc = None
    try:
        o.ret = target.bps.polygonize(*o.args)
    except Exception as e:
        o.exc = e
        o.ret = o.faces = None
        return o
    o.faces = o.ret[k:]
    o.pts = [tuple(v) for v in o.verts]
    return o


def ring_faces(o):
    """Faces turned so that the contour edge is first, whatever their first edge is."""
    ce = {(c[i], c[(i + 1) % len(c)]) for c in o.cidx for i in range(len(c))}
    out = []
    for f in o.faces:
        f = list(f)
        for i in range(len(f)):
            if (f[i], f[(i + 1) % len(f)]) in ce:
                f = f[i:] + f[:i]
                break
        out.append(f)
    return out


def describe(c, g=None):
    d = {'family': c.fam, 'contours': [[[round(v, 4) for v in p] for p in l] for l in c.cs]}
    if g is not None:
        d['height'], d['tan'], d['z'] = g.height, g.tan, g.z
        d['layout'] = {'prefix': g.prefix, 'gaps': g.gaps, 'holes': g.perm, 'unitVectors': g.unit, 'faces': g.faces}
    return d
