"""Simple footprints that nobody would build: everything polygonize() has to survive."""
import math
from . import gen, geom, target


def zigzag(rng):
    n = rng.randint(3, 14)
    w = rng.choice([0.3, 1.0, 5.0])
    up, lo = [], []
    for i in range(n):
        x = i * rng.uniform(0.5, 4.0) if rng.random() < 0.3 else i * 2.0
        y = (i % 2) * rng.uniform(0.2, 6.0)
        lo.append((x, y))
        up.append((x, y + w))
    lo = sorted(set(lo))
    up = sorted(set(up))
    return [lo + up[::-1]]


def needle(rng):
    a = rng.uniform(5, 200)
    b = rng.uniform(0.02, 0.5)
    k = rng.random()
    if k < 0.3:
        return [[(0, 0), (a, 0), (rng.uniform(0, a), b)]]
    if k < 0.6:
        return [[(0, 0), (a, 0), (a, b), (0, b)]]
    return [[(0, 0), (a, 0), (a, b), (a / 2, 3 * b), (0, b)]]


def lattice(rng):
    """Rectilinear or octilinear outline on a coarse lattice: many simultaneous events."""
    m = rng.randint(2, 6)
    s = rng.choice([1.0, 2.0, 5.0, 10.0])
    cells = {(rng.randrange(m), rng.randrange(m))}
    for _ in range(rng.randint(2, m * m)):
        x, y = rng.choice(sorted(cells))
        dx, dy = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
        cells.add((x + dx, y + dy))
    return outlines(cells, s)


def outlines(cells, s):
    """All contours of a set of lattice cells (touching corners excluded)."""
    es = {}
    for x, y in cells:
        for a, b in (((x, y), (x + 1, y)), ((x + 1, y), (x + 1, y + 1)), ((x + 1, y + 1), (x, y + 1)), ((x, y + 1), (x, y))):
            if (b, a) in es:
                del es[(b, a)]
            else:
                es[(a, b)] = 1
    nxt = {}
    for a, b in es:
        if a in nxt:
            return None
        nxt[a] = b
    cs = []
    while nxt:
        a = min(nxt)
        c = [a]
        b = nxt.pop(a)
        while b != a:
            c.append(b)
            b = nxt.pop(b)
        c = [p for i, p in enumerate(c) if geom.cross(c[i - 1], p, c[(i + 1) % len(c)])]
        cs.append([(float(x * s), float(y * s)) for x, y in c])
    outer = [c for c in cs if geom.signed_area(c) > 0]
    if len(outer) != 1:
        return None
    return outer + [c for c in cs if geom.signed_area(c) < 0]


def roundish(rng):
    """Nearly regular: nodes cluster."""
    n = rng.randint(3, 60)
    r = rng.choice([0.5, 3.0, 10.0, 40.0])
    e = rng.choice([0.0, 1e-5, 1e-4, 1e-3, 0.01, 0.05])
    ph = rng.choice([0.0, rng.uniform(0, 6)])
    return [[((r + rng.uniform(-e, e)) * math.cos(ph + 2 * math.pi * i / n), (r + rng.uniform(-e, e)) * math.sin(ph + 2 * math.pi * i / n)) for i in range(n)]]


PIECES = [0, 0, 0, 1, 1, 1, 2, 3, 7, 11]


def dense(rng):
    """Walls chopped into pieces, some of them barely bent."""
    cs = gen.make(rng.choice(['ortho', 'star', 'simple', 'rect', 'holes', 'regular', 'apse']), rng)
    if cs is None:
        return None
    e = rng.choice([0.0, 0.0, 1e-4, 1e-3, 0.02])
    out = []
    for c in cs:
        d = []
        for i, p in enumerate(c):
            q = c[(i + 1) % len(c)]
            d.append(p)
            m = rng.choice(PIECES)
            for k in range(m):
                L = geom.dist(p, q)
                t = (k + 1) / max(4.0, m + 1.0)
                o = rng.uniform(-e, e)
                d.append((p[0] + t * (q[0] - p[0]) - o * (q[1] - p[1]) / L, p[1] + t * (q[1] - p[1]) + o * (q[0] - p[0]) / L))
        out.append(d)
    return out


def thin(rng):
    """Any family squeezed in one direction."""
    cs = gen.make(gen.pick(rng) if hasattr(gen, 'pick') else rng.choice(sorted(gen.FAMILIES)), rng)
    if cs is None:
        return None
    f = rng.choice([0.02, 0.1, 0.3])
    return [[(x, y * f) for x, y in c] for c in cs]


def scaled(rng):
    """Any family, far too small or far too large."""
    cs = gen.make(rng.choice(sorted(gen.FAMILIES)), rng)
    if cs is None:
        return None
    f = rng.choice([0.01, 0.05, 0.2, 10.0, 100.0])
    return [[(x * f, y * f) for x, y in c] for c in cs]


def noisy(rng):
    """Any family with all its corners moved a little: broken symmetries, nearly simultaneous events."""
    cs = gen.make(rng.choice(['ortho', 'sym', 'regular', 'comb', 'courtyard', 'notched', 'bays', 'apse', 'manyholes', 'rect', 'collinear', 'fillet', 'skewbays']), rng)
    if cs is None:
        return None
    e = rng.choice([1e-5, 1e-4, 1e-3, 1e-2, 0.05])
    return [[(x + rng.uniform(-e, e), y + rng.uniform(-e, e)) for x, y in c] for c in cs]


def koch(rng):
    n = rng.choice([3, 4, 5])
    P = [(20 * math.cos(2 * math.pi * i / n), 20 * math.sin(2 * math.pi * i / n)) for i in range(n)]
    s = rng.choice([-1, 1]) * rng.choice([1, 0.8, 0.5])
    for _ in range(rng.choice([1, 1, 2])):
        Q = []
        for i, p in enumerate(P):
            q = P[(i + 1) % len(P)]
            dx, dy = (q[0] - p[0]) / 3, (q[1] - p[1]) / 3
            h = s * math.sqrt(3) / 2
            Q += [p, (p[0] + dx, p[1] + dy), (p[0] + 1.5 * dx + h * dy, p[1] + 1.5 * dy - h * dx), (p[0] + 2 * dx, p[1] + 2 * dy)]
        P = Q
    return [P]


def any_family(rng):
    return gen.make(rng.choice(sorted(gen.FAMILIES)), rng)


FAMILIES = {'zigzag': zigzag, 'needle': needle, 'lattice': lattice, 'roundish': roundish, 'dense': dense,
            'thin': thin, 'scaled': scaled, 'noisy': noisy, 'koch': koch, 'any': any_family}
WEIGHTS = {'zigzag': 2, 'needle': 1, 'lattice': 4, 'roundish': 3, 'dense': 3, 'thin': 2, 'scaled': 2, 'noisy': 4, 'koch': 1, 'any': 4}


def draw(rng, fams=None, clear=0.01, nmax=80):
    """-> (family, contours) or None; the contours are simple and apart from each other."""
    w = fams or WEIGHTS
    fam = rng.choices(list(w), list(w.values()))[0]
    cs = FAMILIES[fam](rng)
    if cs is None or sum(map(len, cs)) > nmax:
        return None
    if rng.random() < 0.6:
        cs = gen.transform(cs, rot=rng.uniform(0, 6.3) if rng.random() < 0.7 else rng.choice([0, math.pi / 2, math.pi / 4]))
    k = rng.random()
    d = 0.0 if k < 0.5 else 50.0 if k < 0.8 else 1000.0
    if d:
        cs = gen.transform(cs, dx=rng.uniform(-d, d), dy=rng.uniform(-d, d))
    k = rng.randrange(len(cs[0]))
    cs = [cs[0][k:] + cs[0][:k]] + cs[1:]
    cs = target.q32(cs)
    if not geom.is_simple_region(cs, clear):
        return None
    return fam, cs
