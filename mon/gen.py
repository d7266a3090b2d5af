"""Footprint generators. Every generator takes a random.Random and returns a list
of contours (outer CCW, holes CW) of float tuples, or None."""
import math
from .geom import signed_area, is_simple_region, clearance


def convex(rng, n=None, R=None):
    n = n or rng.randint(3, 12)
    R = R or rng.uniform(8, 40)
    ax = rng.uniform(0.4, 1.0)
    for _ in range(100):
        a = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        g = [(a[(i + 1) % n] - a[i]) % (2 * math.pi) for i in range(n)]
        if max(g) < math.pi * 0.95 and min(g) > 0.5 / n:
            break
    else:
        return None
    rot = rng.uniform(0, 2 * math.pi)
    c, s = math.cos(rot), math.sin(rot)
    P = [(R * math.cos(t), ax * R * math.sin(t)) for t in a]
    return [[(c * x - s * y, s * x + c * y) for x, y in P]]


def star(rng, n=None):
    """Star-shaped with respect to the origin, radii random."""
    n = n or rng.randint(4, 14)
    R = rng.uniform(10, 40)
    lo = rng.uniform(0.3, 0.9)
    off = rng.uniform(0, 2 * math.pi)
    P = []
    for i in range(n):
        t = off + (i + rng.uniform(-0.3, 0.3)) * 2 * math.pi / n
        r = R * rng.uniform(lo, 1)
        P.append((r * math.cos(t), r * math.sin(t)))
    return [P]


def simple2opt(rng, n=None):
    """Random points joined to a simple polygon by 2-opt moves."""
    n = n or rng.randint(5, 14)
    R = rng.uniform(15, 50)
    P = [(rng.uniform(-R, R), rng.uniform(-R, R)) for _ in range(n)]
    from .geom import segs_cross
    for _ in range(400):
        ch = False
        for i in range(n - 1):
            for j in range(i + 2, n):
                if i == 0 and j == n - 1:
                    continue
                if segs_cross(P[i], P[i + 1], P[j], P[(j + 1) % n]):
                    P[i + 1:j + 1] = P[i + 1:j + 1][::-1]
                    ch = True
        if not ch:
            break
    else:
        return None
    if signed_area(P) < 0:
        P.reverse()
    return [P]


def ortho(rng, n=None):
    """Random rectilinear polygon: union of cells grown on a random grid, outline traced."""
    nx, ny = rng.randint(2, 5), rng.randint(2, 5)
    xs = [0.0]
    for _ in range(nx):
        xs.append(xs[-1] + rng.uniform(2.5, 14))
    ys = [0.0]
    for _ in range(ny):
        ys.append(ys[-1] + rng.uniform(2.5, 14))
    k = rng.randint(2, nx * ny)
    cells = {(rng.randrange(nx), rng.randrange(ny))}
    while len(cells) < k:
        x, y = rng.choice(sorted(cells))
        dx, dy = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
        if 0 <= x + dx < nx and 0 <= y + dy < ny:
            cells.add((x + dx, y + dy))
    return outline(cells, xs, ys, rng)


def outline(cells, xs, ys, rng=None):
    nxt = {}
    for (x, y) in cells:
        for a, b, nb in (((x, y), (x + 1, y), (x, y - 1)), ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
                         ((x + 1, y + 1), (x, y + 1), (x, y + 1)), ((x, y + 1), (x, y), (x - 1, y))):
            if nb not in cells:
                if a in nxt:
                    return None     # touching corner
                nxt[a] = b
    loops = []
    while nxt:
        s = min(nxt)
        p = [s]
        c = nxt.pop(s)
        while c != s:
            p.append(c)
            c = nxt.pop(c)
        # drop straight vertices
        n = len(p)
        q = [p[i] for i in range(n) if (p[i][0] - p[i - 1][0]) * (p[(i + 1) % n][1] - p[i][1]) !=
             (p[i][1] - p[i - 1][1]) * (p[(i + 1) % n][0] - p[i][0])]
        loops.append([(xs[x], ys[y]) for x, y in q])
    loops.sort(key=lambda l: -signed_area(l))
    if rng is not None:
        loops = [l[k:] + l[:k] for l in loops for k in [rng.randrange(len(l))]]
    return loops


def with_holes(rng, base=None, nh=None):
    """A polygon with 1-4 small random polygonal holes."""
    o = (base or rng.choice([convex, ortho, star]))(rng)
    if o is None or len(o) > 1:
        return o
    xs = [p[0] for p in o[0]]
    ys = [p[1] for p in o[0]]
    from .geom import point_in_region
    want = nh or rng.randint(1, 3)
    res = [o[0]]
    for _ in range(60):
        if len(res) > want:
            break
        cx, cy = rng.uniform(min(xs), max(xs)), rng.uniform(min(ys), max(ys))
        if not point_in_region((cx, cy), res):
            continue
        m = rng.randint(3, 6)
        r = rng.uniform(1.5, 8)
        off = rng.uniform(0, 6.3)
        h = [(cx + r * math.cos(off - (i + rng.uniform(-.2, .2)) * 2 * math.pi / m),
              cy + r * math.sin(off - (i + rng.uniform(-.2, .2)) * 2 * math.pi / m)) for i in range(m)]
        if is_simple_region(res + [h], 1.0):
            res.append(h)
    return res if len(res) > 1 else None


def transform(contours, rot=0.0, scale=1.0, dx=0.0, dy=0.0, mirror=False):
    c, s = math.cos(rot) * scale, math.sin(rot) * scale
    out = []
    for l in contours:
        q = []
        for x, y in l:
            if mirror:
                x = -x
            q.append((c * x - s * y + dx, s * x + c * y + dy))
        if mirror:
            q.reverse()
        out.append(q)
    return out


def regular(rng, n=None):
    """Regular or nearly regular n-gon, optionally stretched."""
    n = n or rng.choice([3, 4, 5, 6, 8, 10, 12, 16])
    R = rng.uniform(5, 40)
    off = rng.uniform(0, 2 * math.pi)
    sx = rng.choice([1.0, 1.0, rng.uniform(0.3, 1.0)])
    j = rng.choice([0.0, 0.0, 0.02, 0.5])
    return [[(sx * R * math.cos(off + i * 2 * math.pi / n) + rng.uniform(-j, j),
              R * math.sin(off + i * 2 * math.pi / n) + rng.uniform(-j, j)) for i in range(n)]]


def rect(rng):
    a, b = rng.uniform(4, 40), rng.uniform(4, 40)
    if rng.random() < 0.3:
        b = a + rng.uniform(-0.3, 0.3)
    return [[(0, 0), (a, 0), (a, b), (0, b)]]


def bays(rng):
    """A rectangular or L-shaped building with symmetric rectangular bays (dormers)
    standing out of its walls."""
    a, b = rng.uniform(18, 60), rng.uniform(18, 60)
    P = [(0.0, 0.0), (a, 0.0), (a, b), (0.0, b)]
    if rng.random() < 0.4:
        c, d = rng.uniform(0.35, 0.65) * a, rng.uniform(0.35, 0.65) * b
        P = [(0.0, 0.0), (a, 0.0), (a, d), (c, d), (c, b), (0.0, b)]
    out = []
    n = len(P)
    nb = 0
    for i in range(n):
        p, q = P[i], P[(i + 1) % n]
        L = math.hypot(q[0] - p[0], q[1] - p[1])
        ux, uy = (q[0] - p[0]) / L, (q[1] - p[1]) / L
        out.append(p)
        if rng.random() < 0.6 and L > 12:
            s = rng.uniform(3, 6)
            while True:
                w = rng.uniform(2, 8)
                if s + w > L - 3.5:
                    break
                d = rng.uniform(0.8, 5)
                for t, h in ((s, 0), (s, d), (s + w, d), (s + w, 0)):
                    out.append((p[0] + ux * t + uy * h, p[1] + uy * t - ux * h))
                nb += 1
                s += w + rng.uniform(2.5, 12)
                if rng.random() < 0.3:
                    break
    if not nb:
        return None
    k = rng.randrange(len(out))
    return [out[k:] + out[:k]]


def skewbays(rng):
    """Like bays, but the sides of a bay may differ in length."""
    o = bays(rng)
    if o is None:
        return None
    P = o[0]
    k = rng.randrange(len(P))
    p, q = P[k], P[(k + 1) % len(P)]
    # shift one wall outwards or inwards
    L = math.hypot(q[0] - p[0], q[1] - p[1])
    h = rng.uniform(-2, 2)
    nx, ny = (q[1] - p[1]) / L * h, -(q[0] - p[0]) / L * h
    Q = list(P)
    Q[k] = (p[0] + nx, p[1] + ny)
    Q[(k + 1) % len(P)] = (q[0] + nx, q[1] + ny)
    return [Q]


def apse(rng):
    """Rectangular nave with a (semi)circular apse of 7 or more segments."""
    w = rng.uniform(10, 30)
    l = rng.uniform(8, 40)
    k = rng.randint(7, 14)
    if rng.random() < 0.5:
        P = [(0, 0), (l, 0)]
        for i in range(1, k):
            t = -math.pi / 2 + math.pi * i / k
            P.append((l + w / 2 * math.cos(t), w / 2 + w / 2 * math.sin(t)))
        P += [(l, w), (0, w)]
    else:
        r = w / 2 * rng.uniform(0.5, 0.85)
        P = [(0, 0), (l, 0)]
        for i in range(0, k + 1):
            t = -math.pi / 2 + math.pi * i / k
            P.append((l + r * math.cos(t), w / 2 + r * math.sin(t)))
        P += [(l, w), (0, w)]
    j = rng.choice([0, 0, 0.01, 0.1])
    s = rng.randrange(len(P))
    P = P[s:] + P[:s]
    return [[(x + rng.uniform(-j, j), y + rng.uniform(-j, j)) for x, y in P]]


def courtyard(rng):
    """Rectilinear building around one or two rectangular courtyards."""
    o = ortho(rng)
    if not o or len(o) > 1:
        return o
    from .geom import is_simple_region
    xs = [p[0] for p in o[0]]
    ys = [p[1] for p in o[0]]
    res = [o[0]]
    for _ in range(25):
        x0, y0 = rng.uniform(min(xs), max(xs)), rng.uniform(min(ys), max(ys))
        w, h = rng.uniform(1.5, 10), rng.uniform(1.5, 10)
        hole = [(x0, y0), (x0, y0 + h), (x0 + w, y0 + h), (x0 + w, y0)]
        k = rng.randrange(4)
        if is_simple_region(res + [hole[k:] + hole[:k]], 1.5):
            res.append(hole[k:] + hole[:k])
            if len(res) > 2 or rng.random() < 0.6:
                break
    return res if len(res) > 1 else None


def wonky(rng):
    """A rectilinear outline with every vertex moved a little (survey noise)."""
    o = (courtyard if rng.random() < 0.25 else ortho)(rng)
    if o is None:
        return None
    j = rng.choice([0.01, 0.05, 0.2, 0.6])
    return [[(x + rng.uniform(-j, j), y + rng.uniform(-j, j)) for x, y in c] for c in o]


def collinear(rng):
    """Another footprint with additional vertices on straight walls."""
    o = rng.choice([rect, ortho, convex, star, bays, with_holes, courtyard])(rng)
    if o is None:
        return None
    out = []
    for c in o:
        q = []
        n = len(c)
        for i in range(n):
            a, b = c[i], c[(i + 1) % n]
            q.append(a)
            L = math.hypot(a[0] - b[0], a[1] - b[1])
            if L > 4 and rng.random() < 1.5 / n:
                for t in sorted(rng.uniform(0.2, 0.8) for _ in range(rng.choice([1, 1, 2]))):
                    q.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
        out.append(q)
    return out


def comb(rng):
    """Many teeth: long contours with many reflex vertices."""
    n = rng.randint(3, 12)
    x = 0.0
    base = rng.uniform(4, 15)
    up = []
    for _ in range(n):
        w = rng.uniform(2, 9)
        h = rng.uniform(2.5, 20)
        g = rng.uniform(1.5, 8)
        t = rng.choice([0, 0, rng.uniform(-0.6, 0.6)])
        up += [(x, base), (x + t, base + h), (x + w + t, base + h), (x + w, base)]
        x += w + g
    x -= g
    P = [(0, 0), (x, 0)] + up[::-1]
    # drop the collinear corners at both ends
    P = [(0.0, 0.0), (x, 0.0)] + [p for p in up[::-1]][1:-1]
    k = rng.randrange(len(P))
    return [P[k:] + P[:k]]


def big(rng):
    """Polygons with many vertices."""
    n = rng.randint(30, 90)
    off = rng.uniform(0, 6.28)
    R = n * rng.uniform(0.6, 1.2)
    P = []
    for i in range(n):
        t = off + (i + rng.uniform(-.25, .25)) * 2 * math.pi / n
        r = R * rng.uniform(0.75, 1)
        P.append((r * math.cos(t), r * math.sin(t)))
    return [P]


def notched(rng):
    """A convex polygon with wedges cut into it (strong reflex vertices)."""
    o = convex(rng, rng.randint(3, 7), rng.uniform(15, 40))
    if o is None:
        return None
    P = o[0]
    out = []
    n = len(P)
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        out.append(a)
        if rng.random() < 0.5:
            t = sorted(rng.uniform(0.15, 0.85) for _ in range(3))
            m = (a[0] + t[1] * (b[0] - a[0]), a[1] + t[1] * (b[1] - a[1]))
            d = rng.uniform(0.1, 0.7)
            out.append((a[0] + t[0] * (b[0] - a[0]), a[1] + t[0] * (b[1] - a[1])))
            out.append((m[0] * (1 - d), m[1] * (1 - d)))
            out.append((a[0] + t[2] * (b[0] - a[0]), a[1] + t[2] * (b[1] - a[1])))
    return [out] if len(out) > n else None



def sym(rng):
    """Exactly symmetric outlines: many simultaneous events."""
    k = rng.choice(['plus', 'H', 'T', 'U', 'gear', 'star', 'Z', 'L', 'E', 'frame', 'diamondhole'])
    a, b, c, d = (rng.choice([rng.uniform(2, 20), float(rng.randint(2, 20))]) for _ in range(4))
    if k == 'plus':
        P = [(a, -a), (a + b, -a), (a + b, a), (a, a), (a, a + b), (-a, a + b), (-a, a), (-a - b, a),
             (-a - b, -a), (-a, -a), (-a, -a - b), (a, -a - b)]
    elif k == 'H':
        P = [(b, -c - d), (b + a, -c - d), (b + a, c + d), (b, c + d), (b, c), (-b, c), (-b, c + d), (-b - a, c + d),
             (-b - a, -c - d), (-b, -c - d), (-b, -c), (b, -c)]
    elif k == 'T':
        P = [(-a, 0), (a, 0), (a, b), (a + c, b), (a + c, b + d), (-a - c, b + d), (-a - c, b), (-a, b)]
    elif k == 'U':
        P = [(-a - b, 0), (a + b, 0), (a + b, c + d), (a, c + d), (a, d), (-a, d), (-a, c + d), (-a - b, c + d)]
    elif k == 'Z':
        P = [(0, 0), (a + b, 0), (a + b, c), (2 * a + b, c), (2 * a + b, c + d), (a, c + d), (a, c), (0, c)]
    elif k == 'L':
        P = [(0, 0), (a + b, 0), (a + b, c), (a, c), (a, c + d), (0, c + d)]
    elif k == 'E':
        P = [(0, 0), (a + b, 0), (a + b, c), (a, c), (a, c + d), (a + b, c + d), (a + b, 2 * c + d), (a, 2 * c + d),
             (a, 2 * c + 2 * d), (a + b, 2 * c + 2 * d), (a + b, 3 * c + 2 * d), (0, 3 * c + 2 * d)]
    elif k == 'gear':
        m = rng.randint(3, 10)
        R, f = rng.uniform(8, 30), rng.uniform(0.3, 0.9)
        P = []
        for i in range(2 * m):
            for t in (-0.25, 0.25):
                r = R if i % 2 else R * f
                P.append((r * math.cos((i + t) * math.pi / m), r * math.sin((i + t) * math.pi / m)))
    elif k == 'star':
        m = rng.randint(3, 12)
        R, f = rng.uniform(8, 30), rng.uniform(0.3, 0.9)
        P = [((R if i % 2 else R * f) * math.cos(i * math.pi / m), (R if i % 2 else R * f) * math.sin(i * math.pi / m))
             for i in range(2 * m)]
    else:
        s = a + b + 2
        P = [(-s, -s), (s, -s), (s, s), (-s, s)]
        if k == 'frame':
            H = [(-a, -a), (-a, a), (a, a), (a, -a)]
        else:
            H = [(-a, 0), (0, a), (a, 0), (0, -a)]
        i = rng.randrange(4)
        return [P, H[i:] + H[:i]]
    P = [(float(x), float(y)) for x, y in P]
    i = rng.randrange(len(P))
    return [P[i:] + P[:i]]


def manyholes(rng):
    """A large outline with 4 to 9 holes."""
    nx, ny = rng.randint(2, 4), rng.randint(2, 3)
    g = rng.uniform(12, 25)
    o = [(0.0, 0.0), (nx * g, 0.0), (nx * g, ny * g), (0.0, ny * g)]
    if rng.random() < 0.5:
        o = [(x + rng.uniform(-4, 4), y + rng.uniform(-4, 4)) for x, y in o]
    res = [o]
    for i in range(nx):
        for j in range(ny):
            if rng.random() < 0.15 and len(res) > 1:
                continue
            cx, cy = (i + .5) * g + rng.uniform(-.1, .1) * g, (j + .5) * g + rng.uniform(-.1, .1) * g
            m = rng.randint(3, 7)
            r = rng.uniform(.12, .3) * g
            off = rng.uniform(0, 6.3)
            res.append([(cx + r * math.cos(off - (q + rng.uniform(-.2, .2)) * 2 * math.pi / m),
                         cy + r * math.sin(off - (q + rng.uniform(-.2, .2)) * 2 * math.pi / m)) for q in range(m)])
    return res


def tiny(rng):
    """Small sheds, down to 1 m."""
    P = [(0.0, 0.0), (rng.uniform(1, 4), 0.0)]
    a, b = P[1][0], rng.uniform(1, 4)
    k = rng.randrange(3)
    if k == 0:
        P += [(a, b), (0.0, b)]
    elif k == 1:
        P += [(rng.uniform(0, a), b)]
    else:
        P += [(a + rng.uniform(-.4, .4), b), (rng.uniform(-.4, .4), b + rng.uniform(-.4, .4))]
    return [P]


def huge(rng):
    """Halls of several hundred metres."""
    o = rng.choice([rect, ortho, convex, star, courtyard, with_holes])(rng)
    return o and transform(o, scale=rng.uniform(4, 15))


def spiral(rng):
    """A rectangular corridor that winds inwards."""
    w = rng.uniform(3, 6)
    gap = rng.uniform(1.5, 4)
    m = rng.randint(3, 8)
    L = [rng.uniform(8, 14) + (w + gap) * ((m - i) // 2 + 1) for i in range(m)]
    x = y = 0.0
    ang = 0
    left, right = [], []
    # centre line that turns left after every leg; legs get shorter
    pts = [(0.0, 0.0)]
    for i in range(m):
        dx, dy = [(1, 0), (0, 1), (-1, 0), (0, -1)][i % 4]
        x, y = x + dx * L[i], y + dy * L[i]
        pts.append((x, y))
    h = w / 2
    for i, (px, py) in enumerate(pts):
        d0 = [(1, 0), (0, 1), (-1, 0), (0, -1)][(i - 1) % 4] if i else None
        d1 = [(1, 0), (0, 1), (-1, 0), (0, -1)][i % 4] if i < m else None
        nl = [(-d[1], d[0]) for d in (d0, d1) if d]
        sx, sy = sum(n[0] for n in nl), sum(n[1] for n in nl)
        left.append((px + sx * h, py + sy * h))
        right.append((px - sx * h, py - sy * h))
    return [right + left[::-1]]


def fillet(rng):
    """A rectangle or L whose corners are rounded or chamfered."""
    a, b = rng.uniform(14, 40), rng.uniform(14, 40)
    P = [(0.0, 0.0), (a, 0.0), (a, b), (0.0, b)]
    if rng.random() < 0.4:
        c, d = rng.uniform(0.4, 0.6) * a, rng.uniform(0.4, 0.6) * b
        P = [(0.0, 0.0), (a, 0.0), (a, d), (c, d), (c, b), (0.0, b)]
    out = []
    n = len(P)
    for i in range(n):
        p, q, r = P[i - 1], P[i], P[(i + 1) % n]
        if (q[0] - p[0]) * (r[1] - q[1]) - (q[1] - p[1]) * (r[0] - q[0]) < 0 or rng.random() < 0.4:
            out.append(q)
            continue
        R = rng.uniform(1.5, 5)
        m = rng.randint(1, 8)
        u = ((p[0] - q[0]) / geom_dist(p, q), (p[1] - q[1]) / geom_dist(p, q))
        v = ((r[0] - q[0]) / geom_dist(r, q), (r[1] - q[1]) / geom_dist(r, q))
        cx, cy = q[0] + R * (u[0] + v[0]), q[1] + R * (u[1] + v[1])
        for k in range(m + 1):
            t = math.pi / 2 * k / m
            out.append((cx - R * (v[0] * math.cos(t) + u[0] * math.sin(t)), cy - R * (v[1] * math.cos(t) + u[1] * math.sin(t))))
    k = rng.randrange(len(out))
    return [out[k:] + out[:k]]


def geom_dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def parametric(rng):
    """Points on smooth closed curves (ellipses, superformulas): many similar angles."""
    n = rng.randint(5, 26)
    R, e, m, A = rng.uniform(8, 30), rng.uniform(.4, 1), rng.randint(2, 5), rng.uniform(0, .35)
    ph = rng.uniform(0, 6.3)
    P = []
    for i in range(n):
        t = 2 * math.pi * i / n
        r = R * (1 + A * math.cos(m * t + ph))
        P.append((r * math.cos(t), e * r * math.sin(t)))
    return [P]


_CORPUS = None


def osm(rng):
    """A real building footprint (OpenStreetMap), as it is or with survey noise, scaled a little."""
    global _CORPUS
    if _CORPUS is None:
        import json
        import os
        d = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', 'osm.json')))
        _CORPUS = [[[tuple(p) for p in c] for c in d[k]['c']] for k in sorted(d)]
    cs = rng.choice(_CORPUS)
    j = rng.choice([0.0, 0.0, 0.002, 0.02, 0.1])
    sc = rng.choice([1.0, 1.0, rng.uniform(0.8, 1.5), rng.uniform(1.5, 3)])
    return [[((x + rng.uniform(-j, j)) * sc, (y + rng.uniform(-j, j)) * sc) for x, y in c] for c in cs]


FAMILIES = {
    'convex': convex, 'star': star, 'simple': simple2opt, 'ortho': ortho, 'holes': with_holes,
    'regular': regular, 'rect': rect, 'bays': bays, 'skewbays': skewbays, 'apse': apse,
    'courtyard': courtyard, 'wonky': wonky, 'collinear': collinear, 'comb': comb, 'big': big,
    'notched': notched, 'sym': sym, 'manyholes': manyholes, 'tiny': tiny, 'huge': huge, 'spiral': spiral,
    'fillet': fillet, 'parametric': parametric, 'osm': osm,
}
AXIS = {'ortho', 'rect', 'bays', 'skewbays', 'courtyard', 'comb', 'collinear', 'wonky', 'apse', 'sym', 'spiral', 'fillet', 'tiny'}


def noisyapse(rng):
    """A church with a noisy apse; its nodes nearly meet at the center."""
    w = rng.uniform(6, 24)
    l = rng.uniform(5, 30)
    k = rng.randint(6, 9)
    r = w / 2 * rng.choice([1.0, 1.0, rng.uniform(0.5, 0.9)])
    arc = rng.choice([math.pi, math.pi, rng.uniform(2.4, 3.1)])
    m = rng.choice([0.02, 0.05, 0.1, 0.2])
    A = []
    for i in range(0, k + 1):
        t = -arc / 2 + arc * i / k
        A.append((l + r * math.cos(t), w / 2 + r * math.sin(t)))
    A = [(x + rng.uniform(-m, m), y + rng.uniform(-m, m)) for x, y in A]
    x0 = A[0][0]
    both = rng.random() < 0.35
    if both:
        # the other end is round, too
        k = rng.randint(6, 9)
        q = w / 2 * rng.uniform(0.5, 0.95)
        Z = [(-q * math.sin(math.pi * i / k), w / 2 + q * math.cos(math.pi * i / k)) for i in range(k + 1)]
        Z = [(x + rng.uniform(-m, m), y + rng.uniform(-m, m)) for x, y in Z]
        low, top = (x0, 0), (x0, w)
        P = [(0, 0)] + ([] if r == w / 2 and arc == math.pi else [low]) + A + ([] if r == w / 2 and arc == math.pi else [top]) + [(0, w)] + Z
    elif r == w / 2 and arc == math.pi:
        P = [(0, 0)] + A + [(0, w)]
    else:
        P = [(0, 0), (x0, 0)] + A + [(x0, w), (0, w)]
    if not both and rng.random() < 0.3:
        t = rng.uniform(0.3, 0.5) * l
        P = P + [(0, 0.8 * w), (-t, 0.8 * w), (-t, 0.2 * w), (0, 0.2 * w)]
    s = rng.randrange(len(P))
    return [P[s:] + P[:s]]


def nearly(rng):
    """Footprints with equal distances that differ a little, so that some nodes nearly coincide."""
    m = rng.choice([0.02, 0.05, 0.1])
    k = rng.random()
    if k < 0.25:
        a = rng.uniform(4, 30)
        c = [(0, 0), (a, 0), (a, a), (0, a)]
        o = [c]
    elif k < 0.5:
        n = rng.choice([5, 6, 7, 8, 9, 10])
        R = rng.uniform(4, 25)
        o = [[(R * math.cos(2 * math.pi * i / n), R * math.sin(2 * math.pi * i / n)) for i in range(n)]]
    else:
        o = rng.choice([ortho, sym, notched, courtyard, comb, with_holes])(rng)
        if o is None:
            return None
        g = rng.choice([2.0, 4.0])
        if k < 0.85:
            o = [[(round(x / g) * g, round(y / g) * g) for x, y in c] for c in o]
    q = []
    for c in o:
        n = len(c)
        keep = rng.random() < 0.5
        xs, ys = {}, {}
        d = []
        for x, y in c:
            if keep:        # whole walls are shifted
                dx = xs.setdefault(round(x, 3), rng.uniform(-m, m))
                dy = ys.setdefault(round(y, 3), rng.uniform(-m, m))
            else:
                dx, dy = rng.uniform(-m, m), rng.uniform(-m, m)
            d.append((x + dx, y + dy))
        q.append(d)
    return q


def detail(rng):
    """A building with small rounded corners; the nodes inside of a corner nearly coincide."""
    a, b = rng.uniform(6, 30), rng.uniform(6, 30)
    P = [(0.0, 0.0), (a, 0.0), (a, b), (0.0, b)]
    k = rng.random()
    if k < 0.3:
        c, d = rng.uniform(0.4, 0.6) * a, rng.uniform(0.4, 0.6) * b
        P = [(0.0, 0.0), (a, 0.0), (a, d), (c, d), (c, b), (0.0, b)]
    elif k < 0.6:
        P = [(x + rng.uniform(-2, 2), y + rng.uniform(-2, 2)) for x, y in P]
    out = []
    n = len(P)
    for i in range(n):
        p, q, r = P[i - 1], P[i], P[(i + 1) % n]
        if (q[0] - p[0]) * (r[1] - q[1]) - (q[1] - p[1]) * (r[0] - q[0]) < 0 or rng.random() < 0.4:
            out.append(q)
            continue
        # walls that touch a circle, so that their bisectors meet at its center
        R = rng.uniform(0.28, 0.4)
        m = rng.choice([1, 2, 2, 2, 3])
        e = rng.choice([0.006, 0.012, 0.018])
        s0 = math.atan2(q[1] - p[1], q[0] - p[0])
        turn = (math.atan2(r[1] - q[1], r[0] - q[0]) - s0) % (2 * math.pi)
        u = ((p[0] - q[0]) / geom_dist(p, q), (p[1] - q[1]) / geom_dist(p, q))
        h = R * math.tan(turn / 2)
        cx, cy = q[0] + h * u[0] - R * math.sin(s0), q[1] + h * u[1] + R * math.cos(s0)
        t = [turn * (j + rng.uniform(-0.15, 0.15) * (0 < j <= m)) / (m + 1) for j in range(m + 2)]
        for g0, g1 in zip(t, t[1:]):
            g = s0 + (g0 + g1) / 2
            l = R / math.cos((g1 - g0) / 2)
            out.append((cx + l * math.sin(g) + rng.uniform(-e, e), cy - l * math.cos(g) + rng.uniform(-e, e)))
    j = rng.randrange(len(out))
    return [out[j:] + out[:j]]


def onbay(rng):
    """Uneven bays on buildings of any shape."""
    o = rng.choice([star, convex, ortho, with_holes, courtyard, simple2opt, wonky, rect])(rng)
    if o is None:
        return None
    c = o[0]
    out = []
    for i in range(len(c)):
        p, q = c[i], c[(i + 1) % len(c)]
        L = math.hypot(q[0] - p[0], q[1] - p[1])
        out.append(p)
        if L < 8 or rng.random() < 0.4:
            continue
        ux, uy = (q[0] - p[0]) / L, (q[1] - p[1]) / L
        w = rng.uniform(1.5, min(8.0, L - 5.0))
        s = rng.uniform(1.0, L - w - 1.0)
        h = rng.uniform(0.8, 6)
        e = rng.choice([0.0, 0.05, 0.3, 1.0])
        k = rng.random()
        h2 = h * rng.uniform(0.85, 1.15) if k < 0.4 else h      # sides
        v = rng.uniform(-0.06, 0.06) * h if k > 0.7 else 0.0    # slant
        for t, d in ((s, 0.0), (s + v, h), (s + w + v, h2), (s + w, 0.0)):
            out.append((p[0] + ux * t + uy * d, p[1] + uy * t - ux * d))
        if rng.random() < 0.4:                                  # the wall behind is offset
            t, d = s + w, rng.uniform(-1, 1) * e
            out[-1] = (p[0] + ux * t + uy * d, p[1] + uy * t - ux * d)
            out.append((q[0] + uy * d, q[1] - ux * d))
    return [out] + o[1:]


def blocks(rng):
    """A few blocks on a narrow grid, so that many arms are as short and narrow as dormers."""
    nx, ny = rng.randint(2, 5), rng.randint(2, 4)
    same = rng.random() < 0.4
    a, b = rng.uniform(2, 8), rng.uniform(2, 8)
    xs, ys = [0.0], [0.0]
    for _ in range(nx):
        xs.append(xs[-1] + (a if same else rng.uniform(2, 9)))
    for _ in range(ny):
        ys.append(ys[-1] + (b if same else rng.uniform(2, 9)))
    k = rng.randint(3, max(3, nx * ny * 2 // 3))
    cells = {(rng.randrange(nx), rng.randrange(ny))}
    while len(cells) < k:
        x, y = rng.choice(sorted(cells))
        dx, dy = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
        if 0 <= x + dx < nx and 0 <= y + dy < ny:
            cells.add((x + dx, y + dy))
    return outline(cells, xs, ys, rng)


def corridor(rng):
    """Large buildings whose parts are connected by narrow passages."""
    n = rng.randint(2, 4)
    w = rng.choice([0.9, 1.5, 2.5])
    x = 0.0
    low, top = [], []
    mid = 0.0
    for i in range(n):
        L, H = rng.uniform(15, 90), rng.uniform(10, 60)
        lo = rng.uniform(0.1, 0.9) * H
        low += [(x, mid - lo), (x + L, mid - lo)]
        top += [(x, mid - lo + H), (x + L, mid - lo + H)]
        x += L
        if i < n - 1:
            g = rng.uniform(3, 40)
            y = mid + rng.uniform(-0.8, 0.8) * min(lo, H - lo) * 0.5
            mid = y + rng.uniform(-1, 1)
            k = rng.uniform(-0.2, 0.2)
            low += [(x, y - w / 2), (x + g, mid + k - w / 2)]
            top += [(x, y + w / 2), (x + g, mid + k + w / 2)]
            x += g
            mid = mid + k
    c = low + top[::-1]
    s = rng.randrange(len(c))
    return [c[s:] + c[:s]]


def big_convex(rng):
    return convex(rng, rng.randint(3, 7), rng.uniform(15, 40))


def steps(rng):
    """Walls with a small step, behind which they go on at a slightly different angle: the faces of
    the steps end in needles."""
    o = rng.choice([star, convex, big_convex, big_convex, ortho, with_holes, courtyard, simple2opt, wonky, bays])(rng)
    if o is None:
        return None
    out = []
    k = rng.randrange(len(o))
    for c in o:
        d = list(c)
        for _ in range(rng.randint(1, 2) if c is o[k] or rng.random() < 0.3 else 0):
            i = rng.randrange(len(d))
            p, q = d[i], d[(i + 1) % len(d)]
            L = math.hypot(q[0] - p[0], q[1] - p[1])
            if L < 6:
                continue
            ux, uy = (q[0] - p[0]) / L, (q[1] - p[1]) / L
            t = rng.uniform(0.2, 0.8) * L
            a = rng.uniform(0.07, 0.28) if rng.random() < 0.9 else rng.uniform(-0.2, 0.07)
            h = rng.choice([-1, 1]) * rng.uniform(0.55, 0.6 + 6 * abs(a))
            v = rng.choice([0.0, 0.0, rng.uniform(-0.5, 0.5) * h])
            b = (p[0] + ux * t, p[1] + uy * t)
            e = (b[0] + ux * v - uy * h, b[1] + uy * v + ux * h)
            w = (ux * math.cos(a) - uy * math.sin(a), ux * math.sin(a) + uy * math.cos(a))
            d[(i + 1) % len(d)] = (e[0] + w[0] * (L - t), e[1] + w[1] * (L - t))
            new = [b, e]
            for j, y in ((0, -1), (1, 1)):  # a short wall beside the step
                if rng.random() < 0.6:
                    g, z = rng.uniform(0.6, min(5.0, 0.3 * L)), rng.uniform(-0.9, 0.9)
                    x = new[0] if j == 0 else new[-1]
                    u = (ux, uy) if j == 0 else w
                    new.insert(0 if j == 0 else len(new), (x[0] + y * g * (u[0] - z * u[1]), x[1] + y * g * (u[1] + z * u[0])))
            d[i + 1:i + 1] = new
        out.append(d)
    return out


EXTRA = {'steps': steps, 'blocks': blocks, 'corridor': corridor, 'onbay': onbay, 'noisyapse': noisyapse, 'nearly': nearly, 'detail': detail}
AXIS |= {'nearly', 'blocks', 'corridor'}


def make(fam, rng):
    """One footprint of the family, turned by a random angle (rectilinear ones stay
    parallel to the axes half of the time)."""
    c = (FAMILIES.get(fam) or EXTRA[fam])(rng)
    if c is None:
        return None
    rot = rng.uniform(0, 2 * math.pi)
    if fam in AXIS and rng.random() < 0.5:
        rot = 0.0
    return transform(c, rot=rot) if rot else c
