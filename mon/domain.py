"""Input domains. Everything here looks only at the input and at the reference
skeleton, never at the output of the code under test."""
import math
from . import geom, refskel, cert


def cidx_of(cs):
    out, k = [], 0
    for c in cs:
        out.append(list(range(k, k + len(c))))
        k += len(c)
    return out


def refcert(cs, R, tol=1e-4):
    return cert.roof(cs, cidx_of(cs), R.nodes, R.faces, 1.0, 0.0, tol)


def node_sep(R):
    """Smallest Manhattan distance of two nodes, one of which is a skeleton node."""
    P = R.nodes
    m = 1e9
    for i in range(R.ncontour, len(P)):
        x, y = P[i][0], P[i][1]
        for j in range(i):
            d = abs(x - P[j][0]) + abs(y - P[j][1])
            if d < m:
                m = d
    return m


def pinch(R):
    """Smallest distance of a skeleton node to a skeleton edge that does not end in it."""
    P = R.nodes
    es = {(min(a, b), max(a, b)) for f in R.faces for a, b in zip(f, f[1:] + f[:1])}
    m = 1e9
    for i in range(R.ncontour, len(P)):
        p = P[i]
        for a, b in es:
            if a == i or b == i:
                continue
            A, B = P[a], P[b]
            if min(A[0], B[0]) - m > p[0] or max(A[0], B[0]) + m < p[0] or min(A[1], B[1]) - m > p[1] or max(A[1], B[1]) + m < p[1]:
                continue
            d = geom.seg_point_dist(p, A, B)
            if d < m:
                m = d
    return m


def face_angles(R):
    """(smallest corner angle at a skeleton node, smallest corner angle at a contour vertex,
    smallest deviation from straight at a skeleton node), degrees."""
    P = R.nodes
    ms = mc = mt = 400.0
    for f in R.faces:
        n = len(f)
        for i in range(n):
            a, b, c = P[f[i - 1]], P[f[i]], P[f[(i + 1) % n]]
            t = math.degrees(math.atan2(geom.cross(b, c, a), (c[0] - b[0]) * (a[0] - b[0]) + (c[1] - b[1]) * (a[1] - b[1]))) % 360
            s = min(t, 360 - t)
            if f[i] >= R.ncontour:
                ms = min(ms, s)
                mt = min(mt, abs(t - 180))
            else:
                mc = min(mc, s)
    return ms, mc, mt


def spikes(R, angle=9.0):
    """Needle-like corners at skeleton nodes of faces with more than three corners:
    (angle, face, node)."""
    P, out = R.nodes, []
    for k, f in enumerate(R.faces):
        n = len(f)
        if n < 4:
            continue
        for i in range(n):
            if f[i] < R.ncontour:
                continue
            a, b, c = P[f[i - 1]], P[f[i]], P[f[(i + 1) % n]]
            t = math.degrees(math.atan2(geom.cross(b, c, a), (c[0] - b[0]) * (a[0] - b[0]) + (c[1] - b[1]) * (a[1] - b[1]))) % 360
            if t < angle:
                out.append((t, k, f[i]))
    return out


def wide(cs, R, eps=1e-3):
    """Number of faces that get wider than the bisectors at the ends of their wall allow (this
    happens after a neighboring wall has vanished)."""
    k = n = 0
    for c in cs:
        m = len(c)
        dirs = []
        for i in range(m):
            a, b = c[i], c[(i + 1) % m]
            L = geom.dist(a, b)
            dirs.append(((b[0] - a[0]) / L, (b[1] - a[1]) / L))
        for i in range(m):
            d = dirs[i]
            for p, q, left in ((c[i], dirs[i - 1], False), (c[(i + 1) % m], dirs[(i + 1) % m], True)):
                # inward normals of the two walls at p; the bisector is their sum
                bx, by = -(d[1] + q[1]), d[0] + q[0]
                L = math.hypot(bx, by)
                if L < 1e-6:
                    continue
                bx, by = bx / L, by / L
                out = False
                for j in R.faces[k]:
                    r = R.nodes[j]
                    s = bx * (r[1] - p[1]) - by * (r[0] - p[0])
                    if (s > eps and not left) or (s < -eps and left):
                        out = True
                if out:
                    n += 1
            k += 1
    return n


def level(R, tol=0.003):
    """Largest number of skeleton nodes at one height in the face of one wall."""
    P, NC = R.nodes, R.ncontour
    best = 0
    for a, b in R.edges:
        A, B = P[a], P[b]
        hs = sorted(p[2] for p in P[NC:] if abs(geom.line_height(p, A, B) - p[2]) < tol)
        j = 0
        for i in range(len(hs)):
            while j < len(hs) and hs[j] - hs[i] < tol:
                j += 1
            best = max(best, j - i)
    return best


def dormers(c):
    """Bays of the outer contour: four consecutive corners right, left, left, right, all
    nearly rectangular.  Yields (base length, contrast, unevenness): contrast of the squared
    side lengths; unevenness = offset between the walls left and right of the bay."""
    n = len(c)
    d = []
    for i in range(n):
        a, b = c[i], c[(i + 1) % n]
        L = geom.dist(a, b)
        d.append(((b[0] - a[0]) / L, (b[1] - a[1]) / L, L))
    code = ''
    for i in range(n):
        s = d[i - 1][0] * d[i][1] - d[i - 1][1] * d[i][0]
        code += 'L' if s > 0.98 else 'R' if s < -0.98 else '0'
    for i in range(n):
        if code[i] == 'R' and code[(i + 1) % n] == 'L' and code[(i + 2) % n] == 'L' and code[(i + 3) % n] == 'R':
            l1, w, l2 = d[i][2], d[(i + 1) % n][2], d[(i + 2) % n][2]
            con = abs(l1 * l1 - l2 * l2) / (l1 * l1 + l2 * l2)
            # offset of vertex i+3 from the line of the wall that ends in vertex i
            p, q = c[i - 1], c[i]
            r, t = c[(i + 3) % n], c[(i + 4) % n]
            un = max(abs(geom.line_height(r, p, q)), abs(geom.line_height(t, p, q)),
                     abs(geom.line_height(p, r, t)), abs(geom.line_height(q, r, t)))
            # the base has to be parallel and the sides perpendicular, too
            un = max(un, abs(abs(geom.line_height(c[(i + 1) % n], p, q)) - l1),
                     abs(abs(geom.line_height(c[(i + 2) % n], p, q)) - l2),
                     abs(l1 - l2))
            e = d[(i + 1) % n]
            un = max(un, abs(e[0] * d[i][0] + e[1] * d[i][1]) * l1, abs(e[0] * d[(i + 2) % n][0] + e[1] * d[(i + 2) % n][1]) * l2)
            yield w, con, un, i


def uneven_dormer(cs, tol=0.01):
    return any(w * w < 101 and con < 0.36 and un > tol for w, con, un, i in dormers(cs[0]))


def beside_dormers(c):
    """Pairs of walls of the outer contour (index of the first vertex) left and right of a dormer.
    When they are in line they make one plane of the roof, and the library makes one face of it."""
    n = len(c)
    return {((i - 1) % n, (i + 3) % n) for w, con, un, i in dormers(c) if w * w < 101 and con < 0.36}


def features(cs):
    f = {'n': sum(map(len, cs)), 'holes': len(cs) - 1}
    try:
        R = refskel.skeleton(cs)
        rc = refcert(cs, R)
    except refskel.RefFailure as e:
        R, rc = None, [('reff', str(e))]
    f['ref'] = None if rc else R
    f['why'] = rc[0] if rc else None
    if rc:
        f['dn'] = f['lev'] = None
    else:
        f['dn'] = node_sep(R)
        f['ms'], f['mc'], f['mt'] = face_angles(R)
        f['lev'] = level(R)
        f['de'] = pinch(R)
        f['wide'] = wide(cs, R)
        f['nnodes'] = len(R.nodes) - R.ncontour
        f['nsplit'] = R.nsplit
    f['ud'] = uneven_dormer(cs)
    return f
