"""What merging of nearly coincident nodes has to make of the reference skeleton."""
import math
from . import domain, geom

MERGE = 0.1         # documented: nodes nearer than that (Manhattan) become one
APSE = 3.0          # documented: but not near the center of an apse
DETAIL = 2 * MERGE  # nodes connected with contour vertices nearer than that are an architectural detail


class Merged:
    __slots__ = ('nodes', 'faces', 'edges', 'ncontour', 'nmerged', 'nkept', 'ndetail', 'spread', 'groups')


def circle(a, b, c):
    d = 2 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
    if abs(d) < 1e-9:
        return None
    p = (b[0] ** 2 - a[0] ** 2 + b[1] ** 2 - a[1] ** 2)
    q = (c[0] ** 2 - a[0] ** 2 + c[1] ** 2 - a[1] ** 2)
    return ((p * (c[1] - a[1]) - q * (b[1] - a[1])) / d, (q * (b[0] - a[0]) - p * (c[0] - a[0])) / d)


def apses(c):
    """Runs of six or more low angles of a contour -> (centers of the runs, centers of their parts)
    or None when an angle is at the limit."""
    n = len(c)
    low = []
    for i in range(n):
        a, b, d = c[i - 1], c[i], c[(i + 1) % n]
        s = abs((b[0] - a[0]) * (d[1] - b[1]) - (b[1] - a[1]) * (d[0] - b[0])) / (geom.dist(a, b) * geom.dist(b, d))
        if abs(s - 0.5) < 0.002:
            return None
        low.append(s < 0.5)
    if all(low):
        return [], []
    sure, maybe = [], []
    for s in range(n):
        if low[s] and not low[s - 1]:
            k = 0
            while low[(s + k) % n]:
                k += 1
            if k < 6:
                continue
            run = [c[(s + j) % n] for j in range(k)]
            # the run may be cut where the contour begins
            for i in range(k - 5):
                part = run[i:]
                m = circle(part[0], part[len(part) // 2], part[-1])
                if m is None:
                    continue
                maybe.append(m)
                if i == 0:
                    sure.append(m)
    return sure, maybe


def man(p, q):
    return abs(p[0] - q[0]) + abs(p[1] - q[1])


def expected(cs, f):
    """-> Merged, or the reason why the outcome of merging isn't determined."""
    R = f['ref']
    if R is None:
        return 'reference not certified'
    P, NC = R.nodes, R.ncontour
    ap = apses(cs[0])
    if ap is None:
        return 'angle at the limit of an apse'
    sure, maybe = ap
    n = len(P)
    near = {}
    for i in range(NC, n):
        for j in range(i):
            d = man(P[i], P[j])
            if d < 0.25:
                if j < NC:
                    return 'node at a contour vertex'
                near[(j, i)] = d
    grp = list(range(n))

    def find(i):
        while grp[i] != i:
            i = grp[i]
        return i
    # edges between walls in line: whether they are drawn depends on the order of equal events
    from . import compare
    joined = set()
    deg = {}
    for e, fs in compare.ref_edges(R).items():
        for i in e:
            deg[i] = deg.get(i, 0) + 1
        if len(fs) == 2:
            (a, b), (c, d) = [[P[i] for i in R.edges[k]] for k in fs]
            s = (b[0] - a[0]) * (d[0] - c[0]) + (b[1] - a[1]) * (d[1] - c[1])
            x = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if s > 0 and abs(x) < 0.1 * s and max(abs(geom.line_height(c, a, b)), abs(geom.line_height(d, a, b))) < 0.2:
                joined |= set(e)
    # nodes of dormers are computed in another way
    nc = len(cs[0])
    for w, con, un, k in domain.dormers(cs[0]):
        if w * w < 101 and con < 0.36:
            for j in range(3):
                joined.update(i for i in R.faces[(k + j) % nc] if i >= NC)
    if any(i in joined or deg.get(i, 0) < 3 for e in near for i in e):
        return 'node of a dormer or of walls in line'
    # contour vertices that a node is connected with
    foot = {}
    for a, b in compare.ref_edges(R):
        for i, j in ((a, b), (b, a)):
            if j < NC <= i:
                foot.setdefault(i, []).append(j)
    kept = 0
    for (i, j), d in near.items():
        d1 = max(min([man(P[k], m) for m in sure] or [99]) for k in (i, j))
        d2 = min(min([man(P[k], m) for m in maybe] or [99]) for k in (i, j))
        if d1 < APSE - 0.5:
            # near an apse: kept apart unless they are identical
            if d < 0.015:
                return 'nearly identical nodes in an apse'
            if d < MERGE:
                kept += 1
            continue
        if d2 < APSE + 0.5:
            return 'node at the limit of an apse'
        if d > MERGE - 0.012:
            return 'nodes at the limit of merging'
        grp[find(i)] = find(j)
    groups = {}
    for i in range(NC, n):
        groups.setdefault(find(i), []).append(i)
    details = 0
    for k, g in list(groups.items()):
        if len(g) > 1:
            at = [j for i in g for j in foot.get(i, [])]
            dd = min([geom.dist(P[x], P[y]) for n1, x in enumerate(at) for y in at[:n1]] or [99])
            if abs(dd - DETAIL) < 0.01:
                return 'contour vertices at the limit of a detail'
            if dd < DETAIL:
                if any(near.get((min(x, y), max(x, y)), 0) < 0.012 for x in g for y in g if x != y):
                    return 'nearly identical nodes in a detail'
                details += 1
                del groups[k]
                for i in g:
                    groups[(k, i)] = [i]
    M = Merged()
    M.ndetail = details
    M.ncontour, M.edges, M.nkept = NC, R.edges, kept
    M.nodes = list(P[:NC])
    to = {i: i for i in range(NC)}
    M.nmerged, M.spread, M.groups = 0, 0.0, []
    for g in groups.values():
        for i in g:
            to[i] = len(M.nodes)
            for j in g:
                if i < j:
                    d = near.get((i, j))
                    if d is None:
                        return 'chain of nodes'
                    if d < 0.012:
                        M.spread = max(M.spread, max(near[(min(x, y), max(x, y))] for x in g for y in g if x != y))
        k = len(g)
        M.nodes.append(tuple(sum(P[i][c] for i in g) / k for c in range(3)))
        if k > 1:
            M.nmerged += 1
            M.groups.append([P[i] for i in g])
    M.faces = []
    for fc in R.faces:
        q = [to[i] for i in fc]
        q = [a for k, a in enumerate(q) if a != q[k - 1]]
        if len(q) < 3 or len(set(q)) != len(q):
            return 'merging closes a face'
        M.faces.append(q)
    # the merged skeleton has to be clear, too
    F = _Like(M)
    if domain.pinch(F) < (0.012 if details else 0.05):
        return 'node at a foreign edge'
    ms, mc, mt = domain.face_angles(F)
    if ms <= 10.0:
        return 'sharp face'
    for fc in M.faces:
        if geom.signed_area([M.nodes[i][:2] for i in fc]) <= 0.01:
            return 'merging turns a face over'
    return M


class _Like:
    def __init__(self, m):
        self.nodes, self.faces, self.ncontour = m.nodes, m.faces, m.ncontour
