"""Comparison of skeletons and roofs."""
import math
from . import domain, geom, target


def edge_contours(cs, how, rng=None):
    """The footprint as skeletonize() expects it -> (edge contours, offset of the coordinates)."""
    V, E = target.Vector, target.euc.Edge2
    off = (0.0, 0.0)
    if how == 'indices':
        verts, out = [], []
        m = [sum(p[k] for p in cs[0]) / len(cs[0]) for k in (0, 1)]
        center = V((m[0], m[1], 0.0))
        for c in cs:
            i0 = len(verts)
            verts += [V((x, y, 3.0)) for x, y in c]
            n = len(c)
            out.append([E(i0 + i, i0 + (i + 1) % n, None, verts, center) for i in range(n)])
        return out, (center[0], center[1])
    out = []
    for c in cs:
        P = [V((x, y)) if how != 'vectors3' else V((x, y, 7.0)) for x, y in c]
        es = []
        for i in range(len(P)):
            a, b = P[i], P[(i + 1) % len(P)]
            if how == 'units':
                u = V((b[0] - a[0], b[1] - a[1], 0.0))
                u.normalize()
                es.append(E(a, b, u))
            else:
                es.append(E(a, b))
        out.append(es)
    return out, off


def freeze(ec):
    return [[(tuple(e.p1), tuple(e.p2), tuple(e.norm), id(e)) for e in c] for c in ec]


def ref_edges(R):
    """{(i, j): [faces]} of the skeleton edges of the reference."""
    es = {}
    walls = set(R.edges)
    for k, f in enumerate(R.faces):
        for a, b in zip(f, f[1:] + f[:1]):
            if a < R.ncontour and b < R.ncontour and (a, b) in walls:
                continue
            es.setdefault((min(a, b), max(a, b)), []).append(k)
    return es


def skeleton(c, sk, off, r, passes=0.01):
    """Does the list of subtrees sk describe the reference skeleton of case c?"""
    R = c.R
    NC = R.ncontour
    tol = c.tol
    P = R.nodes
    nodes = [(a.source[0] + off[0], a.source[1] + off[1], a.height) for a in sk]
    # nodes of the skeleton -> nodes of the reference
    to = []
    for p in nodes:
        best = min(range(NC, len(P)), key=lambda i: abs(P[i][0] - p[0]) + abs(P[i][1] - p[1]))
        q = P[best]
        if abs(q[0] - p[0]) > tol or abs(q[1] - p[1]) > tol:
            r.fail('extra', 'node (%.4f, %.4f) is not in the straight skeleton' % p[:2])
            return
        if abs(q[2] - p[2]) > tol:
            r.fail('height', 'node (%.4f, %.4f) has height %.5f, its distance is %.5f' % (p + (q[2],)))
        to.append(best)
    if len(set(to)) != len(to):
        r.fail('twice', 'a node of the straight skeleton occurs %d times' % max(to.count(i) for i in to))
    want = ref_edges(R)
    pairs = domain.beside_dormers(c.cs[0])
    joined = {e for e, fs in want.items() if len(fs) == 2 and beside(pairs, fs[0], fs[1])}
    # the end of a connection within one plane is not a node
    deg = {}
    for e in set(want) - joined:
        for i in e:
            deg[i] = deg.get(i, 0) + 1
    need = {i for i in range(NC, len(P)) if deg.get(i, 0) > 2}
    miss = need - set(to)
    if miss:
        r.fail('missing', 'node (%.4f, %.4f) is missing' % P[min(miss)][:2])
        return
    r.see('nodes matched', len(to))
    arcs = set()
    seen = [0] * NC
    pos = P
    for k, a in enumerate(sk):
        for s in a.sinks:
            x, y = s[0] + off[0], s[1] + off[1]
            j = min(range(len(pos)), key=lambda i: abs(pos[i][0] - x) + abs(pos[i][1] - y))
            if abs(pos[j][0] - x) > tol or abs(pos[j][1] - y) > tol:
                r.fail('sink', 'sink (%.4f, %.4f) is neither a node nor a contour vertex' % (x, y))
                return
            if j < NC:
                seen[j] += 1
            e = (min(to[k], j), max(to[k], j))
            if e in arcs:
                r.fail('double', 'nodes (%.4f, %.4f) and (%.4f, %.4f) are connected twice' % (P[e[0]][:2] + P[e[1]][:2]))
            arcs.add(e)
    for j in range(NC):
        if seen[j] != 1:
            r.fail('vertex', 'contour vertex (%.4f, %.4f) is the sink of %d nodes' % (P[j][:2] + (seen[j],)))
    # an arc may pass a node (the peak of a dormer that touches a ridge)
    full = set()
    for a, b in arcs:
        on = [i for i in range(NC, len(P)) if i != a and i != b and
              geom.seg_point_dist(P[i], P[a], P[b]) < passes]
        chain = [a] + sorted(on, key=lambda i: geom.dist(P[i], P[a])) + [b]
        for x, y in zip(chain, chain[1:]):
            full.add((min(x, y), max(x, y)))
    for e in full - set(want):
        r.fail('arc', 'nodes (%.4f, %.4f) and (%.4f, %.4f) must not be connected' % (P[e[0]][:2] + P[e[1]][:2]))
    for e, fs in want.items():
        if e not in full:
            if e in joined:
                r.see('joined planes')
                continue
            r.fail('noarc', 'nodes (%.4f, %.4f) and (%.4f, %.4f) must be connected' % (P[e[0]][:2] + P[e[1]][:2]))
        else:
            r.see('connections matched')


def beside(pairs, a, b):
    """Are walls a and b connected by a chain of dormers?"""
    reach = {a}
    more = True
    while more:
        more = False
        for x, y in pairs:
            if (x in reach) != (y in reach):
                reach |= {x, y}
                more = True
    return b in reach
