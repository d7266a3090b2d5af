"""Reference straight skeleton: brute-force kinetic wavefront in doubles.

Written from the definition (every contour edge moves inwards at unit speed),
independent of the code under test.  It shares none of its structure with the
Felkel/Obdrzalek algorithm: there is no event queue; after every event all
collapse and split times of the current wavefront are recomputed.

skeleton(contours) -> Ref with
    nodes   list of (x, y, t); the first N are the contour vertices
    arcs    list of (i, j)
    faces   list (one per contour edge, in contour order) of node index lists, CCW,
            starting with the contour edge
or raises RefFailure (degenerate beyond what it handles).  Callers verify the
result with the same certificate as is applied to the code under test.
"""
import math
from .geom import dist, cross

TIE = 1e-7


class RefFailure(Exception):
    pass


class _V:
    __slots__ = ('ep', 'en', 'p', 't', 'vel', 'node', 'prev', 'next', 'reflex')


class Ref:
    __slots__ = ('nodes', 'arcs', 'faces', 'nev', 'nsplit', 'nmerge', 'ncontour', 'edges')


def skeleton(contours, max_events=None):
    E = []          # (p1, dir, normal, c)
    nodes = []
    loops_start = []
    for c in contours:
        n = len(c)
        base = len(E)
        for i in range(n):
            a, b = c[i], c[(i + 1) % n]
            L = dist(a, b)
            if L == 0:
                raise RefFailure('zero edge')
            d = ((b[0] - a[0]) / L, (b[1] - a[1]) / L)
            nn = (-d[1], d[0])
            E.append((a, d, nn, nn[0] * a[0] + nn[1] * a[1]))
            nodes.append((a[0], a[1], 0.0))
        loops_start.append((base, n))
    NC = len(nodes)
    scale = max(max(abs(p[0]) + abs(p[1]) for p in c) for c in contours) + 1.0
    eps = TIE * scale
    arcs = []       # (node, node, left edge, right edge): vertex moving away: left = edge_next?, kept unordered

    def mk(ep, en, p, t, node):
        v = _V()
        v.ep, v.en, v.p, v.t, v.node = ep, en, p, t, node
        n1, n2 = E[ep][2], E[en][2]
        det = n1[0] * n2[1] - n1[1] * n2[0]
        dot = n1[0] * n2[0] + n1[1] * n2[1]
        if abs(det) < 1e-9:
            if dot > 0:
                v.vel = n1
            else:
                v.vel = None
        else:
            # n1.v = 1 ; n2.v = 1
            v.vel = ((n2[1] - n1[1]) / det, (n1[0] - n2[0]) / det)
        v.reflex = det < -1e-9
        return v

    verts = {}        # insertion ordered: runs are reproducible
    for base, n in loops_start:
        vs = []
        for i in range(n):
            e_next = base + i
            e_prev = base + (i - 1) % n
            v = mk(e_prev, e_next, (nodes[e_next][0], nodes[e_next][1]), 0.0, e_next)
            if v.vel is None:
                raise RefFailure('antiparallel contour vertex')
            vs.append(v)
        for i in range(n):
            vs[i].next = vs[(i + 1) % n]
            vs[i].prev = vs[i - 1]
            verts[vs[i]] = None

    def pos(v, t):
        dt = t - v.t
        if v.vel is None:
            return v.p
        return (v.p[0] + v.vel[0] * dt, v.p[1] + v.vel[1] * dt)

    def new_node(p, t):
        nodes.append((p[0], p[1], t))
        return len(nodes) - 1

    def arc(a, b, v):
        arcs.append((a, b, v.ep, v.en))

    R = Ref()
    R.nev = R.nsplit = R.nmerge = 0
    now = 0.0
    if max_events is None:
        max_events = 3 * NC + 30
    order = {}
    cnt = 0
    steps = 0
    while verts:
        steps += 1
        if steps > max_events:
            raise RefFailure('too many events')
        # loops of two vertices: close with a ridge arc
        done = False
        for v in list(verts):
            if v.next.next is v:
                w = v.next
                pv, pw = pos(v, now), pos(w, now)
                nv, nw = new_node(pv, now), new_node(pw, now)
                arc(v.node, nv, v)
                arc(w.node, nw, w)
                arcs.append((nv, nw, v.en, v.ep))
                verts.pop(v, None)
                verts.pop(w, None)
                done = True
                break
            if v.next is v:
                raise RefFailure('loop of one')
        if done:
            continue
        # antiparallel vertices: instantaneous ridge
        for v in verts:
            if v.vel is None:
                a, b = v.prev, v.next
                pa, pb = pos(a, now), pos(b, now)
                if a.vel is None or b.vel is None:
                    # two facing pairs next to each other; merge them over the shared edge
                    pass
                P = v.p
                da, db = dist(P, pa), dist(P, pb)
                if a.vel is None and b.vel is None and da > eps and db > eps:
                    raise RefFailure('antiparallel chain')
                if da <= db:
                    # edge ep (from a to v) is used up: a and v merge at pa
                    q, Q = a, pa
                    nq = new_node(Q, now)
                    arc(v.node, nq, v)
                    arc(a.node, nq, a)
                    w = mk(a.ep, v.en, Q, now, nq)
                    w.prev, w.next = a.prev, v.next
                    w.prev.next = w
                    w.next.prev = w
                    verts.pop(a, None)
                    verts.pop(v, None)
                    verts[w] = None
                else:
                    nq = new_node(pb, now)
                    arc(v.node, nq, v)
                    arc(b.node, nq, b)
                    w = mk(v.ep, b.en, pb, now, nq)
                    w.prev, w.next = v.prev, b.next
                    w.prev.next = w
                    w.next.prev = w
                    verts.pop(b, None)
                    verts.pop(v, None)
                    verts[w] = None
                done = True
                break
        if done:
            continue
        best = None
        # edge collapses
        for v in verts:
            w = v.next
            d = E[v.en][1]
            pv, pw = pos(v, now), pos(w, now)
            L = (pw[0] - pv[0]) * d[0] + (pw[1] - pv[1]) * d[1]
            rate = (w.vel[0] - v.vel[0]) * d[0] + (w.vel[1] - v.vel[1]) * d[1]
            if L <= eps and rate < 1e-12:
                t = now
            elif rate < -1e-12:
                t = now - L / rate
            else:
                continue
            if best is None or t < best[0]:
                best = (t, 0, v, None)
        # splits
        for v in verts:
            if not v.reflex:
                continue
            pv = pos(v, now)
            for a in verts:
                # wavefront edge a.en between a and a.next
                if a is v or a.next is v:
                    continue
                e = a.en
                n, c = E[e][2], E[e][3]
                h = n[0] * pv[0] + n[1] * pv[1] - c - now    # distance in front of wavefront edge
                rate = n[0] * v.vel[0] + n[1] * v.vel[1] - 1.0
                if h < -eps or rate > -1e-12:
                    continue
                t = now + max(h, 0.0) / -rate
                if best is not None and t >= best[0] + eps * 1e-3:
                    continue
                b = a.next
                q = pos(v, t)
                qa, qb = pos(a, t), pos(b, t)
                d = E[e][1]
                ua = (q[0] - qa[0]) * d[0] + (q[1] - qa[1]) * d[1]
                ub = (qb[0] - q[0]) * d[0] + (qb[1] - q[1]) * d[1]
                if ua < -eps or ub < -eps:
                    continue
                if best is not None and t >= best[0]:
                    continue
                best = (t, 1, v, a)
        if best is None:
            raise RefFailure('no event')
        t, kind, v, a = best
        now = max(now, t)
        R.nev += 1
        if kind == 0:
            w = v.next
            pv, pw = pos(v, now), pos(w, now)
            P = ((pv[0] + pw[0]) / 2, (pv[1] + pw[1]) / 2)
            if v.prev is w.next:
                # triangle collapses
                u = v.prev
                pu = pos(u, now)
                if dist(P, pu) <= 50 * eps:
                    k = new_node(P, now)
                    for x in (v, w, u):
                        arc(x.node, k, x)
                        verts.pop(x, None)
                    continue
            k = new_node(P, now)
            arc(v.node, k, v)
            arc(w.node, k, w)
            x = mk(v.ep, w.en, P, now, k)
            x.prev, x.next = v.prev, w.next
            x.prev.next = x
            x.next.prev = x
            verts.pop(v, None)
            verts.pop(w, None)
            verts[x] = None
        else:
            R.nsplit += 1
            b = a.next
            P = pos(v, now)
            k = new_node(P, now)
            arc(v.node, k, v)
            e = a.en
            # is a in the loop of v?
            u = v.next
            same = False
            while u is not v:
                if u is a:
                    same = True
                    break
                u = u.next
            if not same:
                R.nmerge += 1
            x = mk(v.ep, e, P, now, k)       # prev part: ... v.prev -> x -> b
            y = mk(e, v.en, P, now, k)       # next part: a -> y -> v.next
            x.prev, x.next = v.prev, b
            y.prev, y.next = a, v.next
            v.prev.next = x
            b.prev = x
            v.next.prev = y
            a.next = y
            verts.pop(v, None)
            verts[x] = None
            verts[y] = None
    # contract zero-length arcs
    par = list(range(len(nodes)))

    def find(i):
        while par[i] != i:
            par[i] = par[par[i]]
            i = par[i]
        return i
    for a, b, _, _ in arcs:
        if dist(nodes[a], nodes[b]) <= 20 * eps:
            ra, rb = find(a), find(b)
            if ra != rb:
                if ra > rb:
                    ra, rb = rb, ra
                par[rb] = ra
    live = sorted({find(i) for i in range(len(nodes))})
    # coincident nodes that no short arc connects (vertex-vertex events)
    for i in range(len(live)):
        for j in range(i + 1, len(live)):
            if dist(nodes[live[i]], nodes[live[j]]) <= 20 * eps:
                ra, rb = find(live[i]), find(live[j])
                if ra != rb:
                    if ra > rb:
                        ra, rb = rb, ra
                    par[rb] = ra
    live = sorted({find(i) for i in range(len(nodes))})
    if live[:NC] != list(range(NC)):
        raise RefFailure('contour vertices merged')
    idx = {k: i for i, k in enumerate(live)}
    R.nodes = [nodes[k] for k in live]
    R.ncontour = NC
    seen = set()
    R.arcs = []
    fedges = [dict() for _ in E]

    def addf(e, i, j):
        fedges[e].setdefault(i, []).append(j)
        fedges[e].setdefault(j, []).append(i)
    for a, b, l, r in arcs:
        i, j = idx[find(a)], idx[find(b)]
        if i == j:
            continue
        for e in {l, r}:
            key = (min(i, j), max(i, j), e)
            # the same arc may be recorded twice for a face when it is retraced: cancel
            addf(e, i, j)
        key = (min(i, j), max(i, j))
        if key not in seen:
            seen.add(key)
            R.arcs.append(key)
    # assemble faces
    R.faces = []
    for base, n in loops_start:
        for i in range(n):
            e = base + i
            p1, p2 = e, base + (i + 1) % n
            adj = fedges[e]
            # cancel doubled arcs
            for k in adj:
                s = {}
                for x in adj[k]:
                    s[x] = s.get(x, 0) + 1
                adj[k] = [x for x, m in s.items() if m % 2]
            path = [p1, p2]
            prev, cur = p1, p2
            guard = 0
            first = True
            while True:
                nb = [x for x in adj.get(cur, []) if x != prev or first and False]
                if first:
                    nb = adj.get(cur, [])
                    first = False
                if len(nb) != 1:
                    raise RefFailure('face %d not a cycle' % e)
                prev, cur = cur, nb[0]
                if cur == p1:
                    break
                path.append(cur)
                guard += 1
                if guard > 4 * NC + 10:
                    raise RefFailure('face walk')
            R.faces.append(path)
    R.edges = [(base + i, base + (i + 1) % n) for base, n in loops_start for i in range(n)]
    return R
