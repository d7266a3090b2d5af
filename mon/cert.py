"""Certificate oracle for a hipped roof.

roof(contours, cidx, pts, faces, slope, z0, tol) -> list of (code, message)

contours  list of contours, lists of (x, y)
cidx      the same shape: index in pts of every contour vertex
pts       list of (x, y, z) (all vertices)
faces     list of lists of indices
"""
from .geom import signed_area, dist, line_height, segs_cross, region_area, seg_point_dist


def topology(cidx, npts, faces, allowed=None):
    """Structure only: indices, repeated vertices, first edge, contour edges
    exactly once, every other edge matched by its reverse exactly once."""
    out = []
    cedges = {}
    for c in cidx:
        for i in range(len(c)):
            cedges[(c[i], c[(i + 1) % len(c)])] = 0
    cset = {i for c in cidx for i in c}
    cnt = {}
    for k, f in enumerate(faces):
        if len(f) < 3:
            out.append(('short', 'face %d %r has fewer than 3 vertices' % (k, f)))
            continue
        if len(set(f)) != len(f):
            out.append(('dup', 'face %d %r repeats a vertex' % (k, f)))
        bad = [i for i in f if not isinstance(i, int) or i < 0 or i >= npts or
               (allowed is not None and i not in allowed)]
        if bad:
            out.append(('index', 'face %d %r uses invalid vertices %r' % (k, f, bad)))
        if (f[0], f[1]) not in cedges:
            out.append(('first', 'face %d %r does not start with a contour edge' % (k, f)))
        for a, b in zip(f, f[1:] + f[:1]):
            cnt[(a, b)] = cnt.get((a, b), 0) + 1
    for e in cedges:
        if cnt.get(e, 0) != 1:
            out.append(('cedge', 'contour edge %r is in %d faces' % (e, cnt.get(e, 0))))
    for (a, b), m in cnt.items():
        if m != 1:
            if (a, b) not in cedges:
                out.append(('multi', 'edge %r is used %d times' % ((a, b), m)))
        if (a, b) not in cedges:
            if (b, a) in cedges:
                out.append(('outside', 'edge %r runs along the outside of the contour' % ((a, b),)))
            elif cnt.get((b, a), 0) != 1:
                out.append(('open', 'edge %r has no matching face on its other side' % ((a, b),)))
    return out


def tiling(contours, pts, faces, tol, cross_eps=None):
    """Faces have positive area, are simple, and their areas add up to the
    area of the footprint (together with topology() this makes them a partition)."""
    out = []
    tot = 0.0
    for k, f in enumerate(faces):
        P = [(pts[i][0], pts[i][1]) for i in f]
        a = signed_area(P)
        tot += a
        if a <= 0:
            out.append(('orient', 'face %d %r has area %g' % (k, f, a)))
        n = len(P)
        for i in range(n):
            for j in range(i + 2, n):
                if i == 0 and j == n - 1:
                    continue
                if segs_cross(P[i], P[(i + 1) % n], P[j], P[(j + 1) % n], tol if cross_eps is None else cross_eps):
                    out.append(('selfx', 'face %d %r crosses itself' % (k, f)))
                    break
            else:
                continue
            break
    ref = region_area(contours)
    per = sum(dist(c[i], c[i - 1]) for c in contours for i in range(len(c)))
    if abs(tot - ref) > tol * per:
        out.append(('area', 'faces cover %.6g, the footprint is %.6g' % (tot, ref)))
    return out


def planes(cidx, pts, faces, slope, z0, tol):
    """Every vertex of a face lies in the plane that rises with the given slope
    from the face's contour edge."""
    out = []
    worst = 0.0
    cedges = {(c[i], c[(i + 1) % len(c)]) for c in cidx for i in range(len(c))}
    for k, f in enumerate(faces):
        es = [(a, b) for a, b in zip(f, f[1:] + f[:1]) if (a, b) in cedges]
        if not es:
            out.append(('noedge', 'face %d %r has no contour edge' % (k, f)))
            continue
        for a, b in es:
            A, B = pts[a], pts[b]
            for i in f:
                h = line_height(pts[i], A, B)
                d = abs(pts[i][2] - (z0 + slope * h))
                if d > worst:
                    worst = d
                if d > tol * max(1.0, abs(slope)):
                    out.append(('plane', 'face %d: vertex %d at height %.6g, its plane is at %.6g there'
                                % (k, i, pts[i][2] - z0, slope * h)))
                    break
    return out, worst


def roof(contours, cidx, pts, faces, slope, z0, tol, allowed=None):
    out = topology(cidx, len(pts), faces, allowed)
    if any(o[0] in ('index', 'short') for o in out):
        return out
    out += tiling(contours, pts, faces, tol)
    if not out:
        o, _ = planes(cidx, pts, faces, slope, z0, tol)
        out += o
    return out
