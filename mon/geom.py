"""Plain double-precision planar geometry used by the oracles.

Nothing in this module imports the code under test.
Polygons are lists of (x, y) tuples.
"""
import math


def signed_area(p):
    s = 0.0
    x0, y0 = p[0]           # shift to reduce cancellation
    for i in range(1, len(p) - 1):
        ax, ay = p[i][0] - x0, p[i][1] - y0
        bx, by = p[i + 1][0] - x0, p[i + 1][1] - y0
        s += ax * by - bx * ay
    return s / 2.0


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def seg_point_dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = dx * dx + dy * dy
    if L == 0:
        return dist(p, a)
    u = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / L
    u = 0.0 if u < 0 else 1.0 if u > 1 else u
    return math.hypot(p[0] - a[0] - u * dx, p[1] - a[1] - u * dy)


def line_height(p, a, b):
    """Signed distance of p from the line a->b, positive on the left."""
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = math.hypot(dx, dy)
    return (dx * (p[1] - a[1]) - dy * (p[0] - a[0])) / L


def segs_cross(a, b, c, d, eps=0.0):
    """Proper crossing of the open segments; eps is a distance: both segments
    have to pass through each other by more than eps."""
    def side(p, q, r):
        L = dist(p, q)
        return cross(p, q, r) / L if L > 0 else 0.0
    s1, s2 = side(a, b, c), side(a, b, d)
    if not ((s1 > eps and s2 < -eps) or (s1 < -eps and s2 > eps)):
        return False
    s3, s4 = side(c, d, a), side(c, d, b)
    return (s3 > eps and s4 < -eps) or (s3 < -eps and s4 > eps)


def seg_seg_dist(a, b, c, d):
    if segs_cross(a, b, c, d):
        return 0.0
    return min(seg_point_dist(a, c, d), seg_point_dist(b, c, d),
               seg_point_dist(c, a, b), seg_point_dist(d, a, b))


def point_in_poly(p, poly):
    x, y = p
    r = False
    n = len(poly)
    j = n - 1
    for i in range(n):
        xi, yi = poly[i]
        xj, yj = poly[j]
        if (yi > y) != (yj > y) and x < (xj - xi) * (y - yi) / (yj - yi) + xi:
            r = not r
        j = i
    return r


def point_in_region(p, contours):
    return point_in_poly(p, contours[0]) and not any(point_in_poly(p, h) for h in contours[1:])


def boundary_dist(p, contours):
    return min(seg_point_dist(p, c[i], c[(i + 1) % len(c)]) for c in contours for i in range(len(c)))


def edges_of(poly):
    return [(poly[i], poly[(i + 1) % len(poly)]) for i in range(len(poly))]


def clearance(contours):
    """Minimum distance between non-adjacent boundary segments, and shortest edge."""
    E = []
    for ci, c in enumerate(contours):
        n = len(c)
        for i in range(n):
            E.append((ci, i, n, c[i], c[(i + 1) % n]))
    m = float('inf')
    for x in range(len(E)):
        c1, i1, n1, a, b = E[x]
        m = min(m, dist(a, b))
        for y in range(x + 1, len(E)):
            c2, i2, n2, c, d = E[y]
            if c1 == c2 and ((i1 + 1) % n1 == i2 or (i2 + 1) % n1 == i1):
                continue
            # cheap bounding box test
            if min(a[0], b[0]) - m > max(c[0], d[0]) or min(c[0], d[0]) - m > max(a[0], b[0]):
                continue
            if min(a[1], b[1]) - m > max(c[1], d[1]) or min(c[1], d[1]) - m > max(a[1], b[1]):
                continue
            m = min(m, seg_seg_dist(a, b, c, d))
            if m == 0:
                return 0.0
    return m


def is_simple_region(contours, min_clear=0.0):
    """Outer CCW, holes CW inside outer and not inside each other, all simple."""
    if signed_area(contours[0]) <= 0:
        return False
    for h in contours[1:]:
        if signed_area(h) >= 0 or not point_in_poly(h[0], contours[0]):
            return False
    for i, h in enumerate(contours[1:]):
        for j, k in enumerate(contours[1:]):
            if i != j and point_in_poly(h[0], k):
                return False
    return clearance(contours) > min_clear


def turn_angles(c):
    """Signed turning angle at every vertex (radians, >0 convex)."""
    n = len(c)
    r = []
    for i in range(n):
        a, b, d = c[i - 1], c[i], c[(i + 1) % n]
        ux, uy = b[0] - a[0], b[1] - a[1]
        vx, vy = d[0] - b[0], d[1] - b[1]
        r.append(math.atan2(ux * vy - uy * vx, ux * vx + uy * vy))
    return r


def region_area(contours):
    return sum(signed_area(c) for c in contours)


def diameter(contours):
    xs = [p[0] for p in contours[0]]
    ys = [p[1] for p in contours[0]]
    return math.hypot(max(xs) - min(xs), max(ys) - min(ys))
