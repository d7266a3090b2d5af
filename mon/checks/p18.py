"""P18: needles of faces."""
from .. import cert, domain, geom, roofs
from . import p02

ID = 'P18'
TITLE = 'Cutting the needles off faces keeps every wall and the cover of the footprint'
TECHNIQUE = 'runtime monitor at polygonize(): cover and wall oracle on roofs whose certified straight skeleton has needle-like faces'
NOTE = ('Every sampled roof with needles is judged: needles cut, pointed corners kept, cover, faces of walls, planarity of the faces that do not touch a needle, and the area '
        'a face may gain or lose. Sampled inputs; needles of triangles (never cut) are not counted.')
RULE = ('Footprints whose certified straight skeleton has a face of four or more corners with a corner between 0.8 and 9 degrees at a '
        'skeleton node (walls with small steps between slightly tilted parts, and the ordinary families), in random configurations of '
        'polygonize(); distinct = different contours rounded to 1 mm')
PLAN = {
    'quick': [('steps', 44800), ('mixed', 7000)],
    'thorough': [('steps', 450000), ('mixed', 60000)],
}
MINIMUM = {'calls': 900, 'needles below 8 degrees': 700, 'walls matched': 9000, 'cut needles': 500, 'pointed corners kept': 60, 'faces aside of needles': 3500}
ASSUMPTIONS = ['same domain as P01 except for the needles', 'needles of less than 8.1 degrees are cut, as documented']


def judge(c, g, o, r):
    bad = cert.topology(o.cidx, len(o.pts), o.faces, None)
    if any(b[0] in ('index', 'short') for b in bad):
        r.bad += bad
        return
    # a cut may leave vertices of the face beyond it, by the width of the sliver
    bad += cert.tiling(c.cs, o.pts, o.faces, c.tol, 1e9)
    r.bad += bad
    p02.judge(c, g, o, r)
    if r.bad:
        return
    R = c.R
    sp = domain.spikes(R)
    needles = {k for t, k, i in sp}
    nodes = {i for k in needles for i in R.faces[k] if i >= R.ncontour}
    r.see('needles', len(sp))
    r.see('needles below 8 degrees', sum(t < 8 for t, k, i in sp))
    walls = [(a, b) for l in o.cidx for a, b in zip(l, l[1:] + l[:1])]
    by = {}
    for f in o.faces:
        for e in zip(f, f[1:] + f[:1]):
            by.setdefault(e, []).append(f)
    aside, ws = [], set(walls)
    for k, w in enumerate(walls):
        f, ref = by[w][0], R.faces[k]
        if sum(e in ws for e in zip(f, f[1:] + f[:1])) > 1:     # beside a dormer
            continue
        if not nodes & set(ref):
            aside.append(f)
        P = [R.nodes[i] for i in ref]
        a, b = geom.signed_area([o.pts[i][:2] for i in f]), geom.signed_area([p[:2] for p in P])
        reach = max((geom.dist(R.nodes[i], R.nodes[j]) for q in needles for i in R.faces[q] for j in R.faces[q]), default=0)
        lim = 0.08 * reach ** 2 + 0.05 * reach if nodes & set(ref) else 0.05 * sum(geom.dist(p, q) for p, q in zip(P, P[1:] + P[:1]))
        if abs(a - b) > lim:
            r.fail('sliver', 'the face of wall %d has got the area %.6g, its part of the roof has %.6g' % (k, a, b))
    r.see('faces aside of needles', len(aside))
    sp = domain.spikes(R, 13.0)
    for t, k, i in sp:      # cut or not cut
        if 7.6 < t < 8.6 or any(q != (t, k, i) and set(R.faces[q[1]]) & set(R.faces[k]) for q in sp):
            continue
        f, p = by[walls[k]][0], R.nodes[i]
        if sum(e in ws for e in zip(f, f[1:] + f[:1])) > 1:
            continue
        there = any(j >= o.n0 and max(abs(o.pts[j][0] - p[0]), abs(o.pts[j][1] - p[1])) < 0.04 + c.tol for j in f)
        r.see('cut needles' if t < 8 else 'pointed corners kept')
        if there == (t < 8):
            r.fail('needle', 'the corner of %.2f degrees at (%.4f, %.4f) of the face of wall %d is %s'
                   % (t, p[0], p[1], k, 'still there' if there else 'gone'))
    if g.slope is not None:
        out, _ = cert.planes(o.cidx, o.pts, aside, g.slope, g.z, c.tol)
        r.bad += out


def run(kind, n, rng):
    return roofs.watch(kind, rng, judge, sharp=True, accept=lambda cs, f: 'known finding F1' if f['wide'] else None)
