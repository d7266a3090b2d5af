"""P01: the faces partition the footprint."""
from .. import cert, roofs

ID = 'P01'
TITLE = 'The faces partition the footprint'
TECHNIQUE = 'runtime monitor at polygonize(): the returned faces are judged by an exact-cover oracle on every call'
NOTE = ('Area, edge pairing and crossing oracle on the returned faces, in every configuration of the arguments; sampled '
        'inputs from 24 families of footprints, not a proof.')
RULE = ('Footprints of 24 families (convex, star-shaped, random simple, rectilinear, with holes, symmetric, '
        'real OSM outlines ...) in random configurations of polygonize(); a case is kept when an independent '
        'reference certifies its straight skeleton and no documented simplification applies; distinct = '
        'different contours rounded to 1 mm; each has at least one interior node')
PLAN = {
    'quick': [('mixed', 22500), ('holes', 3760), ('symmetric', 3760), ('free', 5000), ('uneven', 2500), ('real', 2500)],
    'thorough': [('mixed', 120000), ('holes', 20000), ('symmetric', 20000), ('free', 30000), ('uneven', 15000), ('real', 15000)],
}
MINIMUM = {'calls': 8000, 'faces': 60000, 'with holes': 1500, 'splits of the wavefront': 8000, 'cases mixed': 5000}
ASSUMPTIONS = ['domain: contours farther than 0.5 from themselves, skeleton nodes farther apart than 0.15, '
               'no face corner sharper than 9 degrees at a node', 'tolerance 0.02 in x and y']
CODES = {'dup', 'short', 'index', 'multi', 'outside', 'open', 'orient', 'selfx', 'area'}


def judge(c, g, o, r):
    bad = cert.topology(o.cidx, len(o.pts), o.faces, None)
    if not any(b[0] in ('index', 'short') for b in bad):
        bad += cert.tiling(c.cs, o.pts, o.faces, c.tol)
    for b in bad:
        if b[0] in CODES:
            r.fail(*b)
    r.see('edges between faces', sum(len(f) for f in o.faces))


def run(kind, n, rng):
    return roofs.watch(kind, rng, judge)
