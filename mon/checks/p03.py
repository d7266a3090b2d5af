"""P03: planar faces of one pitch."""
from .. import cert, roofs

ID = 'P03'
TITLE = 'Every face is planar and rises from its wall with the given pitch'
TECHNIQUE = 'runtime monitor at polygonize(): every vertex of every face against the plane through its wall'
NOTE = 'Plane through the wall with the requested slope is computed from the input only; sampled inputs, not a proof.'
RULE = ('Footprints of 24 families in random configurations of polygonize() (pitch by tan, by height, flat); kept when '
        'the straight skeleton is certified and no documented simplification applies; distinct = different contours '
        'rounded to 1 mm')
PLAN = {
    'quick': [('mixed', 22500), ('holes', 3760), ('symmetric', 3760), ('free', 5000), ('real', 2500)],
    'thorough': [('mixed', 120000), ('holes', 20000), ('symmetric', 20000), ('free', 30000), ('real', 15000)],
}
MINIMUM = {'calls': 7000, 'vertices on their plane': 150000, 'by height': 1500, 'flat': 700}


def judge(c, g, o, r):
    fs = [f for f in o.faces if len(f) >= 3 and all(0 <= i < len(o.pts) for i in f)]
    if len(fs) != len(o.faces):
        r.fail('index', 'not a face: %r' % [f for f in o.faces if f not in fs][:1])
        return
    z = o.pts[o.cidx[0][0]][2]
    bad, worst = cert.planes(o.cidx, o.pts, fs, g.slope, z, c.tol)
    for b in bad:
        r.fail(*b)
    r.see('vertices on their plane', sum(len(f) for f in fs))
    if g.height:
        r.see('by height')
    elif not g.tan:
        r.see('flat')


def run(kind, n, rng):
    return roofs.watch(kind, rng, judge)
