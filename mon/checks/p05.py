"""P05: what height, tan and the elevation of the footprint do."""
from .. import cases, rawcase
from ..engine import Res

ID = 'P05'
TITLE = 'height, tan and the z-coordinate of the footprint determine the roof heights'
TECHNIQUE = 'runtime monitor relating several polygonize() runs on one footprint with different pitch arguments'
NOTE = ('Every footprint is run four times with different pitch arguments; nodes and faces of the runs have to be related '
        'as stated. Sampled inputs, any simple footprint.')
RULE = ('Any simple footprint, hostile families included; each is run with tan = 1 at z = 0, with a height (twice, with different '
        'tan; also negative), with another tan and flat, at random elevations; distinct = different contours rounded to 1 mm')
PLAN = {
    'quick': [('hostile', 4000), ('mixed', 4000), ('near', 1000)],
    'thorough': [('hostile', 45000), ('mixed', 45000), ('near', 12000)],
}
MINIMUM = {'runs': 12000, 'nodes': 70000, 'runs with height': 3000, 'flat runs': 1500}


def run(kind, n, rng):
    c = rawcase.draw(kind, rng)
    if isinstance(c, str):
        return Res(skip=c)
    r = Res(key=cases.shape_key(c.cs))
    g = cases.config(rng, None, len(c.cs) - 1)

    def go(h, t, z):
        g.height, g.tan, g.z = h, t, z
        o = cases.call(c.cs, g)
        r.see('runs')
        return o
    base = go(0.0, 1.0, 0.0)
    if base.exc is not None:
        return Res(skip='polygonize() fails (see P09)')
    d = [p[2] for p in base.pts[base.n0:]]
    if not d:
        r.fail('empty', 'no nodes')
        return done(c, g, r)
    dmax = max(d)
    h = rng.choice([1.0, 10.0, 4, rng.uniform(0.5, 25.0), rng.uniform(0.01, 200.0), 0.001, -rng.uniform(0.5, 25.0)])
    t = rng.choice([0.5, 2, rng.uniform(0.05, 4.0), -rng.uniform(0.05, 4.0), 1e-4])
    z = [rng.choice([0.0, 3.5, -2.25, rng.uniform(-60, 400)]) for _ in range(4)]
    plan = [(h, 0.0, z[0], 'height'), (h, t, z[0], 'height'), (0.0, t, z[1], 'tan'), (0, 0, z[2], 'flat')]
    outs = []
    for a in plan:
        o = go(*a[:3])
        outs.append(o)
        what = 'height=%r tan=%r z=%r' % a[:3]
        if o.exc is not None:
            r.fail('exception', '%s: %s: %s' % (what, type(o.exc).__name__, o.exc))
            continue
        if o.faces != base.faces:
            r.fail('faces', '%s changes the faces' % what)
        if [p[:2] for p in o.pts] != [p[:2] for p in base.pts]:
            r.fail('plan', '%s moves nodes' % what)
            continue
        q = [p[2] for p in o.pts[o.n0:]]
        zb = o.pts[o.cidx[0][0]][2]
        k = a[0] / dmax if a[3] == 'height' else a[1]
        r.see('nodes', len(q))
        r.see({'height': 'runs with height', 'tan': 'runs with tan', 'flat': 'flat runs'}[a[3]])
        tol = 2e-6 * (abs(zb) + abs(k) * dmax) + 1e-7
        for i, (y, x) in enumerate(zip(q, d)):
            if not abs(y - zb - k * x) <= tol:
                r.fail('height', '%s: node %d at distance %.6f is at z=%.6f instead of %.6f' % (what, i, x, y, zb + k * x))
                break
        top = max(q, key=lambda v: abs(v - zb)) - zb
        if a[3] == 'height' and not abs(top - a[0]) <= tol:
            r.fail('top', '%s: the highest node is %.6f above the footprint' % (what, top))
        if a[0] < 0 or a[1] < 0:
            r.see('runs that dig')
        if a[3] == 'flat' and any(y != zb for y in q):
            r.fail('flat', '%s: the roof is not flat' % what)
    if outs[0].exc is None and outs[1].exc is None and outs[0].pts != outs[1].pts:
        r.fail('precedence', 'tan changes a roof of given height')
    return done(c, g, r)


def done(c, g, r):
    if r.bad:
        r.bad = r.bad[:4] + [('case', rawcase.describe(c, g))]
    r.sample = rawcase.describe(c)
    return r
