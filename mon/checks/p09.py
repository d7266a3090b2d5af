"""P09: polygonize() completes."""
from .. import cases, rawcase
from ..engine import Res

ID = 'P09'
TITLE = 'polygonize() completes for every simple footprint'
TECHNIQUE = 'runtime monitor: exceptions, watchdog with counted steps and memory limit around every polygonize() call on hostile footprints'
NOTE = ('Any exception, more than 20 million jumps in the code under test, or more than 2.5 GB of memory is a violation. Sampled inputs from hostile '
        'families; the limits stand for non-termination.')
RULE = ('Any simple footprint whose parts are farther than 0.01 from each other: zigzags, needles, lattices, nearly regular, chopped walls, squeezed, '
        'scaled, noisy and fractal outlines and the 24 ordinary families, up to 80 vertices (220 in kind large); distinct = different contours rounded to 1 mm')
PLAN = {
    'quick': [('hostile', 30000), ('lattice', 7500), ('near', 10000), ('odd', 7500), ('mixed', 7500), ('large', 150)],
    'thorough': [('hostile', 400000), ('lattice', 100000), ('near', 120000), ('odd', 80000), ('mixed', 80000), ('large', 2000)],
}
MINIMUM = {'calls': 22000, 'faces': 200000, 'with holes': 2000, 'more than 40 vertices': 300}


def run(kind, n, rng):
    if kind == 'large':
        c = None
        for _ in range(20):
            c = rawcase.draw('hostile', rng, nmax=220)
            if not isinstance(c, str) and sum(map(len, c.cs)) > 60:
                break
        else:
            return Res(skip='no large footprint')
    else:
        c = rawcase.draw(kind, rng)
    if isinstance(c, str):
        return Res(skip=c)
    r = Res(key=cases.shape_key(c.cs))
    g = cases.config(rng, None, len(c.cs) - 1)
    o = cases.call(c.cs, g)
    if o.exc is not None:
        r.fail('exception', '%s: %s' % (type(o.exc).__name__, o.exc))
        r.fail('case', rawcase.describe(c, g))
    else:
        r.see('calls')
        r.see('faces', len(o.faces))
        if len(c.cs) > 1:
            r.see('with holes')
        if sum(map(len, c.cs)) > 40:
            r.see('more than 40 vertices')
    r.sample = rawcase.describe(c, g)
    return r
