"""Cases common to the checks that watch the roofs polygonize() makes."""
import random
from . import cases, cert
from .engine import Res

KINDS = {
    'mixed': dict(cases.WEIGHTS),
    'holes': {'holes': 3, 'courtyard': 4, 'manyholes': 4, 'osm': 1},
    'symmetric': {'sym': 4, 'regular': 2, 'notched': 3, 'comb': 3, 'bays': 3, 'courtyard': 2, 'rect': 1, 'blocks': 4},
    'free': {'star': 3, 'simple': 4, 'big': 2, 'parametric': 2, 'spiral': 2, 'convex': 1, 'huge': 2, 'corridor': 3},
    'uneven': {'skewbays': 4, 'wonky': 4, 'comb': 1, 'bays': 1},
    'real': {'osm': 1},
    'onbay': {'onbay': 1},
    'steps': {'steps': 1},
}


def watch(kind, rng, judge, uneven=False, accept=None, plain=False, sharp=False):
    """Draws a case, runs it, lets judge(case, config, out, res) look at the outcome."""
    uneven = uneven and kind in ('uneven', 'onbay')
    c = cases.draw(rng, KINDS[kind], uneven=uneven, accept=accept, sharp=sharp)
    if isinstance(c, str):
        return Res(skip=c)
    g = cases.config(rng, c.R, len(c.cs) - 1)
    if plain:
        g.prefix, g.gaps, g.outer_at = 0, [], 0
        g.perm = list(range(len(c.cs) - 1))
    o = cases.call(c.cs, g)
    r = Res(key=cases.shape_key(c.cs))
    if o.exc is not None:
        r.fail('exception', '%s: %s' % (type(o.exc).__name__, o.exc))
    else:
        r.see('calls')
        r.see('faces', len(o.faces))
        r.see('walls', c.f['n'])
        r.see('skeleton nodes', c.f['nnodes'])
        r.see('splits of the wavefront', c.f['nsplit'])
        if len(c.cs) > 1:
            r.see('with holes')
        if g.unit:
            r.see('with unit vectors')
        if g.prefix or any(g.gaps) or g.outer_at:
            r.see('embedded in a longer vertex list')
        try:
            judge(c, g, o, r)
        except Exception as e:
            r.fail('result', 'not a roof: %s: %s' % (type(e).__name__, e))
    return finish(c, g, r)


def finish(c, g, r):
    """Verdict of a case: a violation only where the roof doesn't hang on a tiny difference."""
    if r.bad:
        if not cases.stable(c.cs, random.Random(1)):
            return Res(skip='the outcome hangs on a decision within 0.0002')
        if c.f['wide']:
            r.known = 'F1'
        r.bad = r.bad[:4] + [('case', cases.describe(c, g))]
    r.sample = cases.describe(c, g)
    return r
