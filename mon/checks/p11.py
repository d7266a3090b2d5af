"""P11: layout of the arguments."""
from .. import cases, compare, domain, roofs, target
from ..engine import Res

ID = 'P11'
TITLE = 'The layout of the vertex list and redundant arguments do not matter'
TECHNIQUE = 'runtime monitor relating polygonize() runs on one footprint in different layouts of the vertex list (metamorphic oracle)'
NOTE = ('Runs that differ in layout only are compared bit by bit; another order of holes or given unit vectors are compared '
        'as roofs. Sampled footprints and layouts.')
RULE = ('Simple footprints (with holes in most cases) laid out in a vertex list in two to four different ways: unrelated vertices before, '
        'between and behind the blocks, outer contour first or last, holes in another order, None or [] without holes, faces None, [] or filled, '
        'unit vectors given or not; distinct = different contours rounded to 1 mm')
PLAN = {
    'quick': [('holes', 6500), ('mixed', 5000), ('hostile', 3760), ('symmetric', 1760), ('real', 1000)],
    'thorough': [('holes', 60000), ('mixed', 45000), ('hostile', 35000), ('symmetric', 15000), ('real', 9000)],
}
MINIMUM = {'calls': 15000, 'exact comparisons': 7000, 'order of holes': 900, 'unit vectors': 1800, 'blocks moved': 5000, 'faces compared': 150000}
ASSUMPTIONS = ['kinds other than hostile: same domain as P01']


def names(o, cs):
    """Indices -> names that don't depend on the layout."""
    d = {}
    for ci, l in enumerate(o.cidx):
        for i, k in enumerate(l):
            d[k] = (ci, i)
    for k in range(o.n0, len(o.pts)):
        d[k] = ('node', k - o.n0)
    return d


def turn(f):
    """A face of several walls may start with any of them."""
    if sum(a[0] != 'node' and b[0] != 'node' for a, b in zip(f, f[1:] + f[:1])) < 2:
        return f
    i = min(range(len(f)), key=lambda i: str(f[i:] + f[:i]))
    return f[i:] + f[:i]


def exact(A, B, r, what):
    """Bit by bit the same roof."""
    r.see('exact comparisons')
    if B.exc is not None:
        r.fail(what, '%s: %s' % (type(B.exc).__name__, B.exc))
        return
    if A.pts[A.n0:] != B.pts[B.n0:]:
        r.fail(what, 'other nodes: %d %r... instead of %d %r...' % (len(B.pts) - B.n0, B.pts[B.n0:][:2], len(A.pts) - A.n0, A.pts[A.n0:][:2]))
        return
    da, db = names(A, None), names(B, None)
    fa = [turn([da.get(k, ('foreign', k)) for k in f]) for f in A.faces]
    fb = [turn([db.get(k, ('foreign', k)) for k in f]) for f in B.faces]
    if sorted(map(repr, fa)) != sorted(map(repr, fb)):
        x = [f for f in fb if f not in fa][:1]
        r.fail(what, 'other faces: %r' % x)
        return
    r.see('faces compared', len(fa))


def alike(A, B, r, what, tol):
    """The same nodes and faces, in any order."""
    from . import p08
    if B.exc is not None:
        r.fail(what, '%s: %s' % (type(B.exc).__name__, B.exc))
        return

    class Same:
        f, mirror, kind = 1.0, False, what

        def pt(self, p):
            return tuple(p[:2])
    p08.relate(A, B, Same(), [list(range(len(l))) for l in A.cidx], tol, r)


def copy(g, **k):
    h = cases.Config()
    for s in cases.Config.__slots__:
        setattr(h, s, k.get(s, getattr(g, s)))
    return h


def run(kind, n, rng):
    if kind == 'hostile':
        from .. import rawcase
        c = rawcase.draw(kind, rng)
    else:
        c = cases.draw(rng, roofs.KINDS[kind])
    if isinstance(c, str):
        return Res(skip=c)
    r = Res(key=cases.shape_key(c.cs))
    nh = len(c.cs) - 1
    g = cases.config(rng, None, nh)
    g.height, g.tan = 0.0, 1.0
    g.prefix, g.gaps, g.outer_at, g.faces = 0, [0] * (nh + 1), 0, 'none'
    g.perm = list(range(nh))
    g.unit = rng.random() < 0.3
    g.noholes = None
    A = cases.call(c.cs, g)
    r.see('calls')
    if A.exc is not None:
        if kind == 'hostile':
            return Res(skip='polygonize() fails (see P09)')
        r.fail('exception', '%s: %s' % (type(A.exc).__name__, A.exc))
        return roofs.finish(c, g, r)
    hard = False
    try:
        # the blocks elsewhere: the computation is the same, bit by bit
        for k in range(2):
            h = copy(g, prefix=rng.choice([0, 1, 5, rng.randint(1, 60)]), gaps=[rng.choice([0, 1, 4, 17]) for _ in range(nh + 1)],
                     outer_at=rng.randint(0, nh), faces=rng.choice(['none', 'empty', 'some']), noholes=rng.choice([None, []]))
            B = cases.call(c.cs, h)
            r.see('calls')
            r.see('blocks moved')
            exact(A, B, r, 'layout')
            if r.bad:
                hard = True
                break
        if not r.bad and kind != 'hostile':
            tol = 0.03 + 2e-6 * c.scale
            if nh > 1:
                p = list(range(nh))
                rng.shuffle(p)
                B = cases.call(c.cs, copy(g, perm=p))
                r.see('calls')
                r.see('order of holes')
                alike(A, B, r, 'holes', tol)
            if not r.bad:
                B = cases.call(c.cs, copy(g, unit=not g.unit))
                r.see('calls')
                r.see('unit vectors')
                alike(A, B, r, 'unit vectors', tol)
    except Exception as e:
        r.fail('result', 'not a roof: %s: %s' % (type(e).__name__, e))
    if kind == 'hostile' or hard:
        if r.bad:
            r.bad = r.bad[:4] + [('case', cases.describe(c, g)), ('other', {s: getattr(h, s) for s in cases.Config.__slots__ if hasattr(h, s)})]
        r.sample = cases.describe(c, g)
        return r
    return roofs.finish(c, g, r)
