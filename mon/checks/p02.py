"""P02: one face per wall, and it starts with its wall."""
from .. import domain, roofs, geom

ID = 'P02'
TITLE = 'Every wall has exactly one face, which starts with it'
TECHNIQUE = 'runtime monitor at polygonize(): wall/face bijection of every roof'
NOTE = 'Every wall of every sampled footprint is looked up in the returned faces; sampled inputs, not a proof.'
RULE = ('Footprints of 24 families in random configurations of polygonize() (hole blocks before, after and between, '
        'gaps in the vertex list, unit vectors or not); kept when the straight skeleton is certified and no '
        'documented simplification applies; distinct = different contours rounded to 1 mm')
PLAN = {
    'quick': [('mixed', 17500), ('holes', 6240), ('symmetric', 3760), ('free', 3760), ('real', 2500)],
    'thorough': [('mixed', 100000), ('holes', 30000), ('symmetric', 20000), ('free', 20000), ('real', 15000)],
}
MINIMUM = {'walls joined beside a dormer': 100, 'calls': 7000, 'walls matched': 60000, 'walls of holes matched': 5000}


def judge(c, g, o, r):
    own = {}
    ce = {}
    for ci, l in enumerate(o.cidx):
        for i in range(len(l)):
            ce[(l[i], l[(i + 1) % len(l)])] = ci
    # walls left and right of a dormer, in line with each other
    l = o.cidx[0]
    pairs = [((l[a], l[(a + 1) % len(l)]), (l[b], l[(b + 1) % len(l)])) for a, b in domain.beside_dormers(c.cs[0])]
    shared = 0
    for f in o.faces:
        if len(f) < 3 or any(type(i) is not int or not 0 <= i < len(o.pts) for i in f):
            r.fail('index', 'face %r' % (f,))
            continue
        es = list(zip(f, f[1:] + f[:1]))
        if es[0] not in ce:
            r.fail('first', 'face %r does not start with a wall' % (f,))
        walls = [e for e in es if e in ce]
        if any((b, a) in ce for a, b in es):
            r.fail('reverse', 'face %r has a wall in the wrong direction' % (f,))
        for e in walls:
            own[e] = own.get(e, 0) + 1
        if len(walls) > 1:
            reach = {walls[0]}
            more = True
            while more:
                more = False
                for a, b in pairs:
                    if (a in reach) != (b in reach) and a in walls and b in walls:
                        reach |= {a, b}
                        more = True
            rest = [e for e in walls if e not in reach]
            if rest:
                r.fail('second', 'face %r has more than one wall: %r' % (f, walls))
            shared += len(walls) - 1
        if geom.signed_area([o.pts[i][:2] for i in f]) <= 0:
            r.fail('order', 'face %r is not counterclockwise' % (f,))
    for e in ce:
        if own.get(e, 0) != 1:
            r.fail('wall', 'wall %r is in %d faces' % (e, own.get(e, 0)))
        else:
            r.see('walls of holes matched' if ce[e] else 'walls matched')
    if len(o.faces) + shared != len(ce):
        r.fail('count', '%d faces for %d walls' % (len(o.faces), len(ce)))
    if shared:
        r.see('walls joined beside a dormer', shared)


def run(kind, n, rng):
    return roofs.watch(kind, rng, judge)
