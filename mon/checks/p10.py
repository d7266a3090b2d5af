"""P10: nothing but the arguments matters."""
import json
import os
import random
import subprocess
import sys
from .. import cases, rawcase, target
from ..engine import HERE, Res

ID = 'P10'
TITLE = 'The result depends on nothing but the arguments'
TECHNIQUE = 'runtime monitor over call histories: results of repeated calls in shuffled, interleaved and separate processes compared bit by bit'
NOTE = ('Every history is a random sequence of polygonize(), skeletonize() and checkEdgeCrossing() calls including failing ones; each footprint is computed '
        'several times within it, and batches are computed in processes with different hash seeds. Sampled histories.')
RULE = ('A history is 4 to 7 simple footprints (hostile families included), each computed 2 to 4 times in shuffled order, with malformed footprints, debug '
        'output and direct skeletonize() calls in between, partly into one growing vertex list; distinct = different histories')
PLAN = {
    'quick': [('history', 1040), ('grow', 1040)],
    'thorough': [('history', 25000), ('grow', 25000)],
}
MINIMUM = {'repeated calls compared': 7000, 'failing calls in between': 300, 'debug output requested in between': 500,
           'skeletonize calls in between': 500, 'calls into a growing list': 2000, 'results compared between processes': 300}


def malformed(rng):
    V = target.Vector
    k = rng.randrange(6)
    try:
        if k == 0:
            target.bps.polygonize([V((0, 0, 0)), V((1, 0, 0))], 0, 5)
        elif k == 1:
            target.bps.polygonize([V((0, 0, 0))] * 4, 0, 4, None, 0.0, 1.0)
        elif k == 2:
            P = [(0, 0), (4, 4), (4, 0), (0, 4), (2, 9)]
            target.bps.polygonize([V((x, y, 0)) for x, y in P], 0, 5, None, 1.0)
        elif k == 3:
            P = [(rng.uniform(0, 9), rng.uniform(0, 9)) for _ in range(7)]
            target.bps.polygonize([V((x, y, 0)) for x, y in P], 0, 7, [(2, 3)], 1.0)
        elif k == 4:
            target.bps.skeletonize([])
        else:
            target.bps.polygonize([V((0, 0, 0)), V((4, 0, 0)), V((0, 3, 0))], 0, 3, None, 'x', 'y')
    except Exception:
        return True
    return False


def result(c, g):
    o = cases.call(c.cs, g)
    if o.exc is not None:
        return ('exception', type(o.exc).__name__)
    return (o.pts[o.n0:], o.faces)


def canon(x):
    """Order of the faces is not part of the roof."""
    if x[0] == 'exception':
        return x
    return (x[0], sorted(tuple(f) for f in x[1]))


def diff(a, b):
    if a[0] == 'exception' or b[0] == 'exception':
        return '%r instead of %r' % (b[:2] if b[0] == 'exception' else 'a roof', a[:2] if a[0] == 'exception' else 'a roof')
    if a[0] != b[0]:
        return 'other nodes: %d %r instead of %d %r' % (len(b[0]), [p for p in b[0] if p not in a[0]][:2], len(a[0]), [p for p in a[0] if p not in b[0]][:2])
    return 'other faces: %r instead of %r' % ([f for f in b[1] if f not in a[1]][:2], [f for f in a[1] if f not in b[1]][:2])


def draw(rng, m):
    out = []
    while len(out) < m:
        c = rawcase.draw(rng.choice(['hostile', 'mixed', 'mixed']), rng, nmax=40)
        if not isinstance(c, str):
            out.append((c, cases.config(rng, None, len(c.cs) - 1)))
    return out


def history(rng, r):
    cs = draw(rng, rng.randint(4, 7))
    todo = [i for i in range(len(cs)) for _ in range(rng.randint(2, 4))]
    rng.shuffle(todo)
    first = {}
    dbg = target.bps.debugOutputs
    dbg.clear()
    log = []
    for i in todo:
        k = rng.random()
        if k < 0.15:
            if malformed(rng):
                r.see('failing calls in between')
                log.append('failing call')
        elif k < 0.3:
            dbg['skeleton'] = rng.choice([1, True, []])
            r.see('debug output requested in between')
            log.append('debug output on')
        elif k < 0.4:
            dbg.clear()
        elif k < 0.55:
            c = rng.choice(cs)[0]
            from .. import compare
            try:
                sk = target.bps.skeletonize(compare.edge_contours(c.cs, 'vectors')[0])
                target.bps.checkEdgeCrossing(sk)
            except Exception:
                pass
            r.see('skeletonize calls in between')
            log.append('skeletonize')
        x = canon(result(*cs[i]))
        log.append(i)
        if i not in first:
            first[i] = x
        else:
            r.see('repeated calls compared')
            if x != first[i]:
                r.fail('history', 'footprint %d: %s' % (i, diff(first[i], x)))
                r.fail('calls', log[-30:])
                r.fail('case', rawcase.describe(*cs[i]))
                break
    dbg.clear()
    return tuple(cases.shape_key(c.cs) for c, g in cs)


def turn(f, n):
    """A face of several walls may start with any of them."""
    if sum(a < n and b < n for a, b in zip(f, f[1:] + f[:1])) < 2:
        return f
    return min(f[i:] + f[:i] for i in range(len(f)))


def grow(rng, r):
    """One vertex list for all buildings of a city, as the add-ons do it; then every building on its own."""
    V = target.Vector
    cs = draw(rng, rng.randint(3, 6))
    verts, faces = [], []
    for i, (c, g) in enumerate(cs):
        twice = rng.choice([1, 1, 2])
        holes = []
        first = len(verts)
        for k, l in enumerate(c.cs):
            if k:
                holes.append((len(verts), len(l)))
            verts += [V((x, y, g.z)) for x, y in l]
        n = len(verts) - first
        alone = [V(v) for v in verts[first:]]
        try:
            fa = target.bps.polygonize(alone, 0, len(c.cs[0]), [(a - first, b) for a, b in holes], g.height, g.tan, None, None)
        except Exception:
            continue
        for _ in range(twice):
            k, m = len(faces), len(verts)
            try:
                target.bps.polygonize(verts, first, len(c.cs[0]), holes, g.height, g.tan, faces, None)
            except Exception as e:
                r.fail('grow', 'fails in a longer list: %s' % e)
                r.fail('case', rawcase.describe(c, g))
                return None
            r.see('calls into a growing list')
            name = {first + j: j for j in range(n)}
            name.update({m + j: n + j for j in range(len(verts) - m)})
            got = sorted(turn(tuple(name.get(j, 10 ** 6 + j) for j in f), n) for f in faces[k:])
            if [tuple(v) for v in verts[m:]] != [tuple(v) for v in alone[n:]]:
                r.fail('grow', 'building %d has other nodes than on its own' % i)
            elif got != sorted(turn(tuple(f), n) for f in fa):
                r.fail('grow', 'building %d has other faces than on its own' % i)
            if r.bad:
                r.fail('case', rawcase.describe(c, g))
                return None
            r.see('repeated calls compared')
    return tuple(cases.shape_key(c.cs) for c, g in cs)


def run(kind, n, rng):
    r = Res()
    try:
        r.key = history(rng, r) if kind == 'history' else grow(rng, r)
    finally:
        target.bps.debugOutputs.clear()
    r.sample = {'kind': kind, 'footprints': len(r.key or ())}
    return r


def batch(seed, m):
    rng = random.Random('P10/batch/%d' % seed)
    out = []
    for c, g in draw(rng, m):
        x = canon(result(c, g))
        out.append(repr(x))
    return out


def once(seed, tier):
    """The same batch in processes with different hash seeds."""
    m = 160 if tier == 'quick' else 1500
    code = ('import sys, json; sys.path.insert(0, %r)\n'
            'from mon.checks import p10\njson.dump(p10.batch(%d, %d), sys.stdout)' % (HERE, seed, m))
    ps = []
    for h in ('0', '1', '4242', '987654321'):
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE='1')
        ps.append((h, subprocess.Popen([sys.executable, '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, text=True)))
    res = []
    r = Res(key='processes')
    for h, p in ps:
        o, e = p.communicate(timeout=600)
        if p.returncode:
            r.fail('process', 'a process with PYTHONHASHSEED=%s failed: %s' % (h, e[-300:]))
        else:
            res.append((h, json.loads(o)))
    for h, b in res[1:]:
        for i, (x, y) in enumerate(zip(res[0][1], b)):
            r.see('results compared between processes')
            if x != y:
                r.fail('hash seed', 'footprint %d of batch %d differs between PYTHONHASHSEED=%s and %s' % (i, seed, res[0][0], h))
                break
    yield 'once: processes', r
