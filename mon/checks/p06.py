"""P06: the contract of the arguments of polygonize()."""
import math
from .. import cases, rawcase, target
from ..engine import Res

ID = 'P06'
TITLE = 'polygonize() only appends to its arguments; faces use contour and new nodes'
TECHNIQUE = 'runtime monitor: snapshot of all arguments (identity and value) before and after every polygonize() call'
NOTE = 'Objects and values of all arguments are recorded before the call and compared after it. Sampled inputs, any simple footprint.'
RULE = ('Any simple footprint, hostile families included, in random layouts of the vertex list (blocks of unrelated vertices before and '
        'between the contours), with faces None, [] or filled, with or without unit vectors; distinct = different contours rounded to 1 mm')
PLAN = {
    'quick': [('hostile', 12500), ('mixed', 10000), ('lattice', 2500)],
    'thorough': [('hostile', 140000), ('mixed', 120000), ('lattice', 30000)],
}
MINIMUM = {'calls': 9000, 'given vertices': 130000, 'new nodes': 80000, 'new faces': 90000, 'faces extended': 1500, 'unrelated vertices': 30000, 'unit vectors given': 2000}


def run(kind, n, rng):
    c = rawcase.draw(kind, rng)
    if isinstance(c, str):
        return Res(skip=c)
    r = Res(key=cases.shape_key(c.cs))
    g = cases.config(rng, None, len(c.cs) - 1)
    o = cases.build(c.cs, g)
    verts, first, num, holes, h, t, faces, uv = o.args
    # unrelated vertices behind the contours
    tail = rng.choice([0, 0, 2])
    for k in range(tail):
        o.junk.add(len(verts))
        verts.append(target.Vector((-500.0 - k, 77.0, 1.0)))
    n0 = len(verts)
    objs = list(verts)
    vals = [tuple(v) for v in verts]
    holes0 = None if holes is None else list(holes)
    fobj = None if faces is None else list(faces)
    fval = None if faces is None else [list(f) for f in faces]
    uobj = None if uv is None else list(uv)
    uval = None if uv is None else [tuple(v) for v in uv]
    if rng.random() < 0.15:
        # the list already contains the faces that are going to be added
        try:
            more = target.bps.polygonize(*((list(verts),) + tuple(o.args[1:6]) + (None, uv)))
        except Exception:
            return Res(skip='polygonize() fails (see P09)')
        extra = len(more)
        faces = [list(f) for f in faces or []] + [list(f) for f in more]
        o.args = tuple(o.args[:6]) + (faces, uv)
        fobj = list(faces)
        fval = [list(f) for f in faces]
        r.see('equal faces already there')
    else:
        extra = None
    try:
        ret = target.bps.polygonize(*o.args)
    except Exception:
        return Res(skip='polygonize() fails (see P09)')
    r.see('calls')
    r.see('given vertices', n0)
    r.see('unrelated vertices', len(o.junk))
    if len(verts) < n0 or any(a is not b for a, b in zip(verts, objs)):
        r.fail('verts', 'given vertices are replaced')
    elif [tuple(v) for v in verts[:n0]] != vals:
        r.fail('verts', 'given vertices are modified')
    new = verts[n0:]
    r.see('new nodes', len(new))
    if not new:
        r.fail('nodes', 'no nodes appended')
    if len({id(v) for v in verts}) != len(verts):
        r.fail('nodes', 'the list contains a vertex twice')
    for v in new:
        if len(v) != 3 or not all(math.isfinite(x) for x in v):
            r.fail('nodes', 'new node %r' % (v,))
            break
    if holes != holes0:
        r.fail('holes', 'holesInfo is modified')
    if uv is not None:
        r.see('unit vectors given')
        if any(a is not b for a, b in zip(uv, uobj)) or [tuple(v) for v in uv] != uval or len(uv) != len(uobj):
            r.fail('unit', 'unitVectors are modified')
    k = 0
    if faces is not None:
        k = len(fobj)
        if ret is not faces:
            r.fail('return', 'the given list of faces is not returned')
        if fobj:
            r.see('faces extended')
        if len(faces) < k or any(a is not b for a, b in zip(faces, fobj)) or [list(f) for f in faces[:k]] != fval:
            r.fail('faces', 'given faces are modified')
    if not isinstance(ret, list):
        r.fail('return', 'returns %r' % type(ret))
    else:
        ok = {i for l in o.cidx for i in l} | set(range(n0, len(verts)))
        if extra is not None and len(ret) != k + extra:
            r.fail('faces', '%d faces added instead of %d' % (len(ret) - k, extra))
        if len(ret) == k:
            r.fail('faces', 'no faces')
        for f in ret[k:]:
            if not isinstance(f, list) or not all(type(i) is int for i in f):
                r.fail('face', 'face %r is not a list of indices' % (f,))
                break
            bad = [i for i in f if i not in ok]
            if bad:
                r.fail('index', 'face %r refers to vertex %d, which is neither of the contours nor new' % (f, bad[0]))
                break
            if len(set(f)) < 3 or any(a == b for a, b in zip(f, f[1:] + f[:1])):
                r.fail('corners', 'face %r has less than three corners or repeats one' % (f,))
                break
            r.see('new faces')
        if len({id(f) for f in ret}) != len(ret):
            r.fail('faces', 'the list contains a face twice')
    if r.bad:
        r.bad = r.bad[:4] + [('case', rawcase.describe(c, g))]
    r.sample = rawcase.describe(c, g)
    return r
