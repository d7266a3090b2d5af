"""P17: the demo and the add-on."""
import math
from .. import cert, compare, domain, geom, programs, refskel, target
from ..engine import Res

ID = 'P17'
TITLE = 'The demo and the add-on build the advertised mesh'
TECHNIQUE = 'runtime monitor around both programs (recorded drawing and mesh), compared with the straight skeleton'
NOTE = ('The real programs run, with recorders in place of matplotlib and bpy. Every drawing and mesh of random sequences of slider positions and '
        'scales is judged; windows, Blender itself and negative scales are not covered.')
RULE = ('Sequences of up to 12 slider positions (0 to 80 degrees, repeated ones, limits) and of up to 6 scales (0.6 to 8 in the plan, 0.1 to 8 in height) with registration '
        'in between; distinct = different sequences')
PLAN = {
    'quick': [('demo', 1000), ('addon', 1600)],
    'thorough': [('demo', 8000), ('addon', 15000)],
}
MINIMUM = {'drawings': 2500, 'lines drawn': 100000, 'meshes': 2000, 'faces of meshes': 80000, 'volumes compared': 1800, 'footprints compared': 2000, 'menu entries drawn': 800}
ASSUMPTIONS = ['matplotlib and bpy do what their interfaces say', 'walls of the add-on are 5 * scale.z high and its pitch has the tangent 0.6, as its comments say',
               'the volume of the roof may deviate by 3 % through the merging of nodes']


class NoReference(Exception):
    pass


def run(kind, n, rng):
    r = Res()
    try:
        (demo if kind == 'demo' else addon)(rng, r)
    except NoReference:
        raise
    except Exception as e:
        r.fail('exception', '%s: %s' % (type(e).__name__, e))
    return r


# ---------------------------------------------------------------------------

def contours_of(walls):
    """Chain directed segments to closed contours."""
    nxt = {}
    for a, b in walls:
        if a in nxt:
            return None
        nxt[a] = b
    out = []
    while nxt:
        a, b = next(iter(nxt.items()))
        c = []
        while a in nxt:
            c.append(a)
            a = nxt.pop(a)
        if a != c[0]:
            return None
        out.append(c)
    return out


def demo(rng, r):
    d = programs.Demo()
    r.see('programs started')
    if d.shown != 1:
        r.fail('show', 'the window is shown %d times' % d.shown)
    if len(d.sliders) != 1 or not d.sliders[0].f:
        r.fail('slider', 'there is no slider that does something')
        return
    k = d.sliders[0].k
    if not (k.get('valmin') == 0 and k.get('valmax') == 80 and k.get('valinit') == 30):
        r.fail('slider', 'the slider runs from %r to %r, beginning with %r' % (k.get('valmin'), k.get('valmax'), k.get('valinit')))
    seq = [30]
    while len(seq) < rng.randint(3, 12):
        seq.append(rng.choice([rng.randint(1, 80), rng.randint(1, 80), 0, 80, 1, 45, 30, rng.choice(seq)]))
    r.key = tuple(seq)
    r.sample = {'slider': seq}
    foot = None
    seen = {}
    for j, p in enumerate(seq):
        if j:
            d.set(p)
        lines = d.drawing()
        r.see('drawings')
        segs = [(a, b) for l in lines for a, b in zip(l, l[1:])]
        r.see('lines drawn', len(segs))
        if foot is None:
            walls = [(a[:2], b[:2]) for a, b in segs if abs(a[2]) < 1e-6 and abs(b[2]) < 1e-6]
            foot = contours_of(walls)
            if not foot:
                r.fail('walls', 'the drawn walls don\'t make closed contours')
                return
            foot.sort(key=lambda c: -abs(geom.signed_area(c)))
            if geom.signed_area(foot[0]) < 0 or any(geom.signed_area(c) > 0 for c in foot[1:]):
                r.fail('walls', 'the contours of the drawn faces have the wrong orientation')
                return
            R = refskel.skeleton(foot)
            if domain.refcert(foot, R) or domain.node_sep(R) < 0.15:
                raise NoReference('no reference for the footprint of the demo')
            es = [(a, b) for a, b in R.edges] + list(compare.ref_edges(R))
        t = math.tan(math.radians(p))
        want = [(pt(R.nodes[a], t), pt(R.nodes[b], t)) for a, b in es]
        missing = [s for s in want if not any(same(s, q) for q in segs)]
        extra = [q for q in segs if not any(same(s, q) for s in want)]
        if missing or extra:
            r.fail('drawing', 'step %d of %r, pitch %d: %d lines of the roof are not drawn, %d drawn lines do not belong to it'
                   % (j, seq, p, len(missing), len(extra)))
            return
        s = tuple(sorted(segs))
        if seen.setdefault(p, s) != s:
            r.fail('history', 'step %d of %r: another drawing for the same pitch' % (j, seq))


def pt(n, t):
    return (n[0], n[1], n[2] * t)


def near(a, b):
    return all(abs(x - y) < 0.02 for x, y in zip(a[:2], b[:2])) and abs(a[2] - b[2]) < 0.02 * 6


def same(s, q):
    return near(s[0], q[0]) and near(s[1], q[1]) or near(s[0], q[1]) and near(s[1], q[0])


# ---------------------------------------------------------------------------

def volume(faces, pts, z0):
    v = 0.0
    for f in faces:
        for i in range(1, len(f) - 1):
            a, b, c = pts[f[0]], pts[f[i]], pts[f[i + 1]]
            v += geom.cross(a, b, c) / 2 * ((a[2] + b[2] + c[2]) / 3 - z0)
    return v


def addon(rng, r):
    a = programs.AddOn()
    r.see('programs started')
    scales = []
    seen = {}
    base = None
    for _ in range(rng.randint(1, 6)):
        s = [math.exp(rng.uniform(math.log(lo), 2.08)) for lo in (0.6, 0.6, 0.1)]
        if rng.random() < 0.4:
            s[1] = max(0.6, s[0] * rng.uniform(0.7, 1.4))
        if rng.random() < 0.15:
            s = [1.0, 1.0, 1.0]
        if scales and rng.random() < 0.25:
            s = list(rng.choice(scales))
        scales.append(tuple(s))
    r.key = tuple(round(x, 3) for s in scales for x in s)
    r.sample = {'scales': [[round(x, 3) for x in s] for s in scales]}
    cycles = rng.randint(1, 2)
    for c in range(cycles):
        a.mod.register()
        if len(a.classes) != 1 or len(a.menu) != 1 or len(a.maps) != 1:
            r.fail('register', 'registered are %d classes, %d menu entries, %d manual maps' % (len(a.classes), len(a.menu), len(a.maps)))
            return
        r.see('registrations')
        shown = []

        class Layout:
            def operator(self, *args, **kw):
                shown.append(args[0] if args else kw.get('operator'))

        class Entry:
            layout = Layout()
        a.menu[0](Entry(), object())
        if shown != [a.classes[0].bl_idname]:
            r.fail('menu', 'the menu entry offers %r instead of the operator %r' % (shown, a.classes[0].bl_idname))
        r.see('menu entries drawn')
        for s in [(1.0, 1.0, 1.0)] * (c == 0) + scales[c::cycles]:
            op = a.classes[0]()
            op.scale = target.Vector(s)
            ctx = object()
            k = len(a.added)
            ret = op.execute(ctx)
            if ret != {'FINISHED'}:
                r.fail('return', 'execute() returns %r' % (ret,))
            if len(a.added) != k + 1 or a.added[-1][0] is not ctx or not hasattr(a.added[-1][1], 'data'):
                r.fail('added', 'execute() adds %d objects to the scene' % (len(a.added) - k))
                return
            data = a.added[-1][1].data
            if data is None:
                r.fail('added', 'the added mesh is empty')
                return
            building(tuple(op.scale), data, r)
            ground = sorted({(p[0], p[1]) for p in data[0] if abs(p[2]) < 1e-6})
            if base is None:
                base = ground
            want = [(x * s[0], y * s[1]) for x, y in base]
            r.see('footprints compared')
            if len(ground) != len(want) or any(min(abs(x - u) + abs(y - w) for u, w in ground) > 1e-4 * (1 + abs(x) + abs(y)) for x, y in want):
                r.fail('footprint', 'the footprint is not the one of scale 1, stretched by %.4g and %.4g' % tuple(s[:2]))
            if seen.setdefault(s, data) != data:
                r.fail('history', 'another mesh for the same scale')
            if r.bad:
                r.fail('case', 'scale %r' % (s,))
                return
        a.mod.unregister()
        if a.classes or a.menu or a.maps:
            r.fail('register', 'unregister() leaves something behind')
            return


def building(s, data, r):
    v, edges, faces = data
    r.see('meshes')
    r.see('faces of meshes', len(faces))
    top = 5.0 * s[2]
    tol = 1e-4 * (1 + top)
    if any(not isinstance(i, int) or not 0 <= i < len(v) for f in faces for i in f):
        r.fail('index', 'faces refer to vertices that do not exist')
        return
    if any(not math.isfinite(x) for p in v for x in p):
        r.fail('finite', 'the mesh has vertices at infinity')
        return
    cnt = {}
    for f in faces:
        if len(f) < 3 or len(set(f)) != len(f):
            r.fail('face', 'face %r is degenerate' % (f,))
        for e in zip(f, f[1:] + f[:1]):
            cnt[e] = cnt.get(e, 0) + 1
    ground = [e for e in cnt if (e[1], e[0]) not in cnt]
    if any(m != 1 for m in cnt.values()):
        r.fail('multi', '%d edges are used twice in the same direction' % sum(m != 1 for m in cnt.values()))
    if any(abs(v[i][2]) > tol for e in ground for i in e):
        r.fail('open', 'the mesh is open above the ground')
    low = [i for i in range(len(v)) if abs(v[i][2]) <= tol]
    c = contours_of(ground)
    if c is None or len(c) != 1 or set(c[0]) != set(low):
        r.fail('ground', 'the walls do not stand on a closed contour')
        return
    c = c[0]
    cs = [[v[i][:2] for i in c]]
    if geom.signed_area(cs[0]) <= 0 or not geom.is_simple_region(cs):
        r.fail('ground', 'the ground contour is not counterclockwise and simple')
        return
    if len(c) != 26:
        r.fail('ground', 'the ground contour has %d vertices' % len(c))
    # walls: quads between a ground edge and the edge above it
    nxt = dict(zip(c, c[1:] + c[:1]))
    up = {}
    walls = set()
    for k, f in enumerate(faces):
        g = [i for i in range(len(f)) if f[i] in nxt and nxt[f[i]] == f[(i + 1) % len(f)]]
        if not g:
            continue
        f = f[g[0]:] + f[:g[0]]
        walls.add(k)
        if len(g) != 1 or len(f) != 4:
            r.fail('wall', 'wall %r is not a quad' % (f,))
            return
        for lo, hi in ((f[0], f[3]), (f[1], f[2])):
            if up.setdefault(lo, hi) != hi or max(abs(v[lo][0] - v[hi][0]), abs(v[lo][1] - v[hi][1])) > tol or abs(v[hi][2] - top) > tol:
                r.fail('wall', 'wall %r is not vertical or not 5 * scale.z high' % (f,))
                return
    if len(walls) != 26:
        r.fail('wall', 'there are %d walls' % len(walls))
        return
    roof = [list(f) for k, f in enumerate(faces) if k not in walls]
    cid = [[up[i] for i in c]]
    for code, msg in cert.topology(cid, len(v), roof) + cert.tiling(cs, v, roof, 0.15):
        r.fail('roof ' + code, msg)
    if min(v[i][2] for f in roof for i in f) < top - tol:
        r.fail('low', 'the roof reaches below the walls')
    if min(s[:2]) < 0.25 or max(s[:2]) > 6 * min(s[:2]):
        return      # corners with less than 8 degrees are simplified
    try:
        R = refskel.skeleton(cs)
        if domain.refcert(cs, R, 1e-3):
            return
    except refskel.RefFailure:
        return
    want = volume(R.faces, R.nodes, 0.0) * 0.6
    got = volume(roof, v, top)
    r.see('volumes compared')
    if abs(got - want) > 0.03 * want:
        r.fail('volume', 'the roof encloses %.5g, it should be %.5g' % (got, want))
    peak = max(p[2] for p in R.nodes) * 0.6
    z = max(p[2] for p in v) - top
    if abs(z - peak) > 0.1 * peak + 0.1:
        r.fail('peak', 'the roof is %.4g high, it should be %.4g' % (z, peak))
