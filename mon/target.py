"""Access to the code under test, always /repo's working tree."""
import os
import sys

REPO = os.environ.get('BPS_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
from mathutils import Vector                      # noqa: E402
from bpypolyskel import bpypolyskel as bps        # noqa: E402
from bpypolyskel import bpyeuclid as euc          # noqa: E402
from bpypolyskel import poly2FacesGraph as p2f    # noqa: E402


def q32(contours):
    """Round coordinates to what a mathutils.Vector stores."""
    return [[tuple(Vector((x, y))) for x, y in c] for c in contours]


class Call:
    """One polygonize() call in its plainest form."""
    pass


def run(contours, height=0.0, tan=1.0, z=0.0, unit=False, prefix=0, faces=None):
    verts = [Vector((1e3 + i, -7.0 * i, 3.0)) for i in range(prefix)]
    cidx = []
    holes = []
    for k, c in enumerate(contours):
        i0 = len(verts)
        verts.extend(Vector((x, y, z)) for x, y in c)
        cidx.append(list(range(i0, len(verts))))
        if k:
            holes.append((i0, len(c)))
    uv = None
    if unit:
        uv = []
        for c in contours:
            for a, b in zip(c, c[1:] + c[:1]):
                v = Vector((b[0] - a[0], b[1] - a[1], 0.0))
                v.normalize()
                uv.append(v)
    n0 = len(verts)
    r = bps.polygonize(verts, cidx[0][0], len(cidx[0]), holes or None, height, tan, faces, uv)
    c = Call()
    c.verts, c.cidx, c.n0, c.faces = verts, cidx, n0, r
    c.pts = [tuple(v) for v in verts]
    c.holes = holes
    return c
