"""Copies the footprints of the repository's tests to corpus/osm.json (run once, by hand)."""
import glob, json, os, sys
sys.path.insert(0, '/repo')
from bpypolyskel import bpypolyskel
rec = {}


class Stop(Exception):
    pass


def fake(verts, first, num, holes=None, height=0., tan=0., faces=None, uv=None):
    rec['a'] = (verts, first, num, holes, height, tan, uv)
    raise Stop


out = {}
bpypolyskel.polygonize = fake
for f in sorted(glob.glob('/repo/tests/test_*.py') + glob.glob('/repo/tests_special/**/test_*.py', recursive=True) +
                glob.glob('/repo/debug/**/test_*.py', recursive=True)):
    ns = {}
    rec.clear()
    try:
        exec(compile(open(f).read(), f, 'exec'), ns)
        ns['test_polygonize']()
    except Stop:
        pass
    except Exception as e:
        print(f, repr(e))
        continue
    verts, first, num, holes, height, tan, uv = rec['a']
    cs = [[(round(v[0], 5), round(v[1], 5)) for v in verts[first:first + num]]]
    for s, n in holes or ():
        cs.append([(round(v[0], 5), round(v[1], 5)) for v in verts[s:s + n]])
    k = os.path.relpath(f, '/repo')
    out[k[:-3]] = {'c': cs, 'uv': uv is not None, 'height': height, 'tan': tan}
json.dump(out, open('/verif/corpus/osm.json', 'w'), separators=(',', ':'))
print(len(out), sum(len(o['c']) > 1 for o in out.values()), sum(o['uv'] for o in out.values()))
