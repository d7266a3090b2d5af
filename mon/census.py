"""Not a check: measures how the tree behaves per generator family (used to set domains)."""
import sys, random, collections, math, pickle, multiprocessing as mp
from . import geom, gen, refskel, cert, target, domain


def one(a):
    fam, s = a
    rng = random.Random('%s:%d' % (fam, s))
    cs = gen.make(fam, rng)
    if cs is None:
        return None
    cs = target.q32(cs)
    cl = geom.clearance(cs)
    if not geom.is_simple_region(cs, 0.3):
        return None
    f = domain.features(cs)
    f['clear'] = cl
    try:
        c = target.run(cs)
        o = cert.topology(c.cidx, len(c.pts), c.faces)
        o += cert.tiling(cs, c.pts, c.faces, 0.02) if not any(x[0] in ('index', 'short') for x in o) else []
        p, w = cert.planes(c.cidx, c.pts, c.faces, 1.0, 0.0, 0.02) if not o else ([], -1)
    except Exception as e:
        o = [('EXC ' + type(e).__name__, str(e))]
        w = -1
    f['ref'] = f['ref'] is not None; return fam, s, f, o[0][0] if o else 'ok', w


def main():
    N = int(sys.argv[1])
    fams = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] != '-' else list(gen.FAMILIES)
    s0 = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    with mp.Pool(8) as p:
        res = [r for r in p.imap_unordered(one, [(f, s) for s in range(s0, s0 + N) for f in fams], chunksize=100) if r]
    pickle.dump(res, open('/tmp/w/census.pkl', 'wb'))
    print(len(res))


if __name__ == '__main__':
    main()
