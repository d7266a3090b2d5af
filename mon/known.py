"""Known findings (known-findings.json): defects of the tree that are recorded, not repaired.

F1  Split events are looked for only between the bisectors at the ends of the opposite wall as they
    are at the beginning.  The face of a wall may get wider after a neighboring wall has vanished;
    a split in the wider part is missed.  Identified by the reference: a face that is wider than
    its bisectors (domain.wide).
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid=None):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['known'] if pid in (None, k['property'])]


def allowed(name, cnt):
    """How many hits the finding explains among the calls made (measured: 2 of 100000 calls)."""
    return 1 + cnt['calls'] // 20000


def replay(k):
    """Does the finding still fail on its recorded input?"""
    from . import target, cert, domain
    cs = [[tuple(p) for p in c] for c in k['contours']]
    try:
        o = target.run(cs)
        return bool(cert.roof(cs, o.cidx, o.pts, o.faces, 1.0, 0.0, 0.02))
    except Exception:
        return True
