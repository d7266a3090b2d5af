"""Cases of the checks that hold for every simple footprint: hostile outlines and ordinary ones
without regard to the documented simplifications."""
from . import cases, hostile

FAMS = {
    'hostile': None,
    'lattice': {'lattice': 1},
    'near': {'roundish': 2, 'noisy': 4, 'dense': 2},
    'odd': {'zigzag': 2, 'needle': 1, 'thin': 2, 'scaled': 2, 'koch': 1},
}


class Raw:
    __slots__ = ('fam', 'cs')


def draw(kind, rng, clear=0.01, nmax=80):
    """-> Raw or the reason why there is none."""
    for _ in range(6):
        if kind in FAMS:
            d = hostile.draw(rng, FAMS[kind], clear=clear, nmax=nmax)
        else:
            d = cases.raw(rng, clear=0.05)
        if d:
            r = Raw()
            r.fam, r.cs = d
            return r
    return 'no simple footprint'


def describe(c, g=None):
    return cases.describe(c, g)
