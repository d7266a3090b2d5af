"""Runs one check: spreads its cases over worker processes, watches them, collects what the
monitors observed, writes the evidence file and gives the verdict.

A check is a module in mon.checks with
    ID, TITLE, RULE       text
    PLAN                  {'quick': [(kind, count), ...], 'thorough': [...]}
    run(kind, n, rng)     evaluates one case -> Res
    MINIMUM               events that have to be seen, {counter name: count at the quick tier}
Optional: replay(case) is run(kind, n, rng) with the same arguments.

Verdicts: exit 0 held on everything explored, exit 1 violated (VIOLATION line), exit 2 inconclusive
(too little was observed, or the machinery itself failed).
"""
import collections
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
import concurrent.futures as cf

from . import known, target

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WATCHDOG = 40         # seconds of wall clock per case; only starts the counting of logical steps
STEPS = 20000000      # jumps in the code under test; ordinary cases need fewer than 3 million


class Hang(BaseException):
    pass


class Slow(BaseException):
    pass


class Res:
    """Outcome of a case. bad: list of (code, message); key: hashable identity of what was exercised;
    cnt: what the monitor observed."""
    __slots__ = ('bad', 'key', 'cnt', 'sample', 'skip', 'known')

    def __init__(self, skip=None, key=None):
        self.skip = skip
        self.bad = []
        self.key = key
        self.cnt = {}
        self.sample = None
        self.known = None       # name of the known finding that explains bad

    def see(self, name, k=1):
        self.cnt[name] = self.cnt.get(name, 0) + k

    def fail(self, code, msg):
        self.bad.append((code, msg))


def _alarm(sig, frm):
    raise Slow()


def count_steps(f, limit=STEPS):
    """Calls f() and counts the jumps it takes in the code under test; raises Hang when there are
    more than limit."""
    mon = sys.monitoring
    tid = mon.DEBUGGER_ID
    n = [0]

    def hit(code, a, b):
        if not code.co_filename.startswith(target.REPO):
            return mon.DISABLE
        n[0] += 1
        if n[0] > limit:
            raise Hang()
    mon.use_tool_id(tid, 'steps')
    try:
        mon.register_callback(tid, mon.events.JUMP, hit)
        mon.register_callback(tid, mon.events.BRANCH, hit)
        mon.set_events(tid, mon.events.JUMP | mon.events.BRANCH)
        try:
            f()
        finally:
            mon.set_events(tid, 0)
            mon.register_callback(tid, mon.events.JUMP, None)
            mon.register_callback(tid, mon.events.BRANCH, None)
    finally:
        mon.free_tool_id(tid)
    return n[0]


_mod = None
_seed = 0


def _init(modname, seed):
    global _mod, _seed
    resource.setrlimit(resource.RLIMIT_AS, (5 << 29, 5 << 29))
    signal.signal(signal.SIGALRM, _alarm)
    _mod = importlib.import_module(modname)
    _seed = seed


def rng_of(pid, kind, seed, n):
    return random.Random('%s/%s/%d/%d' % (pid, kind, seed, n))


def one(mod, kind, seed, n):
    """-> Res; a case that doesn't come to an end is run again with its steps counted."""
    signal.signal(signal.SIGALRM, _alarm)
    try:
        signal.setitimer(signal.ITIMER_REAL, WATCHDOG)
        try:
            return mod.run(kind, n, rng_of(mod.ID, kind, seed, n))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Slow:
        pass
    r = Res(key=('hang', kind, n))
    try:
        signal.setitimer(signal.ITIMER_REAL, WATCHDOG * 4)
        try:
            out = []
            count_steps(lambda: out.append(mod.run(kind, n, rng_of(mod.ID, kind, seed, n))))
            return out[0]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        r.fail('hang', 'the call does not come to an end')
        return r
    except Slow:
        return Res(skip='too slow to be decided')


def _chunk(job):
    kind, ns = job
    cnt = collections.Counter()
    keys = set()
    bad = []
    samples = []
    kn = []
    skips = collections.Counter()
    for n in ns:
        try:
            r = one(_mod, kind, _seed, n)
        except MemoryError:
            r = Res(key=(kind, n))
            r.fail('memory', 'the call runs out of memory')
        except Exception:
            return ('error', kind, n, traceback.format_exc())
        if r.skip:
            skips[kind + ': ' + r.skip] += 1
            continue
        cnt['cases ' + kind] += 1
        cnt.update(r.cnt)
        if r.key is not None:
            keys.add(hash(r.key))
        if r.bad and r.known:
            cnt['known finding ' + r.known] += 1
            kn.append((r.known, kind, n, r.bad[:5]))
        elif r.bad:
            bad.append((kind, n, r.bad[:5]))
            if len(bad) >= 3:
                break
        elif r.sample is not None and len(samples) < 1:
            samples.append(r.sample)
    return ('ok', cnt, keys, bad, samples, skips, len(ns), kn)


def main(pid, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    modname = 'mon.checks.' + pid.lower()
    mod = importlib.import_module(modname)
    plan = mod.PLAN[tier] if tier in mod.PLAN else mod.PLAN['quick']
    factor = float(os.environ.get('VERIF_FACTOR', '1'))
    cap = 540 if tier == 'quick' else 780
    jobs = []
    for kind, count in plan:
        count = max(1, int(count * factor))
        size = max(1, min(50, count // 32))
        jobs += [(kind, list(range(i, min(i + size, count)))) for i in range(0, count, size)]
    random.Random(seed).shuffle(jobs)
    cnt, keys, skips = collections.Counter(), set(), collections.Counter()
    bad, samples, tried = [], [], 0
    known_hits = []
    error = None
    capped = False
    ex = cf.ProcessPoolExecutor(min(8, os.cpu_count() or 1), initializer=_init, initargs=(modname, seed))
    try:
        it = iter(jobs)
        pend = set()
        stop = False
        while True:
            while not stop and len(pend) < 24:
                j = next(it, None)
                if j is None:
                    break
                pend.add(ex.submit(_chunk, j))
            if not pend:
                break
            done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in done:
                r = f.result()
                if r[0] == 'error':
                    error = error or r
                    stop = True
                    continue
                _, c, k, b, s, sk, n, kn = r
                cnt += c
                keys |= k
                bad += b
                known_hits += kn
                skips += sk
                tried += n
                if len(samples) < 6:
                    samples += s
            if bad:
                stop = True
            if time.time() - t0 > cap:
                stop = capped = True
    except cf.process.BrokenProcessPool:
        error = ('error', '?', -1, 'a worker process died')
    for p in list((ex._processes or {}).values()):
        if stop or error:
            p.terminate()
    ex.shutdown(wait=False, cancel_futures=True)

    # fixed parts that run once, in this process
    if hasattr(mod, 'once') and not error and not bad:
        for name, r in mod.once(seed, tier):
            cnt.update(r.cnt)
            cnt['cases ' + name] += 1
            tried += 1
            if r.key is not None:
                keys.add(hash(r.key))
            if r.bad:
                bad.append((name, 0, r.bad[:5]))

    # known findings: replay their inputs; more hits of one than it explains are a violation
    for k in known.load(pid):
        if known.replay(k):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for name in sorted({h[0] for h in known_hits}):
        hits = [h for h in known_hits if h[0] == name]
        allow = known.allowed(name, cnt)
        if len(hits) > allow:
            for _, kind, n, why in hits[:3]:
                bad.append((kind, n, [('often', '%d cases like this one, the known finding %s explains %d'
                                       % (len(hits), name, allow))] + why))
        else:
            for _, kind, n, why in hits:
                print('KNOWN-FINDING: property=%s %s once more: case %s/%d/%d %s'
                      % (pid, name, kind, seed, n, ' '.join('%s' % w[0] for w in why if w[0] != 'case')))

    seen_enough = True
    lack = []
    for name, m in getattr(mod, 'MINIMUM', {}).items():
        if cnt[name] < m * min(1.0, factor):
            seen_enough = False
            lack.append('%s: %d < %d' % (name, cnt[name], m))
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tried, 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
            'samples': samples[:5] or ['(none)'],
            'observed': dict(sorted(cnt.items())), 'skipped': dict(skips.most_common(40)),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(bad),
    }
    if capped:
        ev['coverage']['stopped_by_time'] = True
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if bad:
        kind, n, why = sorted(bad, key=lambda b: (b[0], b[1]))[0]
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d-%d.json' % (pid, kind, seed, n))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'kind': kind, 'seed': seed, 'n': n, 'why': why,
                       'replay': 'bash run.sh --replay %s' % os.path.relpath(path, HERE)}, f, indent=1, default=str)
        for c, m in why:
            print('  %s: %s' % (c, m))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, HERE)))
        return 1
    if error:
        print('ERROR in %s case %s %s\n%s' % (pid, error[1], error[2], error[3]))
        return 2
    if not seen_enough:
        print('INCONCLUSIVE property=%s: %s' % (pid, '; '.join(lack)))
        return 2
    print('%s held on %d evaluations (%d distinct) in %.1f s' % (pid, tried, len(keys), wall))
    return 0


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module('mon.checks.' + d['property'].lower())
    if d['kind'].startswith('once'):
        for name, r in mod.once(d['seed'], 'quick'):
            if name == d['kind'] and r.bad:
                print(r.bad)
                return 1
        return 0
    r = one(mod, d['kind'], d['seed'], d['n'])
    print(r.skip, r.bad, r.sample)
    return 1 if r.bad else 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
