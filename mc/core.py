"""Shared machinery of the checks: context, violation reporting, evidence,
known findings, parallel exhaustive enumeration and the explicit-state explorer."""
import json
import os
import sys
import time
import traceback
import multiprocessing as mp
from collections import Counter, deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get('MC_SCRATCH')
THOROUGH = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
TIER = 'thorough' if THOROUGH else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('MC_NPROC', '8'))


class Violation(Exception):
    """A case on which the property fails.  `key` identifies the failing input or
    history (known findings are matched against it), `case` is the replay payload."""

    def __init__(self, key, message, case=None):
        super().__init__(key, message, case)
        self.key, self.message, self.case = key, message, case


def load_known():
    """known_findings.jsonl: one JSON object per line
       {"kind": "known", "property": id, "match": exact key, "what": text}
       {"kind": "fixed", "property": id, "commit": sha, "what": text}   (suppresses nothing)"""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if line and not line.startswith('#'):
                    res.append(json.loads(line))
    return res


class Ctx:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.counts = Counter()
        self.samples = []
        self.assumptions = []
        self.bounds = {}
        self.violations = []      # (key, message, case)
        self.known_hit = {}
        self.extra = {}
        self.known = {k['match']: k for k in load_known()
                      if k.get('kind') == 'known' and k['property'] == pid}

    # -- recording ---------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] += n

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violate(self, key, message, case=None):
        key = str(key)
        if key in self.known:
            self.known_hit[key] = self.known[key]['what']
            return
        if len(self.violations) < int(os.environ.get('MC_MAXV', '50')):
            self.violations.append((key, message, case))
        self.counts['violating_cases'] += 1
        if os.environ.get('MC_FAILFAST'):       # development: the first violation is enough
            print('VIOLATION property=%s %s: %s' % (self.pid, key[:200], str(message)[:200]))
            sys.stdout.flush()
            for p in mp.active_children():
                p.kill()
            os._exit(1)

    def require(self, cond, key, message, case=None):
        if not cond:
            self.violate(key, message, case)
        return cond

    def merge(self, res):
        """merge the result of a worker: dict with counts/samples/violations"""
        for k, v in res.get('counts', {}).items():
            self.counts[k] += v
        for s in res.get('samples', []):
            self.sample(s)
        for k, m, c in res.get('violations', []):
            self.violate(k, m, c)

    # -- finish ------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {
            'states': self.counts.pop('states', 0),
            'transitions': self.counts.pop('transitions', 0),
            'traces_validated_against_impl': self.counts.pop('traces', 0),
            'samples': self.samples or ['(none)'],
            'exhaustive': True,
            'bounds': self.bounds,
            'other_counts': {k: v for k, v in sorted(self.counts.items())},
        }
        cov.update(self.extra)
        ev = {
            'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level,
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(wall, 3),
            'violations': len(self.violations),
            'known_findings': sorted(self.known_hit),
        }
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, default=str, ensure_ascii=False)
        for k in sorted(self.known_hit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known_hit[k]))
        print('%s %s: states=%d transitions=%d traces=%d %s wall=%.1fs' % (
            self.pid, TIER, cov['states'], cov['transitions'],
            cov['traces_validated_against_impl'], dict(self.counts), wall))
        if self.violations:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s.json' % self.pid)
            with open(path, 'w') as fp:
                json.dump([{'key': k, 'message': m, 'case': c} for k, m, c in self.violations],
                          fp, indent=1, default=str, ensure_ascii=False)
            for k, m, c in self.violations[:5]:
                print('  violating case %s: %s' % (k, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0


class Result:
    """What a worker returns."""

    def __init__(self):
        self.counts = Counter()
        self.samples = []
        self.violations = []

    def count(self, name, n=1):
        self.counts[name] += n

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violate(self, key, message, case=None):
        # every distinct key is kept (the parent decides which are known)
        if len(self.violations) < 20000:
            self.violations.append((str(key), message, case))

    def require(self, cond, key, message, case=None):
        if not cond:
            self.violate(key, message, case)
        return cond

    def out(self):
        return {'counts': dict(self.counts), 'samples': self.samples, 'violations': self.violations}


_TASK = {}


def _silent():
    """what the library prints in a worker is not the output of the check"""
    sys.stdout = open(os.devnull, 'w')


def _call(args):
    name, chunk = args
    r = Result()
    try:
        _TASK[name](chunk, r)
    except Violation as v:
        r.violate(v.key, v.message, v.case)
    return r.out()


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def parallel(ctx, fn, items, chunk=None, nproc=None):
    """fn(chunk, Result) over every chunk of items, on all cores (fork).
    An exception of the code under test must be handled by fn; one that escapes
    is an error of the check and propagates."""
    items = list(items)
    nproc = nproc or NPROC
    if chunk is None:
        chunk = max(1, min(500, len(items) // (nproc * 4) + 1))
    cs = chunks(items, chunk)
    name = '%s.%s.%d' % (fn.__module__, fn.__qualname__, id(fn))
    _TASK[name] = fn
    if nproc == 1 or len(cs) <= 1:
        for c in cs:
            ctx.merge(_call((name, c)))
        return
    with mp.get_context('fork').Pool(min(nproc, len(cs)), initializer=_silent) as pool:
        for res in pool.imap_unordered(_call, [(name, c) for c in cs]):
            ctx.merge(res)


def guard(fn, *a, **k):
    """outcome of a call: ('ok', value) | ('err', exception class name)"""
    try:
        return 'ok', fn(*a, **k)
    except RecursionError:
        return 'err', 'RecursionError'
    except Exception as e:
        return 'err', type(e).__name__


def bfs(ctx, initial, ops, step, fingerprint, depth, check):
    """Explicit-state breadth-first search on the real code.

    A state is reconstructed by the driver; `step(state, op)` returns a new state
    (or None when op is disabled), `check(state, op, history)` is evaluated after
    every transition.  States with equal fingerprints are merged."""
    seen = {fingerprint(initial)}
    q = deque([(initial, ())])
    ctx.count('states')
    while q:
        s, hist = q.popleft()
        if len(hist) >= depth:
            continue
        for op in ops(s):
            n = step(s, op)
            if n is None:
                continue
            ctx.count('transitions')
            check(n, op, hist + (op,))
            f = fingerprint(n)
            if f not in seen:
                seen.add(f)
                ctx.count('states')
                q.append((n, hist + (op,)))


def main(pid):
    import importlib
    import signal
    import threading
    ctx = None

    def late(*_):
        # the code under test does not terminate on some explored case
        ctx.violate('timeout', 'exploration did not terminate in time', None)
        code = ctx.finish()
        sys.stdout.flush()
        for p in mp.active_children():
            p.kill()
        os._exit(code)

    mod = importlib.import_module('mc.checks.' + pid.lower())
    ctx = Ctx(pid, getattr(mod, 'LEVEL', 'model_checking'))
    if not THOROUGH:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(780)
    try:
        mod.run(ctx)
    except Violation as v:
        ctx.violate(v.key, v.message, v.case)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        # the harness itself never raises on a tree that behaves as specified: an
        # exception that reaches this point comes from behaviour it did not expect
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        ctx.violate('exception', 'unexpected %s: %s' % (type(e).__name__, e), tb)
    return ctx.finish()
