"""C23 the parsers can always be built, and parse the same, whatever the cache of their tables holds."""
import itertools
import os
import pickle
import sys
from mc import dbkit as K, faults, procs, sched
from mc.core import parallel, THOROUGH

NAMES = ('morpheme', 'ieml', 'path')
SAMPLES = {
    'morpheme': ['a.', 'O:M:.', 'E:', 'b.-S:.U:.-\'', 'wa.+wo.', '(S:+B:)U:.', 's.u.-', 't.i.-s.i.-\'', 'M:M:.o.-M:M:.o.-E:.-+s.u.-\'',
                 'a', 'a..', 'S:+', 'a.+b:', '', 'S:U:', '*O:M:.**', '~'],
    'ieml': ['a.', 'a. b.', 'wa. m1(S: B:)', '()(a.)', 'E:A:. ()(a.)', '[E:A:. ()(a.)]', '[! E:A:. ()(a.)]',
             '[! E:A:. ()(a.) > E:.n.- ()(b. c.)]', '[! E:A:. ()(b.-S:.A:.-\'S:.-\'S:.-\',)]', '[! E:A:.', '() ()', 'm0(', '[>a.]', '[! ]'],
    'path': ['>', '>content', '>constant', '>flexion>E:U:.', '>role>! E:A:.>content>group_0>a.', '>role>E:A:. E:U:.', '>group_1 2>b.', '>constant>a.',
             '>initiator', '>role>initiator', '>>', 'content', '>group', '> constant >', '>role', '>a. b.'],
}


def build(name):
    """the code under test is imported by the process that uses it"""
    if name == 'morpheme':
        from ieml.dictionary.script.parser import ScriptParser
        return ScriptParser()
    if name == 'ieml':
        from ieml.usl.parser import IEMLParser
        return IEMLParser()
    from ieml.usl.decoration.parser.parser import PathParser
    return PathParser()


def parsed(names):
    """what the parsers make of the samples, in the caller's process"""
    os.environ['XDG_CACHE_HOME'], os.environ['XDG_DATA_HOME'] = os.path.join(D['dir'], 'cache'), os.path.join(D['dir'], 'data')
    K.quiet()
    out = {}
    for n in names:
        p = build(n)
        for s in SAMPLES[n]:
            try:
                v = p.parse(s)
                out[n, s] = (type(v).__name__, str(v))
            except RecursionError:
                raise
            except Exception as e:
                out[n, s] = ('error', type(e).__name__)
    return out


D = {}      # the folder of the case, what to expect


def setup(files=None, locked=False):
    D['dir'] = K.scratch('parsers')
    for sub in ['data', 'cache'] + (D['dirs'] if files else []):
        os.makedirs(os.path.join(D['dir'], sub), exist_ok=True)
    for p, c in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(D['dir'], p)), exist_ok=True)
        with open(os.path.join(D['dir'], p), 'wb') as fp:
            fp.write(c)
    return D['dir']


def tables(d):
    """the files below the cache folder"""
    res = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f), 'rb') as fp:
                res[os.path.relpath(os.path.join(b, f), d)] = fp.read()
    return res


def judge(r, key, got, names, case=None):
    if not r.require(got[0] == 'ok', key, 'the parsers cannot be built: %s' % (got[1],), case):
        return
    for k, v in got[1].items():
        r.require(v == D['want'][k], key, '%s parser on %r: %s, expected %s' % (k + (v, D['want'][k])), case)


SETTLED = set()


def aftermath(r, key):
    """the fresh processes that follow, until the files do not change (the same files are tried once)"""
    for n in ('next', 'one after', 'third'):
        before = tuple(sorted((p, c) for p, c in tables(D['dir']).items()))
        if before in SETTLED:
            return
        got = sched.forked(lambda: parsed(NAMES))
        bad = len(r.violations)
        judge(r, '%s; the %s process' % (key, n), got, NAMES)
        if len(r.violations) > bad:
            return
        SETTLED.add(before)
    left = tables(D['dir'])
    r.require(all(left.get(p) == c for p, c in D['files'].items()), key, 'the cache is not repaired: %s' %
              {p: (len(left[p]) if p in left else 'missing') for p, c in D['files'].items() if left.get(p) != c})


# -- what the files hold --------------------------------------------------------------
def fillings(good, others):
    import ply.yacc
    v = pickle.dumps(ply.yacc.__tabversion__, 0)
    res = {'empty': b'', 'garbage': b'\x80\x93garbage\n' * 9, 'text': b'not a table', 'dot': b'.', 'old version': pickle.dumps('0.1', 0) + good[len(v):],
           'other object': pickle.dumps({'a': [1, 2]}), 'only the version': v, 'twice': good + good, 'zeros': bytes(len(good)),
           'bad class': b'cnowhere\nNothing\n.', 'bad types': v + b''.join(pickle.dumps(x, 0) for x in ('LALR', 'sig', 3, 4, 5))}
    for i, o in enumerate(others):
        res['start of another table, %d' % i] = o[:len(o) // 2]
    step = max(1, len(good) // (400 if THOROUGH else 40))
    for i in sorted(set(range(0, len(good), step)) | set(range(8)) | set(range(len(good) - 8, len(good)))):
        res['cut at %d' % i] = good[:i]
    return res


def contents(chunk, r):
    for files, key in chunk:
        d = setup(files)
        r.count('states')
        r.count('traces', 2)
        r.count('transitions', 2)
        aftermath(r, key)
        K.wipe(d)


# -- faults ---------------------------------------------------------------------------
def points(chunk, r):
    for start, files, mode, k, err in chunk:
        d = setup(files)
        key = '%s; %s at the call %d' % (start, {faults.DIE: 'crash', faults.TORN: 'torn write', faults.FAIL: 'errno %d' % err}[mode], k)
        out = faults.child(os.path.join(d, 'cache'), mode, k, lambda: parsed(NAMES), err)
        r.count('transitions')
        r.count('states')
        r.count('traces', 3)
        if mode == faults.FAIL:
            # (a folder of the cache that cannot be made is an error of the import)
            if out[0] == 'ok':
                judge(r, key, ('ok', out[1]), NAMES)
            elif start != 'none':
                r.violate(key, 'the failed call makes the construction fail: %s' % (out,))
        aftermath(r, key)
        K.wipe(d)


# -- concurrent processes ----------------------------------------------------------------
def clear():
    """the user empties the cache"""
    for b, _, fs in os.walk(os.path.join(D['dir'], 'cache')):
        for f in sorted(fs):
            if f.endswith('.pickle'):
                os.remove(os.path.join(b, f))


def schedule(start, files, kinds, order, plan, r):
    """one schedule, returns the plans with one more preemption"""
    d = setup(files)
    bodies = [clear if k == 'clear' else (lambda k=k: parsed(k.split('+'))) for k in kinds]
    res, seg = procs.run(os.path.join(d, 'cache'), bodies, list(order), plan)
    key = 'start %s; processes %s, order %s, preempted after %s calls' % (start, ' | '.join(kinds), order, list(plan))
    r.count('transitions', sum(s[1] for s in seg))
    r.count('schedules')
    r.count('states')
    r.count('traces')
    for k, g in zip(kinds, res):
        if k != 'clear':
            judge(r, key, g, k.split('+'))
    aftermath(r, key)
    K.wipe(d)
    return procs.extensions(plan, seg)


def schedules(chunk, r):
    for start, files, kinds, order, plan, depth in chunk:
        todo = [plan]
        while todo:
            p = todo.pop()
            more = schedule(start, files, kinds, order, p, r)
            if len(p) < depth:
                todo += more


def warm():
    """the compiled regular expressions are kept by `re`, the modules are not"""
    setup()
    parsed(NAMES)
    K.wipe(D['dir'])
    for m in [m for m in sys.modules if m == 'ieml' or m.startswith('ieml.')]:
        del sys.modules[m]


def run(ctx):
    faults.ensure()
    import numpy, pandas, pygit2, ply.yacc, bidict, tqdm, scipy.sparse     # not ieml
    fd = os.dup(2)
    K.quiet()
    warm()
    D['want'], files = {}, {}
    for n in NAMES:
        d = setup()
        out = sched.forked(lambda: parsed([n]))
        if out[0] != 'ok':
            return ctx.violate('empty cache', 'the %s parser cannot be built: %s' % (n, out[1]))
        D['want'].update(out[1])
        files.update(tables(d))
        D['dirs'] = [os.path.relpath(os.path.join(b, x), d) for b, xs, _ in os.walk(d) for x in xs]
        K.wipe(d)
    for n in NAMES:
        s = SAMPLES[n][1]
        ctx.require(D['want'][n, s][1] == s, 'empty cache', 'the %s parser gives %s for %r' % (n, D['want'][n, s], s))
    for k, v in sorted(D['want'].items()):
        ctx.count('samples that parse' if v[0] != 'error' else 'samples refused')
    D['files'] = {p: c for p, c in files.items() if p.endswith('.pickle')}
    paths = sorted(p for p in files if p.endswith('.pickle'))
    ctx.extra['files'] = {p: len(files[p]) for p in paths}
    # the files
    cases = []
    full = {p: files[p] for p in paths}
    for p in paths:
        for what, c in fillings(full[p], [full[q] for q in paths if q != p]).items():
            cases.append(({**full, p: c}, '%s: %s' % (os.path.basename(p), what)))
            if not what.startswith('cut'):
                cases.append(({p: c}, '%s: %s, the others missing' % (os.path.basename(p), what)))
        cases.append(({q: full[q] for q in paths if q != p}, '%s missing' % os.path.basename(p)))
    for what in ('empty', 'garbage', 'old version', 'bad types'):
        cases.append(({p: fillings(full[p], [])[what] for p in paths}, 'all: %s' % what))
    parallel(ctx, contents, cases, chunk=4)
    # faults
    starts = {'none': {}, 'complete': full, 'torn': {p: full[p][:len(full[p]) // 2] for p in paths}, 'empty': {p: b'' for p in paths},
              'one missing': {p: full[p] for p in paths[1:]}}
    tasks = []
    for s, f in starts.items():
        d = setup(f)
        out = faults.child(os.path.join(d, 'cache'), faults.COUNT, -1, lambda: parsed(NAMES))
        K.wipe(d)
        if out[0] != 'ok':
            ctx.violate('start %s' % s, 'the parsers cannot be built: %s' % (out,))
            continue
        ctx.extra.setdefault('points', {})[s] = out[2]
        tasks += [(s, f, m, k, e) for k in range(1, out[2] + 1)
                  for m, e in ((faults.DIE, 0), (faults.TORN, 0), (faults.FAIL, faults.ENOSPC), (faults.FAIL, faults.EACCES))]
    parallel(ctx, points, tasks, chunk=4)
    # schedules
    todo = []
    every = '+'.join(NAMES)
    for s, f in starts.items():
        todo += [(s, f, kinds, o, 1 + THOROUGH) for kinds in ((every, every), (every, 'clear')) for o in itertools.permutations(range(2))
                 if kinds[0] != kinds[1] or o == (0, 1)]
        for n in NAMES:
            todo.append((s, f, (n, n), (0, 1), 2 + THOROUGH if n == 'morpheme' and s in ('none', 'torn', 'complete') else 1 + THOROUGH))
            if s in ('none', 'torn') and n == 'morpheme':
                todo += [(s, f, k + (n,), o, 1 + THOROUGH) for k in ((n, n), (n, 'clear')) for o in ((0, 1, 2), (0, 2, 1)) if k[1] != n or o[1] == 1]
    items = []
    for s, f, kinds, o, depth in todo:
        more = schedule(s, f, kinds, o, (), ctx)
        ctx.extra.setdefault('first cuts', {})['%s %s %s' % (s, ' | '.join(kinds), o)] = len(more)
        items += [(s, f, kinds, o, p, depth) for p in more]
    parallel(ctx, schedules, items, chunk=1)
    os.dup2(fd, 2)
    ctx.bounds = {'contents': 'every file missing, torn (cut at every step of a fixed grid), or one of 12 other contents',
                  'crash and fault points': 'every call below the cache folder, from 5 states of the cache: before it, torn write, ENOSPC, EACCES',
                  'schedules': '2 processes building all the parsers: <= 1 (2) preemptions; one parser: <= 2 (3); 3 processes: <= 1 (2); and one that empties the cache'}
    ctx.assumptions = ['the process dies, the system does not', 'tables of another grammar with the right version and signature are not considered']
