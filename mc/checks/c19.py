"""C19 what a database answers from its caches is what it computes from its files."""
import itertools
import os
import sys
import threading
from mc import dbkit as K, sched
from mc.core import parallel, guard, THOROUGH

# -- catalogue of the listing: canonical IEML -> (type, paradigm, class, cardinality, morphemes it needs)
FACTS = {
    'O:M:.': ('morpheme', True, 'Verb', 'root_paradigm'),
    'O:S:.': ('morpheme', True, 'Verb', 'paradigm'),
    'U:M:.': ('morpheme', True, 'Verb', 'paradigm'),
    'a.': ('morpheme', False, 'Verb', 'singular_sequence'),
    'y.': ('morpheme', False, 'Verb', 'singular_sequence'),
    'M:O:.': ('morpheme', True, 'Noun', 'root_paradigm'),
    'M:U:.': ('morpheme', True, 'Noun', 'paradigm'),
    'E:O:.': ('morpheme', True, 'Auxiliary', 'root_paradigm'),
    'E:A:.': ('morpheme', False, 'Auxiliary', 'singular_sequence'),
    'y. a.': ('polymorpheme', False, 'Verb', 'singular_sequence'),
    'a. m1(y. o.)': ('polymorpheme', True, 'Verb', 'paradigm'),
    'a. c.': ('polymorpheme', False, 'Noun', 'singular_sequence'),
    '()(a.)': ('lexeme', False, 'Verb', 'singular_sequence'),
    '(a.)(c.)': ('lexeme', False, 'Noun', 'singular_sequence'),
    '()(a. m1(y. o.))': ('lexeme', True, 'Verb', 'paradigm'),
    '[! E:A:.  ()(a.)]': ('word', False, None, 'singular_sequence'),
    '[! E:A:.  ()(a. m1(y. o.))]': ('word', True, None, 'paradigm'),
}
TYPE = ['morpheme', 'polymorpheme', 'lexeme', 'word']
SING = {'O:M:.': 'a. y. o. e. u. i.'.split(), 'M:O:.': 'j. g. h. c. p. x.'.split(), 'E:O:.': ['E:A:.', 'E:U:.']}


def atoms(u):
    import re
    return re.findall(r"[^\s()\[\]!]+[.:]", u.replace('m1', ' '))


def entry(e):
    # how the class of a word is named is not specified
    return (e['ieml'], e['type'], e['paradigm'], None if e['type'] == 'word' else e['class'], e['cardinality'],
            tuple((k, l, tuple(v)) for k in sorted(e) if isinstance(e[k], dict) for l, v in sorted(e[k].items())))


def listing(l):
    """comparable content of get_list(), order included (ties of the index in any order)"""
    return [sorted(map(entry, g)) for _, g in itertools.groupby(l, key=lambda e: e['index'])], [e['index'] for e in l]


def dictionary(d):
    """comparable content of a dictionary, through its public functions"""
    names = [str(s) for s in d.scripts]
    rel = sorted(d.relations.pandas().itertuples(index=False, name=None))
    t = d.tables
    return names, [d.index[s] for s in d.scripts], sorted(map(str, t.roots)), [str(t.root(x)) for x in d.scripts], rel


READS = {'dictionary': lambda db: dictionary(db.get_dictionary()), 'list': lambda db: listing(db.get_list())}


def outcome(fn, *a):
    try:
        return 'ok', fn(*a)
    except Exception as e:
        return 'err', '%s: %s' % (type(e).__name__, e)


_TRUE = {}


def truth(folder, what):
    """what a database without cache computes from the same files"""
    key = (what, tuple(sorted(K.snapshot(folder, skip=('.git', 'cache')).items())))
    key = (key[0], tuple((p, c) for p, c in key[1] if not p.startswith('.')))
    if key not in _TRUE:
        _TRUE[key] = outcome(READS[what], K.database(folder))
    return _TRUE[key]


# -- the listing against the model ------------------------------------------------------
def expected(rows, roots):
    """entries of the listing, for descriptor rows {(ieml, lang, desc): values} and root paradigms"""
    known = {s for r in roots for s in SING[r]}
    defined = {u for u, _, _ in rows if FACTS[u][0] == 'morpheme' and FACTS[u][1]}
    known |= {u for u in defined if any(u in under(r) for r in roots)}
    out = []
    for u in sorted({k[0] for k in rows}):
        if not all(a in known for a in atoms(u)):
            continue
        ty, par, cl, card = FACTS[u]
        ds = sorted({d for x, _, d in rows if x == u})
        out.append((u, ty, par, cl, card,
                    tuple((d, l, tuple(rows.get((u, l, d), ()))) for d in ds for l in sorted(K.LANG))))
    return out


def under(r):
    return {'O:M:.': ['O:M:.', 'O:S:.', 'U:M:.'], 'M:O:.': ['M:O:.', 'M:U:.'], 'E:O:.': ['E:O:.']}[r]


def listings(chunk, r):
    K.quiet()
    for roots, us in chunk:
        folder = K.scratch()
        db = K.database(folder)
        rows = {}
        for x in roots:
            db.add_structure(x, 'is_root', True)
        for i, u in enumerate(dict.fromkeys(tuple(roots) + tuple(us))):
            for l, d, v in [('fr', 'translations', 'v%d' % i), ('en', 'tags', 'w "x"'), ('en', 'tags', 'z%d' % i)][:1 + i % 3]:
                db.add_descriptor(u, l, d, v)
                rows.setdefault((u, l, d), []).append(v)
        key = 'list %s | %s' % (' '.join(roots), ' , '.join(us))
        r.count('states')
        r.count('traces')
        st, out = outcome(db.get_list)
        if st != 'ok':
            r.violate(key, out, key)
        else:
            got = sorted(map(entry, out))
            r.require(got == expected(rows, roots), key, 'lists %s, expected %s' % (got, expected(rows, roots)), key)
            ranks = [TYPE.index(e['type']) for e in out]
            r.require(ranks == sorted(ranks), key, 'not ordered by type: %s' % [e['ieml'] for e in out], key)
            order = [str(s) for s in db.get_dictionary().scripts]
            ms = [order.index(e['ieml']) for e in out if e['type'] == 'morpheme']
            r.require(ms == sorted(ms), key, 'morphemes not in the order of the dictionary', key)
        K.wipe(folder)


# -- histories ---------------------------------------------------------------------------
WRITES = [
    ('add', 'O:S:.', 'fr', 'translations', 'p'), ('remove', 'O:S:.', 'fr', 'translations', 'p'), ('remove', 'O:S:.', None, None, None),
    ('add', 'a.', 'fr', 'translations', 's'), ('remove', 'a.', None, None, None),
    ('add', 'y. a.', 'en', 'tags', 'm'), ('remove', 'y. a.', None, None, None),
    ('add', '()(a.)', 'fr', 'comments', 'l'), ('add', '[! E:A:. ()(a.)]', 'fr', 'translations', 'w'), ('remove', '[! E:A:. ()(a.)]', 'fr', 'translations', None),
    ('add', '()(a.)', 'en', 'tags', 'l2'),
    ('sadd', 'O:M:.', 'inhibition', 'twin'), ('sremove', 'O:M:.', 'inhibition', None),
    ('sadd', 'E:O:.', 'is_root', True), ('sremove', 'E:O:.', None, None),
]
READERS = [('read', i, w) for i in (0, 1) for w in ('dictionary', 'list')]
DAMAGE = [('damage', 'truncate'), ('damage', 'empty'), ('damage', 'delete')]


def build(folder):
    db = K.database(folder)
    db.add_structure('O:M:.', 'is_root', True)
    db.add_descriptor('O:M:.', 'fr', 'translations', 'root')
    db.add_descriptor('E:O:.', 'fr', 'translations', 'e')
    db.add_descriptor('a.', 'fr', 'translations', 'aa')


def handles(folder, where):
    """two database objects; the caches live in the database folder, in a folder of their own, or in a folder given with a relative path"""
    if where == 'inside':
        c = None
    else:
        c = folder + '.cache'
        os.makedirs(c, exist_ok=True)
    return [K.database(folder, use_cache=True, cache_folder=c) for _ in (0, 1)], c or folder


def write(db, op):
    if op[0] == 'add':
        db.add_descriptor(*op[1:])
    elif op[0] == 'remove':
        db.remove_descriptor(*op[1:])
    elif op[0] == 'sadd':
        db.add_structure(*op[1:])
    else:
        db.remove_structure(*op[1:])


def caches(c):
    return sorted(n for n in os.listdir(c) if n.startswith('.') and os.path.isfile(os.path.join(c, n)))


def histories(chunk, r):
    """breadth-first over the histories of the operations of one group from one first step; a state is the content of the folders"""
    K.quiet()
    for where, ops, depth, first in chunk:
        folder = K.scratch()
        dbs, c = handles(folder, where)
        build(folder)
        start = (K.snapshot(folder), K.snapshot(c) if c != folder else None)

        def put(st):
            K.restore(folder, st[0])
            if st[1] is not None:
                K.restore(c, st[1])

        def take():
            return K.snapshot(folder), K.snapshot(c) if c != folder else None

        def fp(st):
            return tuple(sorted(st[0].items())), tuple(sorted(st[1].items())) if st[1] is not None else None
        seen = {fp(start)}
        todo = [(start, ())]
        while todo:
            st, hist = todo.pop()
            for op in (ops if hist else [first]):
                put(st)
                h = hist + (op,)
                key = '%s: %s' % (where, '; '.join(map(str, h)))
                r.count('transitions')
                if op[0] == 'read':
                    got = outcome(READS[op[2]], dbs[op[1]])
                    want = truth(folder, op[2])
                    r.count('traces')
                    r.require(want[0] == 'ok', key, 'without cache the %s is %s' % (op[2], want), [where, list(h)])
                    r.require(got == want, key, 'the %s is %s instead of %s' % (op[2], got, want), [where, list(h)])
                elif op[0] == 'damage':
                    for n in caches(c):
                        p = os.path.join(c, n)
                        if op[1] == 'delete':
                            os.remove(p)
                        else:
                            os.truncate(p, 0 if op[1] == 'empty' else os.path.getsize(p) // 2)
                else:
                    o = outcome(write, dbs[0], op)
                    r.require(o[0] == 'ok', key, o[1], [where, list(h)])
                n = take()
                f = fp(n)
                if f not in seen:
                    seen.add(f)
                    r.count('states')
                    if len(h) < depth:
                        todo.append((n, h))
        K.wipe(folder)
        if c != folder:
            K.wipe(c)


# -- torn cache files ---------------------------------------------------------------------
def torn(chunk, r):
    """a cache file cut at every byte"""
    K.quiet()
    for what, lo, hi in chunk:
        folder = K.scratch()
        build(folder)
        dbs, c = handles(folder, 'apart')
        READS[what](dbs[0])
        want = truth(folder, what)
        snap = K.snapshot(c)
        name = [n for n in snap if ('dictionary' if what == 'dictionary' else 'usls') in n]
        for n in name:
            for k in range(lo, min(hi, len(snap[n]))):
                K.restore(c, {**snap, n: snap[n][:k]})
                got = outcome(READS[what], dbs[0])
                r.count('states')
                r.count('traces')
                key = 'cache of the %s cut at %d of %d bytes' % (what, k, len(snap[n]))
                r.require(got == want, key, 'the %s is %s' % (what, str(got)[:300]), key)
                got = outcome(READS[what], dbs[1])
                r.require(got == want, key, 'then the %s is %s' % (what, str(got)[:300]), key)
        K.wipe(folder)
        K.wipe(c)


# -- crashes and schedules -----------------------------------------------------------------
def lib():
    import ieml
    p = os.path.dirname(os.path.abspath(ieml.__file__)) + '/'
    return (p + 'commons.py', p + 'ieml_database/ieml_database.py')


# comparisons and the like of the scripts
PURE = {'__str__', '__hash__', '__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__', '__iter__', '__len__', '__contains__', 'tree_iter', '__get__', '__new__', '__call__'}


def prepare(pre):
    folder = K.scratch()
    build(folder)
    dbs, c = handles(folder, 'apart')
    for op in pre:
        if op[0] == 'read':
            READS[op[2]](dbs[op[1]])
        else:
            write(dbs[0], op)
    return folder, dbs, c


def body(db, op):
    return (lambda: READS[op[2]](db)) if op[0] == 'read' else (lambda: write(db, op))


def final(folder, c):
    """after the run, every reader of a fresh database object answers from the files"""
    dbs, _ = handles(folder, 'apart')
    assert all(truth(folder, w)[0] == 'ok' for w in READS)
    return [(w, outcome(READS[w], dbs[0]) == truth(folder, w), outcome(READS[w], dbs[1]) == truth(folder, w)) for w in READS]


def crash_at(pre, op, k):
    """run op in a child that dies at its k-th line of the library; returns (lines run, died)"""
    folder, dbs, c = prepare(pre)

    def go():
        n = [0]
        files = lib()

        def local(frame, event, arg):
            if event == 'line':
                n[0] += 1
                if n[0] == k:
                    os._exit(7)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(files) and frame.f_code.co_name not in sched.SKIP else None
        sys.settrace(tracer)
        try:
            body(dbs[0], op)()
        finally:
            sys.settrace(None)
        return n[0]
    st, out = sched.forked(go)
    res = final(folder, c)
    K.wipe(folder)
    K.wipe(c)
    return st, out, res


PRES = [(), (('read', 0, 'list'),), (('read', 0, 'list'), ('add', 'O:S:.', 'fr', 'translations', 'p'))]


def crashes(chunk, r):
    K.quiet()
    for pi, op, k in chunk:
        st, out, res = crash_at(PRES[pi], op, k)
        r.count('states')
        r.count('traces')
        key = 'crash of %s at line %d after %s' % (op, k, PRES[pi])
        r.require(all(a and b for _, a, b in res), key, 'afterwards the cached answers are wrong: %s' % (res,), key)


A, AL, W = ('read', 0, 'dictionary'), ('read', 0, 'list'), ('add', 'O:S:.', 'fr', 'translations', 'p')
B, BL = ('read', 1, 'dictionary'), ('read', 1, 'list')
WD = ('remove', 'O:S:.', None, None, None)
WS = ('add', '()(a.)', 'fr', 'comments', 'l')
# history before, the threads, preemption bound quick/thorough
RACES = [
    ('two readers, no cache', (), [A, B], 1, 2),
    ('two readers, stale cache', (A, W), [A, B], 1, 2),
    ('reader against a writer', (), [A, W], 1, 2),
    ('reader of a fresh cache against a writer', (A,), [A, W], 1, 2),
    ('reader of a stale cache against a writer', (A, WS), [AL, W], 1, 1),
    ('reader against a removal', (W,), [A, WD], 1, 2),
    ('reader of a fresh cache against a removal', (W, A), [A, WD], 1, 2),
    ('listing against a writer of a lexeme', (AL,), [BL, WS], 1, 1),
    ('two listings, stale cache', (AL, WS), [AL, BL], 1, 1),
]


_READY = {}


def ready(si):
    """the folders before the race and the answers of the readers then (computed once); the answers afterwards are memoized too"""
    if si not in _READY:
        name, pre, ops, _, _ = RACES[si]
        folder, dbs, c = prepare(pre)
        _READY[si] = (K.snapshot(folder), K.snapshot(c), {o: truth(folder, o[2]) for o in ops if o[0] == 'read'})
        for w in READS:
            truth(folder, w)
        for o in ops:
            if o[0] != 'read':
                write(dbs[0], o)
        for w in READS:
            truth(folder, w)
        K.wipe(folder)
        K.wipe(c)
    return _READY[si]


def make(si):
    def mk():
        name, pre, ops, _, _ = RACES[si]
        files, cached, before = ready(si)
        folder = K.scratch()
        dbs, c = handles(folder, 'apart')
        K.restore(folder, files)
        K.restore(c, cached)
        bodies = [body(dbs[i], o) for i, o in enumerate(ops)]

        def observe():
            after = {o: truth(folder, o[2]) for o in ops if o[0] == 'read'}
            res = final(folder, c)
            K.wipe(folder)
            K.wipe(c)
            return before, after, res
        return bodies, observe
    return mk


def judge(r, si, key, out):
    name, pre, ops, _, _ = RACES[si]
    res, err, steps, obs, trace = out
    r.count('traces')
    r.count('transitions', steps)
    if err:
        r.violate(key, err, key)
        return None
    before, after, fin = obs
    adds = all(o[0] in ('read', 'add') for o in ops)
    for o, got in zip(ops, res):
        if o[0] != 'read':
            r.require(got[0] == 'ok', key, '%s: %s' % (o, got), key)
        elif adds:
            r.require(got in (before[o], after[o]), key, '%s gives %s, neither the answer before nor after' % (o, str(got)[:400]), key)
        else:
            r.require(got[0] == 'ok', key, '%s: %s' % (o, got), key)
    r.require(all(a and b for _, a, b in fin), key, 'afterwards the cached answers are wrong: %s' % (fin,), key)
    return steps, trace


def races(chunk, r):
    K.quiet()
    files = lib()
    for si, first, prefix, bound in chunk:
        stack = [prefix]
        while stack:
            plan = stack.pop()
            key = '%s first=%d plan=%s' % (RACES[si][0], first, sorted(plan.items()))
            st, out = sched.run_schedule(make(si), plan, first, files, ('line',))
            if st != 'ok':
                r.violate(key, 'the run ends with %s' % out, key)
                continue
            x = judge(r, si, key, out)
            if x and len(plan) < bound:
                for k in range(max(plan, default=-1) + 1, x[0]):
                    for t in range(len(RACES[si][2])):
                        if t != x[1][k]:
                            stack.append({**plan, k: t})


def subsets(n):
    us = [u for u in FACTS if u not in SING]
    for k in range(n + 1):
        yield from itertools.combinations(us, k)


def run(ctx):
    import numpy, pandas, scipy.sparse, scipy.sparse.csgraph, pygit2, tqdm, bidict, concurrent.futures.thread, ply.yacc, ply.lex, subprocess, csv
    tqdm.tqdm.monitor_interval = 0
    sched.install()
    from ieml.ieml_database import IEMLDatabase
    from ieml.usl.usl import usl
    usl('a.')
    sched.uninstall()
    sched.SKIP = PURE
    roots = [(), ('O:M:.',), ('M:O:.', 'O:M:.'), ('E:O:.', 'O:M:.'), ('E:O:.', 'M:O:.', 'O:M:.')]
    parallel(ctx, listings, [(x, us) for x in roots for us in subsets(3 if THOROUGH else 2)])
    tasks = []
    wide = WRITES + READERS + DAMAGE[:1]
    for where in ('inside', 'apart'):
        d = 4 if THOROUGH else 3
        tasks += [(where, wide, d, f) for f in wide]
        deep = [WRITES[0], WRITES[2], WRITES[11], WRITES[12], READERS[0], READERS[1], DAMAGE[0]]
        tasks += [(where, deep, d + 2, f) for f in deep]
    parallel(ctx, histories, tasks, chunk=1)
    sizes = {}
    for what in READS:
        folder = K.scratch()
        build(folder)
        dbs, c = handles(folder, 'apart')
        fd = os.dup(2)
        K.quiet()
        READS[what](dbs[0])
        os.dup2(fd, 2)
        sizes[what] = max(len(v) for n, v in K.snapshot(c).items() if ('dictionary' if what == 'dictionary' else 'usls') in n)
        K.wipe(folder)
        K.wipe(c)
    if THOROUGH:
        parallel(ctx, torn, [(w, lo, lo + 100) for w, n in sizes.items() for lo in range(0, n, 100)], chunk=1)
    else:
        parallel(ctx, torn, [('list', lo, lo + 50) for lo in range(0, sizes['list'], 50)] +
                 [('dictionary', lo, lo + 25) for lo in list(range(0, 200, 25)) + list(range(sizes['dictionary'] - 200, sizes['dictionary'], 25))], chunk=1)
    tasks = []
    for pi, pre in enumerate(PRES):
        for op in ([A, AL] if THOROUGH else [A]) + [W][:THOROUGH]:
            fd = os.dup(2)
            K.quiet()
            st, out, res = crash_at(pre, op, 10 ** 9)
            os.dup2(fd, 2)
            ctx.require(st == 'ok', 'crash %s' % (op,), 'the operation fails: %s' % (out,))
            tasks += [(pi, op, k) for k in range(1, out + 1)]
    parallel(ctx, crashes, tasks, chunk=8)
    tasks = []
    fd = os.dup(2)
    K.quiet()
    for si, (name, pre, ops, bq, bt) in enumerate(RACES):
        ready(si)
        for first in range(len(ops)):
            st, out = sched.run_schedule(make(si), {}, first, lib(), ('line',))
            if st != 'ok':
                ctx.violate(name, 'sequential run fails: %s' % out, name)
                continue
            x = judge(ctx, si, name, out)
            if x:
                steps, trace = x
                tasks += [(si, first, {k: t}, bt if THOROUGH else bq) for k in range(steps) for t in range(len(ops)) if t != trace[k]]
    os.dup2(fd, 2)
    parallel(ctx, races, tasks, chunk=4)
    ctx.count('schedules', len(tasks))
    ctx.sample({'catalogue': sorted(FACTS)})
    ctx.sample({'writes': [str(w) for w in WRITES]})
    ctx.bounds = {'histories': 'all sequences of 3 (4) of 20 operations, of 5 (6) of 7 operations, cache inside or outside the database folder',
                  'torn files': 'every cut of the listing cache; quick: the first and last 200 bytes of the dictionary cache, thorough: every cut',
                  'crash points': 'every executed line of commons.py and ieml_database.py', 'schedules': '2 threads, 1 (2) preemptions at every line',
                  'listing': 'all sets of <= 2 (3) of 14 USLs x 5 sets of roots'}
    ctx.assumptions = ['two database objects in two threads stand for two processes: they share only the files']
