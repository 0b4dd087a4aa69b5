"""C16 the dictionary holds exactly the paradigms of its roots, each at its place (parent, rank); C17 its relations.

The shared part: universe of dictionaries, construction on the real code, reference model of tables."""
import itertools
from mc.core import parallel, guard, THOROUGH

_S = {}


def S(x):
    from ieml.dictionary.script import script
    if x not in _S:
        _S[x] = script(x)
    return _S[x]


def den(o):
    return frozenset(map(str, o.singular_sequences))


def make(paradigms, rows):
    """the real dictionary of a list of paradigm strings and of structure rows (ieml, key, value)"""
    import pandas
    from ieml.dictionary.dictionary import Dictionary
    from ieml.ieml_database.ieml_database import Structure
    return Dictionary(paradigms, Structure(pandas.DataFrame([list(x) for x in rows], columns=['ieml', 'key', 'value'])))


# -- reference model --------------------------------------------------------------
class Bad(Exception):
    pass


def shape(o):
    """the extent of the table in its first two dimensions and the coordinates of its cells"""
    c = o.cells[0]
    return c.shape, {str(c[i, j, k]): (i, j, k) for i in range(c.shape[0]) for j in range(c.shape[1]) for k in range(c.shape[2])}


def block(idx, n):
    """the indexes are one block (also across the border), or blocks repeating with a period"""
    holes = [i for i in range(n) if i not in idx]
    ends = [i for i in holes if (i + 1) % n not in holes]
    if len(ends) > 1:
        step = n // len(ends)
        return all((i + step) % n in ends for i in ends)
    return True


def accept(t, s, info):
    """may s be a part of the table t: (accepted, regular)"""
    if not den(S(s)) <= den(S(t)):
        return False, False
    o = S(t)
    if len(o.tables_script) > 1:
        p = info[t][0]
        if p is not None and len(S(p).tables_script) > 1:
            return False, False
        inside = [den(x) for x in o.tables_script if den(x) <= den(S(s))]
        return bool(inside) and frozenset().union(*inside) == den(S(s)), False
    sh, pos = shape(o)
    cs = [pos[x] for x in den(S(s))]
    if sh[1] == 1:
        xs = [c[0] for c in cs]
        ok = max(xs) - min(xs) + 1 == len(xs)
        return ok, ok
    if info[t][1] != 0 and info[t][1] % 2 == 0:
        return False, False
    r, c = {x[0] for x in cs}, {x[1] for x in cs}
    full_r, full_c = len(r) == sh[0], len(c) == sh[1]
    if full_r and len(c) == 1 or not full_r and full_c and len(r) == 1:
        return True, True
    if full_r or full_c:
        return True, False
    return len(r) >= 2 and len(c) >= 2 and len(cs) == len(r) * len(c) and block(r, sh[0]) and block(c, sh[1]), False


def tables(roots, paradigms):
    """{script: (parent, rank, root)} of the paradigms and singular sequences"""
    info = {}
    for root in roots:
        mine = {root: (None, 0)}
        for s in sorted((p for p in paradigms if p != root and den(S(p)) <= den(S(root))), key=lambda p: (-len(den(S(p))), S(p))):
            cands = [(S(t), t, reg) for t in mine for ok, reg in [accept(t, s, mine)] if ok]
            if not cands:
                continue
            _, t, reg = min(cands)
            base = max(mine[t][1], 1)
            mine[s] = (t, base if len(S(t).tables_script) > 1 else base + (2 if reg else 1))
        for x in den(S(root)):
            mine[x] = (root, 6)
        info.update({k: v + (root,) for k, v in mine.items()})
    return info


def model(paradigms, rows):
    """(roots, inhibitions, tables) of a dictionary, or Bad"""
    ps = set(paradigms)
    true = lambda key: {p for p, k, v in rows if p in ps and k == key and v[0].lower() == 't'}
    ignored = true('is_ignored')
    roots = sorted(true('is_root') - ignored, key=S)
    if sum(len(den(S(r))) for r in roots) != len(frozenset().union(*[den(S(r)) for r in roots])):
        raise Bad()
    inh = {r: {v for p, k, v in rows if p == r and k == 'inhibition'} for r in roots}
    return roots, inh, tables(roots, ps - ignored)


# -- universe ---------------------------------------------------------------------
FAMILIES = [
    ('O:M:.', ['O:S:.', 'U:M:.', 'O:S:+B:.', 'A:B:+T:.', 'U:S:+T:.', 'y.+a.']),
    ('M:M:.', ['M:S:.', 'S:M:.', 'S:+B:M:.', 'S:+B:S:+B:.', 't.+s.', 'S:+B:S:+T:.', 's.+m.+l.']),
    ('O:M:.+M:O:.', ['O:M:.', 'M:O:.', 'O:S:.', 'S:O:.', 'U:M:.', 'y.+j.']),
    ('F:O:M:.', ['F:O:S:.', 'F:U:M:.', 'O:O:M:.', 'F:U:S:.', 'M:U:S:.', 'F:O:S:+T:.']),
    ('O:O:.O:O:.-', ['O:O:.wa.-', 'wa.O:O:.-', 'U:O:.O:O:.-', 'O:O:.O:U:.-', 'wa.U:O:.-', 'O:U:.U:O:.-', 'O:O:.U:O:.-']),
    ('O:O:.M:M:.-+M:M:.O:O:.-', ['O:O:.M:M:.-', 'M:M:.O:O:.-', 'O:O:.s.-', 's.O:O:.-', 'wa.M:M:.-', 'wa.M:S:.-', 'O:O:.M:S:.-']),
    ('M:', ['S:+B:', 'S:+T:']),
    ('F:', ['O:', 'M:', 'U:+S:', 'U:+A:+S:']),
    ('M:O:.M:.-', ['M:U:.M:.-', 'S:O:.M:.-', 'M:O:.S:.-', 'S:U:.M:.-', 'M:O:.S:+B:.-']),
    ("O:M:.-O:M:.-'", ["O:S:.-O:M:.-'", "O:M:.-u.-'", "u.-O:M:.-'", "U:M:.-O:M:.-'", "U:M:.-A:M:.-'"]),
]
# groups of families whose roots do not overlap
MULTI = [('O:M:.', 'M:O:.', 'M:M:.'), ('O:', 'M:', 'O:M:.'), ('U:M:.', 'A:M:.', 'O:O:.O:M:.-'), ('F:', 'O:O:.', 'O:O:.O:O:.-')]


SUBS = [('F:M:.', ('UASBT', 'SBT', '%s%s.'), 4), ('I:F:.', ('EUASBT', 'UASBT', '%s%s.'), 0), ('O:M:M:.', ('UA', 'SBT', 'SBT', '%s%s%s.'), 3),
        ('M:F:.wa.-', ('SBT', 'UASBT', '%s%s.wa.-'), 0), ('M:.F:.-', ('SBT', 'UASBT', '%s.%s.-'), 0), ('F:', ('UASBT', '%s'), 1)]
SUBS_THOROUGH = [('I:I:.', ('EUASBT', 'EUASBT', '%s%s.'), 0), ('M:M:F:.', ('SBT', 'SBT', 'UASBT', '%s%s%s.'), 0), ("M:.-F:.-'", ('SBT', 'UASBT', "%s.-%s.-'"), 1)]


def sums(chars):
    """all sums of the primitives"""
    return ['%s' % '+'.join(c + ':' for c in x) for k in range(1, len(chars) + 1) for x in itertools.combinations(chars, k)]


def canon(p):
    return str(S(p))


def families():
    for root, pool in FAMILIES:
        root = canon(root)
        pool = sorted({canon(p) for p in pool}, key=S)
        assert all(den(S(p)) <= den(S(root)) for p in pool), (root, pool)
        yield root, pool


def configs():
    """(paradigms, structure rows)"""
    out = []
    for root, pool in families():
        for k in range(len(pool) + 1):
            for sub in itertools.combinations(pool, k):
                out.append(((root,) + sub, ((root, 'is_root', 'True'),)))
    # every script that varies the operands of a root: alone, and with a part of one of its rows or columns
    for root, ops, second in SUBS + (SUBS_THOROUGH if THOROUGH else []):
        root = canon(root)
        subs = sorted({canon(ops[-1] % tuple(c)) for c in itertools.product(*[sums(o) for o in ops[:-1]])} - {root}, key=S)
        subs = [x for x in subs if len(den(S(x))) > 1]
        out.extend(((root, x), ((root, 'is_root', 'True'),)) for x in subs)
        if second:
            step = 1 if THOROUGH else second
            pairs = [(x, y) for x in subs for y in subs if x != y and den(S(y)) < den(S(x))][::step]
            out.extend(((root, x, y), ((root, 'is_root', 'True'),)) for x, y in pairs)
    # what the structure says, over a few paradigms: none, root, not root, ignored, ignored root, twice root
    marks = [(), (('is_root', 'True'),), (('is_root', 'False'),), (('is_ignored', 'True'),), (('is_root', 'True'), ('is_ignored', 'True')),
             (('is_root', 'True'), ('is_root', 'True')), (('is_ignored', 'False'), ('is_root', 'true'))]
    for ps in [('O:M:.', 'U:M:.', 'M:O:.'), ('O:M:.', 'O:S:.', 'O:M:.+M:O:.'), ('M:M:.', 'M:S:.', 'S:+B:S:+B:.')] + ([('O:', 'M:', 'O:M:.', 'A:M:.')] if THOROUGH else []):
        ps = tuple(canon(p) for p in ps)
        for ms in itertools.product(marks, repeat=len(ps)):
            out.append((ps, tuple((p, k, v) for p, m in zip(ps, ms) for k, v in m)))
    # several roots, with parts of each
    for roots in MULTI:
        roots = [canon(r) for r in roots]
        parts = {canon(p) for _, pool in FAMILIES for p in pool} | {'M:O:.', 'O:O:.', 'O:M:.+M:O:.', 'A:M:.'}
        parts = sorted((p for p in map(canon, parts) if p not in roots and den(S(p)) & frozenset().union(*[den(S(r)) for r in roots])), key=S)[:9]
        for k in (range(len(parts) + 1) if THOROUGH else (0, 1, 2, len(parts))):
            for sub in itertools.combinations(parts, k):
                out.append((tuple(roots) + sub, tuple((r, 'is_root', 'True') for r in roots)))
    # rows about what is not a paradigm of the dictionary are of no effect
    out.append((('O:M:.',), (('O:M:.', 'is_root', 'True'), ('M:M:.', 'is_root', 'True'), ('O:M:.+M:O:.', 'is_ignored', 'True'))))
    out.append(((), ()))
    out.append((('O:M:.', 'U:M:.'), ()))
    return out


def view(d):
    """what the dictionary says of its scripts"""
    return {str(s): (d.tables[s].parent and str(d.tables[s].parent.script), d.tables[s].rank, str(d.tables.root(s))) for s in d.scripts}


def compare(r, key, d, roots, info):
    import numpy
    got = guard(view, d)
    if got[0] != 'ok':
        r.violate(key, 'raised %s' % got[1], key)
        return
    got = got[1]
    bad = sorted(k for k in set(got) | set(info) if got.get(k) != info.get(k))
    if bad:
        r.violate(key, 'script %s: (parent, rank, root) is %s instead of %s' % (bad[0], got.get(bad[0]), info.get(bad[0])), key)
        return
    ss = list(d.scripts)

    def rest():
        assert len(d) == len(ss) == len(info), 'size'
        assert ss == sorted(ss), 'scripts are not in increasing order'
        assert all(d.index[s] == i and d[str(s)] == s and s in d for i, s in enumerate(ss)), 'index'
        assert [str(ss[i]) for i in numpy.nonzero(d.roots_idx)[0]] == roots and sorted(map(str, d.tables.roots)) == sorted(roots), 'roots'
        assert 'l.l.-' not in d and S('l.l.-') not in d.tables, 'an unknown script is in the dictionary'
        assert {str(t.script) for t in d.tables} == set(info), 'tables'
        for t in d.tables:
            table_view(r, t)
        for s in ss:
            kids = {str(t.script) for t in d.tables.children(d.tables[s])}
            assert kids == {k for k, v in info.items() if v[0] == str(s)}, 'children of %s' % s
    g = guard(rest)
    if g[0] != 'ok':
        try:
            rest()
            msg = g[1]
        except Exception as e:
            msg = '%s: %s' % (type(e).__name__, e)
        r.violate(key, msg, key)


_VIEWED = set()


def table_view(r, t):
    """a table shows the dimensions, cells and headers of its script, under the coordinates it gives"""
    import numpy
    s = str(t.script)
    if (s, type(t).__name__) in _VIEWED:
        return
    _VIEWED.add((s, type(t).__name__))
    r.count('tables')
    o = t.script
    cubes = o.cells
    dims = [n for n in cubes[0].shape if n != 1] if len(cubes) == 1 else None

    def rest():
        want = ('Cell', 0) if len(den(o)) == 1 else ('TableSet', 4) if len(cubes) > 1 else ('Table%dD' % len(dims), len(dims))
        assert (type(t).__name__, t.ndim) == want, 'a %s of %d dimensions instead of %s' % (type(t).__name__, t.ndim, want)
        if len(cubes) > 1:
            assert [str(x) for x in t.tables] == [str(x) for x in o.tables_script], 'tables'
            assert [[str(x) for x in c.flat] for c in t.cells] == [[str(x) for x in c.flat] for c in cubes], 'cells'
            return
        nd = max(t.ndim, 1)
        shape = cubes[0].shape[:nd]
        assert tuple(t.shape) == shape, 'shape %s' % (t.shape,)
        cell = {c[:nd]: x for c, x in numpy.ndenumerate(cubes[0])}
        if nd == 3:
            assert [[str(x) for x in c.flat] for c in t.cells] == [[str(x) for x in c.flat] for c in cubes], 'cells'
            assert [den(x) for x in t.tables] == [frozenset(str(x) for c, x in cell.items() if c[2] == k) for k in range(shape[2])], 'tables'
        else:
            assert t.cells.shape == shape and all(t.cells[c] == x for c, x in cell.items()), 'cells'
        for c, x in cell.items():
            assert t[c if nd > 1 else c[0]] == x, 'cell %s' % (c,)
            if nd < 3:
                assert t.index_of(x) == c == t.index_of(str(x)), 'coordinates of %s' % x
        if nd < 3:
            for other in ('l.l.-', 'M:M:.' if s != 'M:M:.' else 'O:'):
                assert guard(t.index_of, other) == ('err', 'KeyError'), 'coordinates of a script that is no cell'
        if nd == 2:
            for got, i in ((t.rows, 0), (t.script_rows, 0), (t.columns, 1), (t.script_columns, 1)):
                assert [den(x) for x in got] == [frozenset(str(x) for c, x in cell.items() if c[i] == k) for k in range(shape[i])], ('rows', 'columns')[i]
    try:
        rest()
    except Exception as e:
        r.violate('table %s %s' % (type(t).__name__, s), '%s: %s' % (type(e).__name__, e), s)


def expected(ps, rows):
    try:
        return model(ps, rows)
    except Bad:
        return None


def do(chunk, r):
    import pickle
    for ps, rows in chunk:
        r.count('states')
        key = 'dictionary %s %s' % (' '.join(ps), ' '.join('/'.join(x) for x in rows))
        m = expected(ps, rows)
        # the order of the paradigms and of the rows is of no effect
        for perm in (0, 1):
            r.count('traces')
            g = guard(make, ps[::-1] if perm else ps, rows[::-1] if perm else rows)
            if m is None:
                r.require(g == ('err', 'ValueError'), key, 'overlapping roots are not refused with a value error: %s' % g[0], key)
            elif g[0] != 'ok':
                r.violate(key, 'raised %s' % g[1], key)
            else:
                r.count('transitions', len(m[2]))
                compare(r, key, g[1], m[0], m[2])
        if m is not None and g[0] == 'ok':
            p = guard(lambda: pickle.loads(pickle.dumps(g[1], protocol=4)))
            if p[0] != 'ok':
                r.violate(key, 'cannot be pickled: %s' % p[1], key)
            else:
                compare(r, key + ' (pickled)', p[1], m[0], m[2])
            r.sample([key, len(m[2])])


def seeds(ctx, cs):
    """the same dictionaries built in processes with other hash seeds"""
    import os
    import subprocess
    import sys
    import json
    prog = ('import sys, json, tqdm\n'
            'from mc.checks.c16 import make, view\n'
            'from mc.core import guard\n'
            'for l in sys.stdin:\n'
            '    ps, rows = json.loads(l)\n'
            '    g = guard(make, ps, rows)\n'
            '    print(json.dumps(g[1] if g[0] != "ok" else sorted(view(g[1]).items())))\n')
    data = '\n'.join(json.dumps(c) for c in cs)
    procs = []
    for seed in range(1, 4 + 12 * THOROUGH):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        procs.append((seed, subprocess.Popen([sys.executable, '-c', prog], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                             stderr=subprocess.DEVNULL, env=env, text=True)))
    outs = {}
    import threading

    def feed(seed, p):
        outs[seed] = p.communicate(data)[0].splitlines()
    ts = [threading.Thread(target=feed, args=x) for x in procs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for i, (ps, rows) in enumerate(cs):
        m = expected(ps, rows)
        want = json.dumps('ValueError' if m is None else sorted(m[2].items()))
        for seed, o in outs.items():
            ctx.count('traces')
            ctx.require(len(o) > i and o[i] == want, 'hash seed dictionary %s' % ' '.join(ps),
                        'with hash seed %d the dictionary is %s' % (seed, (o[i] if len(o) > i else 'missing')[:300]), [ps, rows])


def run(ctx):
    import os
    import sys
    S('M:')
    sys.stderr = open(os.devnull, 'w')
    cs = configs()
    parallel(ctx, do, cs, chunk=10)
    seeds(ctx, [c for c in cs if len(c[0]) > 2][::5 if THOROUGH else 40])
    ctx.bounds = {'dictionaries': len(cs), 'families of paradigms': len(FAMILIES), 'structure': 'every mark on each of three paradigms',
                  'hash seeds': 3 + 12 * THOROUGH}
    ctx.assumptions = ['cells and tables_script of a script (decided by C05), its singular sequences and order (C03, C02)']
