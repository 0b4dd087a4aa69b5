"""C18 the database holds exactly what was stored: a multimap, whatever the values and the history of additions and removals."""
import itertools
from collections import Counter
from mc import dbkit as K
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G

LANG, DESC = K.LANG, K.DESC


# -- reference model ---------------------------------------------------------------
# a state is a tuple of sorted (key, tuple of values): the values of a key are kept in the order of their addition
def put(st, key, v):
    d = dict(st)
    d[key] = d.get(key, ()) + (v,)
    return tuple(sorted(d.items()))


def drop(st, match):
    """without the entries (key, value) that match"""
    out = []
    for k, vs in st:
        vs = tuple(v for v in vs if not match(k, v))
        if vs:
            out.append((k, vs))
    return tuple(out)


def norm(v):
    """values are stored on one line, without the blanks around"""
    return v.strip().replace('\n', '\\n')


def apply_model(st, op):
    kind, u = op[0], op[1]
    if kind == 'add':
        v = norm(op[4])
        return put(st, (u, op[2], op[3]), v) if v else st
    if kind == 'remove':
        _, u, l, d, v = op
        return drop(st, lambda k, x: len(k) == 3 and k[0] == u and l in (None, k[1]) and d in (None, k[2]) and (v is None or x == norm(v)))
    if kind == 'sadd':
        return put(st, (u, op[2]), str(op[3]))
    _, u, k_, v = op
    return drop(st, lambda k, x: len(k) == 2 and k[0] == u and k_ in (None, k[1]) and (v is None or x == str(v)))


# spellings given to the code for an IEML of the model
SPELL = {'wo. wa.': 'wa. wo.', "()(A: S:)": '()(S: A:)', 'wa.': 'wa.', 'O:M:.': 'O:M:.', 'M:M:.': 'M:M:.'}


def apply_real(db, op):
    u = SPELL.get(op[1], op[1])
    if op[0] == 'add':
        db.add_descriptor(u, *op[2:])
    elif op[0] == 'remove':
        db.remove_descriptor(u, *op[2:])
    elif op[0] == 'sadd':
        db.add_structure(u, *op[2:])
    else:
        db.remove_structure(u, *op[2:])


def read(db, us):
    """the whole content through every reader, in the form of a state of the model; disagreement is an error"""
    ds, st = db.get_descriptors(), db.get_structure()
    res, sres = {}, {}
    for u in us:
        for l in LANG:
            for d in DESC:
                v = ds.get_values(u, l, d)
                if v:
                    res[(u, l, d)] = tuple(v)
        for k in ('is_root', 'is_ignored', 'inhibition'):
            v = st.get_values(u, k)
            if v:
                sres[(u, k)] = tuple(v)
    for u in us:
        mine = {k: list(v) for k, v in res.items() if k[0] == u}
        assert ds.get_values_partial(u) == mine, 'get_values_partial(%r)' % u
        for l in LANG:
            assert ds.get_values_partial(u, l) == {k: v for k, v in mine.items() if k[1] == l}, 'get_values_partial(%r, %r)' % (u, l)
        for d in DESC:
            assert ds.get_values_partial(u, None, d) == {k: v for k, v in mine.items() if k[2] == d}, 'get_values_partial(%r, None, %r)' % (u, d)
        assert ds.get_descriptor(u) == {d: {l: mine.get((u, l, d), []) for l in LANG} for d in DESC}, 'get_descriptor(%r)' % u
        smine = {k: list(v) for k, v in sres.items() if k[0] == u}
        assert st.get_values_partial(u) == smine, 'structure get_values_partial(%r)' % u
        for k in ('is_root', 'is_ignored', 'inhibition'):
            assert st.get_values_partial(u, k) == {x: v for x, v in smine.items() if x[1] == k}, 'structure get_values_partial(%r, %r)' % (u, k)
    names = db.list()
    assert sorted(names) == sorted({k[0] for k in res}), 'list() is %s' % names
    n = sum(map(len, res.values())) + sum(map(len, sres.values()))
    assert len(ds.df) + len(st.df) == n, '%d rows are stored, %d are found' % (len(ds.df) + len(st.df), n)
    return tuple(sorted(res.items())), tuple(sorted(sres.items()))


def outcome(fn, *a):
    try:
        return 'ok', fn(*a)
    except AssertionError as e:
        return 'err', str(e)
    except Exception as e:
        return 'err', 'raised %s' % type(e).__name__


# -- histories -----------------------------------------------------------------------
def alphabets():
    """(name, IEMLs, operations, depth)"""
    v3 = ['a', 'a"b', '1']
    us = ['wo. wa.', 'O:M:.']
    ls, ds = LANG, ['translations', 'tags']
    ops = [('add', u, l, d, v) for u in us for l in ls for d in ds for v in v3[:2]] + [('add', us[0], 'fr', 'tags', '1')]
    ops += [('remove', u, l, d, v) for u in us for l in ls + [None] for d in ds + [None] for v in v3[:2] + [None]]
    yield 'descriptors', us, ops, 3
    us2 = ['O:M:.', 'M:M:.']
    rows = [('is_root', True), ('is_root', False), ('is_ignored', True), ('inhibition', 'twin'), ('inhibition', 'opposed')]
    ops = [('sadd', u, k, v) for u in us2 for k, v in rows]
    ops += [('sremove', u, k, v) for u in us2 for k, v in rows + [('is_root', None), ('inhibition', None), (None, None), ('inhibition', 'crossed')]]
    yield 'structure', us2, ops, 3 + THOROUGH
    us3 = ['wa.', "()(A: S:)"]
    ops = [('add', us3[0], 'fr', 'comments', v) for v in v3] + [('add', us3[1], 'en', 'translations', 'a')]
    ops += [('remove', us3[0], 'fr', 'comments', v) for v in v3] + [('remove', us3[0], None, None, None), ('remove', us3[1], 'en', None, None)]
    ops += [('sadd', us3[0], 'is_root', True), ('sremove', us3[0], None, None)]
    yield 'deep', us3, ops, 4 + THOROUGH


def freeze(snap):
    return tuple(sorted((k, v) for k, v in snap.items() if v))


def expand(chunk, r):
    """every operation from every state of the chunk; a state is (files, model state, history)"""
    folder = K.scratch()
    db = K.database(folder)
    out = []
    for name, us, ops, (files, st, hist) in chunk:
        for op in ops:
            K.restore(folder, dict(files))
            r.count('transitions')
            h = hist + (op,)
            o = outcome(apply_real, db, op)
            if o[0] != 'ok':
                r.violate('history %s' % (h,), o[1], h)
                continue
            n = apply_model(st, op)
            f = freeze(K.snapshot(folder))
            out.append((name, us, ops, (f, n, h)))
    K.wipe(folder)
    r.samples = out      # carried to the parent, see explore


def observe(chunk, r):
    """reading a set of files gives the state of the model, in another object as well"""
    folder = K.scratch()
    for name, us, ops, (files, st, hist) in chunk:
        K.restore(folder, dict(files))
        r.count('traces')
        g = outcome(read, K.database(folder), us)
        want = (tuple(x for x in st if len(x[0]) == 3), tuple(x for x in st if len(x[0]) == 2))
        r.require(g == ('ok', want), 'history %s' % (hist,), 'reads %s instead of %s' % (g[1], want) if g[0] == 'ok' else g[1], hist)
    K.wipe(folder)


def explore(ctx, alpha):
    """breadth first over the alphabet.  States are merged on (files, model state): equal files must have been read once only,
    two model states with the same files are both compared with what is read"""
    name, us, ops, depth = alpha
    level = [(name, us, ops, ((), (), ()))]
    seen = {((), ())}
    observe_all = list(level)
    for k in range(depth):
        nxt = []

        class Collect:
            def merge(self, res):
                for x in res.pop('samples'):
                    key = (x[3][0], x[3][1])
                    if key not in seen:
                        seen.add(key)
                        nxt.append(x)
                ctx.merge(res)
        parallel(Collect(), expand, level, chunk=max(1, min(40, len(level) // 16 + 1)))
        observe_all += nxt
        level = nxt
    ctx.count('states', len(seen))
    parallel(ctx, observe, observe_all, chunk=20)
    return len(seen)


# -- values ---------------------------------------------------------------------------
def texts():
    alpha = ['a', '"', ' ', '\\', 'n', '1', '\r', "'", ',', '#', '\t', '-'] + (['é', '+', '|', '$', '`', '.'] if THOROUGH else [])
    out = [''.join(x) for k in (1, 2) for x in itertools.product(alpha, repeat=k)]
    if THOROUGH:
        out += [''.join(x) for x in itertools.product(alpha[:8], repeat=3)]
    out += ['NA', 'nan', 'null', 'None', 'N/A', 'True', 'False', '1', '1.0', '1e5', '0x10', '-0', '1_000', '2020-01-01', 'inf', 'é ö 中', '""', '"a" b', 'a b c', "it's",
            '[>constant "x"]', 'line\nbreak', '  padded ', 'x' * 5000, '#comment', '\x0b', '\u2028x', 'a\u2028b', 'wa.', '"wa." fr translations "z"', '$HOME', '`ls`', ';', '\x00' if False else '&&']
    return sorted(set(out))


def one_value(chunk, r):
    folder = K.scratch()
    for v in chunk:
        r.count('states')
        K.restore(folder, {})
        db = K.database(folder)
        key = 'value %r' % v
        st = ()
        for op in [('add', 'wa.', 'fr', 'translations', v), ('add', 'wa.', 'fr', 'translations', 'other'), ('add', 'wa.', 'fr', 'tags', v),
                   ('add', 'O:M:.', 'fr', 'translations', v), ('remove', 'wa.', 'fr', 'translations', v), ('add', 'wa.', 'en', 'translations', v),
                   ('remove', 'O:M:.', None, 'translations', v), ('remove', 'wa.', 'en', None, v), ('remove', 'wa.', None, None, v)]:
            if op[0] == 'remove' and not v.strip():
                continue
            st = apply_model(st, op)
            r.count('transitions')
            o = outcome(apply_real, db, op)
            g = outcome(read, db, ['wa.', 'O:M:.']) if o[0] == 'ok' else o
            if not r.require(g == ('ok', (st, ())), key, 'after %s: %s' % (op, str(g[1])[:300]), [v, op]):
                break
    K.wipe(folder)


def pairs(chunk, r):
    """two values under one key: both are read, in their order; removing one leaves the other"""
    folder = K.scratch()
    for v, ws in chunk:
        for w in ws:
            if norm(v) == norm(w):
                continue
            K.restore(folder, {})
            db = K.database(folder)
            r.count('traces')
            st = ()
            for op in [('add', 'wa.', 'fr', 'translations', v), ('add', 'wa.', 'fr', 'translations', w), ('remove', 'wa.', 'fr', 'translations', v)]:
                st = apply_model(st, op)
                outcome(apply_real, db, op)
            g = outcome(lambda: db.get_descriptors().get_values('wa.', 'fr', 'translations'))
            r.require(g == ('ok', [norm(w)]), 'pair %r %r' % (v, w), 'after removing the first: %s' % str(g[1])[:200], [v, w])
    K.wipe(folder)


# -- kinds of IEML ----------------------------------------------------------------------
def iemls():
    from mc.checks.c09 import universe
    pms, lexs, words = universe()
    out = [M.to_str(u) for u in pms[::max(1, len(pms) // (400 if THOROUGH else 120))] + lexs + words[::max(1, len(words) // (400 if THOROUGH else 100))]]
    out = [s for s in out if s]
    out += ['wa.', 'O:M:.', 'M:M:.+O:O:.', "k.a.-k.a.-'", "O:M:.-M:O:.-'", 'E:', 'E:.', 'I:', "wa.-wo.-wu.-'we.-y.-o.-'e.-u.-a.-',"]
    dec = ['()(S:) [>content>constant>S: "%s"]' % t for t in ('x', 'x y', 'x/y', 'x_y', '../../x', 'y' * 120, 'y' * 119 + 'z', 'it\\"s')]
    return sorted(set(out)), dec


def kinds(ctx):
    """every kind of IEML in one database: read back, listed under its kind, one file each, the same for every spelling"""
    from mc.checks.c08 import parser
    folder = K.scratch()
    db = K.database(folder)
    plain, dec = iemls()
    P = parser()
    objs = {}
    for s in plain + dec:
        g = guard(P.parse, s)
        if g[0] == 'ok':
            objs.setdefault(str(g[1]), (s, g[1]))
    files = {}
    for i, (c, (s, o)) in enumerate(sorted(objs.items())):
        ctx.count('states')
        g = outcome(lambda: (db.add_descriptor(s, LANG[i % 2], DESC[i % 4], 'v%d' % i), db.path_of(c), db.path_of(o), db.path_of(s)))
        if not ctx.require(g[0] == 'ok', 'store ' + c, g[1], c):
            continue
        a = g[1][1:]
        ctx.require(len(set(a)) == 1, 'path ' + c, 'several paths: %s' % (a,), c)
        ctx.require(a[0] not in files, 'path ' + c, 'same file as %s' % files.get(a[0]), c)
        import os
        ctx.require(os.path.realpath(a[0]).startswith(os.path.realpath(folder) + '/') and len(os.path.basename(a[0])) <= 255, 'path ' + c, 'outside the database: %s' % a[0], c)
        files[a[0]] = c
    ctx.require(set(K.snapshot(folder)) == {os.path.relpath(p, folder) for p in files}, 'files', 'unexpected files in the database', None)
    g = outcome(lambda: {k: v for c in objs for k, v in db.get_descriptors().get_values_partial(c).items()}) if len(objs) < 50 else ('ok', None)
    ds = db.get_descriptors()
    for i, (c, (s, o)) in enumerate(sorted(objs.items())):
        ctx.count('traces')
        g = outcome(lambda: (ds.get_values(c, LANG[i % 2], DESC[i % 4]), sum(len(v) for v in ds.get_values_partial(c).values())))
        ctx.require(g == ('ok', (['v%d' % i], 1)), 'read ' + c, 'reads %s' % (g[1],), c)
    # listing by kind and cardinality
    kind = {'PolyMorpheme': 'polymorpheme', 'Lexeme': 'lexeme', 'Word': 'word'}

    def k(o):
        o = getattr(o, 'usl', o)
        return kind.get(type(o).__name__, 'morpheme'), len(o) != 1
    allk = {c: k(o) for c, (s, o) in objs.items()}
    from ieml.usl import PolyMorpheme, Lexeme, Word
    for ty in (None, 'morpheme', 'polymorpheme', 'lexeme', 'word', PolyMorpheme, Lexeme, Word):
        for par in (None, True, False):
            if ty is None and par is not None:
                continue
            name = ty if ty is None or isinstance(ty, str) else ty.__name__.lower()
            want = sorted(c for c, (t, p) in allk.items() if name in (None, t) and par in (None, p))
            g = outcome(lambda: sorted(db.list(ty, paradigm=par)))
            ctx.count('traces')
            ctx.require(g == ('ok', want), 'list %s %s' % (name, par), 'missing %s, in excess %s' % (
                (sorted(set(want) - set(g[1]))[:3], sorted(set(g[1]) - set(want))[:3]) if g[0] == 'ok' else g), None)
    # reading a selection of files
    some = sorted(f for f in files if "'" not in f or True)[::7]
    g = outcome(lambda: sorted(set(x[0] for x in db.get_descriptors(files_list=[os.path.relpath(f, folder) for f in some]).df.index)))
    ctx.require(g == ('ok', sorted(files[f] for f in some)), 'files_list', 'reading %d files gives %s' % (len(some), str(g[1])[:300]), None)
    # removing each
    for c in sorted(objs)[::3 if not THOROUGH else 1]:
        g = outcome(lambda: db.remove_descriptor(objs[c][0]))
        ctx.count('transitions')
        ctx.require(g[0] == 'ok', 'remove ' + c, g[1], c)
        allk.pop(c)
    g = outcome(lambda: sorted(db.list()))
    ctx.require(g == ('ok', sorted(allk)), 'remove all', 'left %s' % sorted(set(g[1]) ^ set(allk))[:3] if g[0] == 'ok' else g[1], None)
    K.wipe(folder)


def long_names(ctx):
    """IEML of every length up to several times the size of a file name, differing in one place: one file each"""
    import os
    from mc.checks.c08 import parser
    folder = K.scratch()
    db = K.database(folder)
    P = parser()
    n = 900 if THOROUGH else 420
    us = ['()(S:) [>content>constant>S: "%s"]' % ('x' * i) for i in range(0, n)]
    for fill in 'x/':
        us += ['()(S:) [>content>constant>S: "%s"]' % (fill * i + 'y' + fill * (n - 1 - i)) for i in range(n)]
    us += ['()(S:) [>content>constant>S: "%s"]' % ('x' * i + c + 'x' * (5 - i)) for i in range(6) for c in '/_|']
    singular = ["%s.%s.-" % (a, b) for a in ('wa', 'y', 's', 'k') for b in ('wo', 'e', 'b', 'm', 'l', 't', 'd', 'f')]
    for i in range(len(singular)):
        some = ' '.join(singular[:i] + singular[i + 1:])
        us += [some, '()(%s)' % some, '[! E:A:. ()(%s)]' % some, '%s m1(%s)' % (some, singular[i]), '(%s)(%s)' % (singular[i], some)]
    for i in range(len(singular)):
        us += [' '.join(singular[:i + 1]), ' '.join(singular[i:]), '[! E:A:. (%s)(%s)]' % (' '.join(singular[:i]), ' '.join(singular[i:]))]
    seen = {}
    for u in us:
        g = guard(P.parse, u)
        if not ctx.require(g[0] == 'ok', 'parse ' + u, g[1], u):
            continue
        c = str(g[1])
        if c in seen.values():
            continue
        ctx.count('states')
        g = outcome(lambda: (db.path_of(u), db.path_of(c), db.path_of(g[1])))
        if not ctx.require(g[0] == 'ok', 'path ' + c, g[1], c):
            continue
        ctx.count('traces')
        q = g[1][0]
        ctx.require(set(g[1]) == {q}, 'path ' + c, 'several paths: %s' % (g[1],), c)
        ctx.require(q not in seen, 'path ' + c, 'same file as %s' % seen.get(q), c)
        ctx.require(os.path.realpath(q).startswith(os.path.realpath(folder) + '/') and max(map(len, os.path.relpath(q, folder).split('/'))) <= 255,
                    'path ' + c, 'outside the database or not a file name: %s' % q, c)
        seen[q] = c
    K.wipe(folder)
    return len(seen)


def refused(ctx):
    """what cannot be stored is refused, without any trace"""
    folder = K.scratch()
    db = K.database(folder)
    db.add_descriptor('wa.', 'fr', 'tags', 'x')
    db.add_structure('O:M:.', 'is_root', True)
    before = K.snapshot(folder)
    bad = ([('add_descriptor', u, l, d, v) for u, l, d, v in [
        ('wa.', 'de', 'tags', 'x'), ('wa.', 'fr', 'tag', 'x'), ('wa.', None, 'tags', 'x'), ('wa.', 'fr', None, 'x'), ('wa.', 'fr', 'tags', 3), ('wa.', 'fr', 'tags', None),
        ('wa', 'fr', 'tags', 'x'), ('(wa.', 'fr', 'tags', 'x'), (None, 'fr', 'tags', 'x'), ('wa. [>role>E:A:. "x"]', 'fr', 'tags', 'x')]]
        + [('remove_descriptor', u, l, d, v) for u, l, d, v in [('wa.', 'de', 'tags', None), ('wa.', 'fr', 'tag', 'x'), ('wa', None, None, None)]]
        + [('add_structure', u, k, v) for u, k, v in [('O:M:.', 'root', True), ('O:M:.', 'inhibition', 'sister'), ('O:M:.', 'is_root', 'maybe'), ('O:M:.', 'is_root', 3), ('O:', None, True), ('O:M', 'is_root', True)]]
        + [('remove_structure', u, k, v) for u, k, v in [('O:M:.', 'root', None), ('O:M', None, None)]])
    for b in bad:
        ctx.count('traces')
        g = guard(getattr(db, b[0]), *b[1:])
        ctx.require(g[0] == 'err' and g[1] in ('ValueError', 'CannotParse', 'JSONDecodeError'), 'refused %s' % (b,), 'not refused: %s' % (g,), b)
        ctx.require(K.snapshot(folder) == before, 'refused %s' % (b,), 'a refused call changed the database', b)
        K.restore(folder, before)
    K.wipe(folder)


def run(ctx):
    from mc.checks.c08 import parser
    parser()
    K.quiet()
    sizes = {}
    for a in alphabets():
        sizes['%s (depth %d, %d operations)' % (a[0], a[3], len(a[2]))] = explore(ctx, a)
    ctx.samples = []
    ts = texts()
    parallel(ctx, one_value, ts, chunk=6)
    hard = [t for t in ts if t.strip()]
    hard = [t for t in hard if '"' in t or '\\' in t] + [t for t in hard if not ('"' in t or '\\' in t)]
    hard = hard[:90 if THOROUGH else 44] + ['a', '1', 'NA', 'a b', 'other']
    parallel(ctx, pairs, [(v, hard) for v in hard], chunk=2)
    kinds(ctx)
    names = long_names(ctx)
    refused(ctx)
    for t in ts[:4]:
        ctx.sample(t)
    ctx.bounds = {'histories': sizes, 'values': len(ts), 'pairs of values': len(hard) ** 2, 'long IEML': names}
    ctx.assumptions = ['a line feed in a value is stored as the two characters \\n, blanks around a value are dropped (_normalize_value, escape_value)']
