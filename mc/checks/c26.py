"""C26 the maintenance scripts of a database: every entry ends under its canonical form with all its values, nothing else changes, and nothing at all
when the script fails."""
import builtins
import itertools
import os
import runpy
import shutil
import sys
from mc import dbkit as K, gitkit as H, faults
from mc.core import parallel, THOROUGH
from mc.checks.c22 import canon, read, q

KIND = {'morpheme': 0, 'polymorpheme': 5, 'lexeme': 8, 'word': 10}
# groups of keys with one meaning: (kind, singular, [(spelling, its canonical form)])
POOL = [
    ('morpheme', True, [('y.', 'y.'), ('U:S:.', 'y.'), ('y.+y.', 'y.')]),
    ('morpheme', False, [('U:M:.', 'U:M:.'), ('U:M:E:.', 'U:M:.')]),
    ('morpheme', False, [('B:O:.+S:M:.', 'B:O:.+S:M:.'), ('S:M:.+B:O:.', 'B:O:.+S:M:.')]),
    ('polymorpheme', True, [('wa. y.', 'wa. y.'), ('y. wa.', 'wa. y.')]),
    ('polymorpheme', False, [('m1(y. o.)', 'm1(y. o.)'), ('m1(o. y.)', 'm1(y. o.)')]),
    ('lexeme', True, [('(S: a.)(wa. y.)', '(S: a.)(wa. y.)'), ('(a. S:)(y. wa.)', '(S: a.)(wa. y.)')]),
    ('word', True, [('[! E:A:.  ()(wa. y.)]', '[! E:A:.  ()(wa. y.)]'), ('[! E:A:. ()(y. wa.)]', '[! E:A:.  ()(wa. y.)]')]),
    ('word', True, [('[! E:S:. ()(wa.)]', '[! E:S:. ()(wa.)]'), ('[! E:S:. ()(wa.) > E:.n.- ()]', '[! E:S:. ()(wa.)]'), ('[E:.n.- () > ! E:S:. ()(wa.)]', '[! E:S:. ()(wa.)]')]),
    ('word', True, [('[! E:S:. ()(wa.) > E:.n.- ()(y.)]', '[! E:S:. ()(wa.) > E:.n.- ()(y.)]'), ('[E:.n.- ()(y.) > ! E:S:. ()(wa.)]', '[! E:S:. ()(wa.) > E:.n.- ()(y.)]')]),
    ('word', True, [('[! E:S:. ()(y. wa. [', None), ('not an ieml', None)]),
    ('polymorpheme', True, [('k. s.', None)]),
]
LONG = "[! E:S:. (E:.-wa.-t.o.-')(wa.) > E:.n.- (E:.wo.- E:S:.-d.u.-')(l.-T:.U:.-',) > E:.t.- (E:.wo.- E:S:.-d.u.-')(S:.E:A:T:.-)]"
# what remains of the words without the default flexions (singular, indefinite, active)
REWRITE = [
    ("[! E:S:. (E:.-wa.-t.o.-')(wa.)]", '[! E:S:. ()(wa.)]'),
    ('[! E:A:.  (E:.wo.-)(wa.)]', '[! E:A:.  ()(wa.)]'),
    ("[! E:S:. (S:)(wa.) > E:.n.- (E:.wo.- E:S:.-d.u.-')(y.)]", '[! E:S:. (S:)(wa.) > E:.n.- ()(y.)]'),
    ('[! E:S:. (S:)(wa.) > E:.n.- ()(y.)]', '[! E:S:. (S:)(wa.) > E:.n.- ()(y.)]'),
    ('[! E:S:. ()(wa.)]', '[! E:S:. ()(wa.)]'),
    ("[! E:S:. (S: E:.-wa.-t.o.-')(wa.)]", '[! E:S:. (S:)(wa.)]'),
    ("[! E:S:. (E:.-wa.-t.o.-' S:)(wa.)]", '[! E:S:. (S:)(wa.)]'),
    # a flexion is a default one in its own kind of role only
    ("[! E:S:. (E:.wo.- E:.-wa.-t.o.-')(wa.)]", '[! E:S:. (E:.wo.-)(wa.)]'),
    ("[! E:A:.  (E:.-wa.-t.o.-')(wa.)]", "[! E:A:.  (E:.-wa.-t.o.-')(wa.)]"),
    ("[! E:S:. ()(wa.) > E:.n.- (E:.-wa.-t.o.-' E:.wo.-)(y.)]", "[! E:S:. ()(wa.) > E:.n.- (E:.-wa.-t.o.-')(y.)]"),
    ('[! E:S:. ()(wa.) > E:.n.- ()(y.) > E:.n.- E:U:. (E:.wo.-)(e.)]', '[! E:S:. ()(wa.) > E:.n.- ()(y.) > E:.n.- E:U:. (E:.wo.-)(e.)]'),
    # an empty role goes, unless it leads to the focus
    ('[! E:S:. ()(wa.) > E:.n.- ()]', '[! E:S:. ()(wa.)]'),
    ('[E:S:. () > ! E:.n.- (E:.wo.-)(y.)]', '[E:S:. () > ! E:.n.- ()(y.)]'),
    ('[E:S:. ()(wa.) > ! E:.n.- (E:.wo.-)]', '[E:S:. ()(wa.) > ! E:.n.- ()]'),
]
VALUES = [[('fr', 'translations', 't'), ('en', 'tags', 'a "b" é')], [('fr', 'translations', 'u'), ('fr', 'translations', 't')], [('en', 'comments', 'x y')]]
# the roots whose morphemes the USLs name (a USL of other morphemes is left as it is)
ROOTS = ['O:M:.', 'O:O:.', 'M:', 'E:O:.', 'E:M:.', 'E:.M:M:.-', 'E:.O:O:.-', "E:S:.-d.O:M:.-'", "E:.-O:O:.-t.o.-'"]
OTHERS = [(r, 'morpheme', False, [('fr', 'translations', 'root')], [('is_root', 'True')] + ([('inhibition', 'twin')] if r == 'O:M:.' else [])) for r in ROOTS] + [('e.', 'morpheme', True, [('fr', 'translations', 'other')], [])]
SCRIPT = os.path.join('scripts', 'database_management', '%s.py')


def filename(key):
    from hashlib import sha224
    if len(key) > 100 or os.sep in key:
        return '%s|%s' % (key[:89].replace(os.sep, '_'), sha224(key.encode('utf8')).hexdigest()[:10])
    return key


def path(kind, singular, key, ext='.desc'):
    f = filename(key)
    return os.path.normpath(os.path.join(kind, 'singular' if singular else 'paradigm', f[:KIND[kind]], f + ext))


def files(entries):
    """entries: (key, kind, singular, descriptor rows, structure rows)"""
    out = {'README.md': b'readme\n'}
    for key, kind, singular, desc, struct in entries:
        for ext, text in (('.desc', ''.join('"%s" %s %s "%s"\n' % (q(key), l, d, q(v)) for l, d, v in desc)), ('.ieml', ''.join('"%s" %s "%s"\n' % (q(key), k, v) for k, v in struct))):
            if text:
                p = path(kind, singular, key, ext)
                out[p] = out.get(p, b'') + text.encode()
    return out


def move(entries, to):
    """the model: every entry goes under the key its own leads to"""
    return [(to.get(e[0], e[0]),) + e[1:] for e in entries]


W = {}


def site():
    if W.get('pid') != os.getpid():
        from ieml.ieml_database import GitInterface
        W['pid'] = os.getpid()
        d = W['dir'] = K.scratch('maint')
        W['first'] = str(H.bare(os.path.join(d, 'origin'), [{'README.md': b'readme\n'}])[0])
        W['g'] = GitInterface(origin=os.path.join(d, 'origin'), folder=os.path.join(d, 'db'))
    return W['g']


def put(content):
    import pygit2
    g = site()
    repo = pygit2.Repository(g.folder)
    c = H.commit(repo, content, [W['first']], ref=None)
    repo.reset(c, pygit2.GIT_RESET_HARD)
    for p in H.worktree(g.folder):
        if p not in content:
            os.remove(os.path.join(g.folder, p))
    repo.remotes['origin'].push(['+refs/heads/master:refs/heads/master'])     # the remote knows the same state
    return g


def maintain(g, name, answers=()):
    """run a script as a user does, on the scratch database: the folder and the address written in it are never used, and it cannot remove a folder"""
    import ieml.ieml_database as D
    from importlib import import_module
    G, I = import_module('ieml.ieml_database.git_interface'), import_module('ieml.ieml_database.ieml_database')
    keep = D.GitInterface, D.IEMLDatabase, shutil.rmtree, builtins.input, sys.stdout, sys.argv
    db = keep[1]
    it = iter(answers)

    def fail(*a, **k):
        raise RuntimeError('a folder is removed')
    try:
        D.GitInterface = G.GitInterface = lambda *a, **k: g
        D.IEMLDatabase = I.IEMLDatabase = lambda *a, **k: db(folder=g.folder, use_cache=False)
        shutil.rmtree = lambda p, *a, **k: None if str(p).startswith('/tmp/migrate_script') else fail()
        builtins.input = lambda *a: next(it, 'n')
        sys.stdout = open(os.devnull, 'w')
        sys.argv = [name]
        runpy.run_path(name, run_name='__main__')
        return 'ok'
    except Exception as e:
        return '%s(%s)' % (type(e).__name__, str(e)[:80])
    finally:
        sys.stdout.close() if sys.stdout is not keep[4] else None
        D.GitInterface, D.IEMLDatabase, shutil.rmtree, builtins.input, sys.stdout, sys.argv = keep
        G.GitInterface, I.IEMLDatabase = keep[:2]


def root():
    import ieml
    return os.path.dirname(os.path.dirname(os.path.abspath(ieml.__file__)))


def script(name):
    p = os.path.join(root(), SCRIPT % name)
    return p if os.path.exists(p) else os.path.join(root(), 'scripts', name + '.py')


def judge(r, key, g, out, want, head, changed):
    import pygit2
    now, tree, wt, clean = H.state(g.folder)
    r.require(out == 'ok', key, 'ends with %s' % out)
    r.require(clean == 'refs/heads/master' and wt == tree, key, 'the folder is left with pending changes')
    got, exp = read(tree), read(files(want))
    r.require(got == exp, key, 'missing %s, in excess %s' % tuple(sorted(x for x in sum(a, ()) if sum(a, ()).count(x) > sum(b, ()).count(x)) for a, b in ((exp, got), (got, exp))), key)
    r.require({p for p in tree if tree[p]} == set(files(want)), key, 'files %s' % sorted({p for p in tree if tree[p]} ^ set(files(want))))
    repo = pygit2.Repository(g.folder)
    r.require((now != head) == changed and (not changed or [str(p) for p in repo[now].parent_ids] == [head]), key, 'the history is wrong')
    return tree


def one(r, name, entries, want, again=True, answers=()):
    g = put(files(entries))
    head = str(g.repo.head.target)
    key = '%s%s on %s' % (name, list(answers) or '', [e[0] for e in entries if e not in OTHERS])
    changed = canon(read(files(entries))) != canon(read(files(want)))
    out = maintain(g, script(name), answers)
    r.count('transitions')
    r.count('traces')
    judge(r, key, g, out, want, head, changed)
    if again and changed:
        head = str(g.repo.head.target)
        out = maintain(g, script(name), answers)
        r.count('transitions')
        judge(r, key + ', again', g, out, want, head, False)


def entry(i, key, v):
    kind, singular, _ = POOL[i]
    return key, kind, singular, VALUES[v], ([('is_root', 'True' if '+' in key else 'False')] if kind == 'morpheme' and not singular else [])


def normalize(chunk, r):
    K.quiet()
    to = {s: c for _, _, g in POOL for s, c in g if c}
    for keys in chunk:
        r.count('states')
        entries = OTHERS + [entry(i, k, n % 3) for n, (i, k) in enumerate(keys)]
        one(r, 'normalize_database', entries, move(entries, to))


def rewrite(chunk, r):
    K.quiet()
    to = dict(REWRITE)
    for keys in chunk:
        r.count('states')
        entries = OTHERS + [(k, 'word', True, VALUES[n % 3], []) for n, k in enumerate(keys)]
        one(r, 'rewrite_words', entries, move(entries, to))


def listed():
    """the USLs the script lists"""
    return next(v for v in runpy.run_path(script('remove_usl'), run_name='read').values() if isinstance(v, (list, tuple)) and v and all(isinstance(x, str) and x[0] == '[' for x in v))


def remove(chunk, r):
    K.quiet()
    lines = listed()
    for ks in chunk:
        r.count('states')
        gone = [lines[k] for k in ks if k < len(lines)]
        rest = covering(lines) + [(k, 'word', True, VALUES[2], []) for k in (LONG, '[! E:A:.  ()(wa. y.)]')] + [entry(3, 'wa. y.', 1)]
        # several of them are paradigms
        one(r, 'remove_usl', rest + [(k, 'word', single(k), VALUES[n % 3], []) for n, k in enumerate(gone)], rest)


def covering(usls):
    """roots that hold every morpheme the USLs name"""
    from ieml.usl.usl import usl
    from ieml.dictionary.script import factorize
    from ieml.dictionary.script.tools import promote
    from ieml.dictionary.script import script as S
    layers = {}
    for u in usls:
        for m in usl(u).morphemes:
            for ss in m.singular_sequences:
                layers.setdefault(ss.layer, set()).add(ss)
        for role in usl(u).syntagmatic_fun.actors:
            for ss in role.constant:
                layers.setdefault(ss.layer, set()).add(ss)
    for layer, x in layers.items():
        if layer:
            x |= {promote(S('wa.'), layer), promote(S('wo.'), layer)}
    return [(str(factorize(list(x))), 'morpheme', False, [('fr', 'translations', 'root')], [('is_root', 'True')]) for x in layers.values()]


def single(k):
    from ieml.usl.usl import usl
    return len(usl(k)) == 1


def spelled(chunk, r):
    """a removal without normalisation takes away the entries of the spelling given only"""
    K.quiet()
    d = K.scratch('spelled')
    for i, key in chunk:
        kind, one_, group = POOL[i]
        rows = [('fr', 'translations', 't'), ('fr', 'tags', 't'), ('en', 'translations', 't'), ('en', 'translations', 'u "v"')]
        struct = [('is_root', 'True'), ('inhibition', 'twin'), ('inhibition', 'crossed')] if kind == 'morpheme' and not one_ else []
        entries = [(k, kind, one_, rows, struct) for k, _ in group]
        r.count('states')
        ops = [('d', l, x, v) for l in (None, 'fr', 'en') for x in (None, 'translations', 'tags') for v in (None, 't', 'u "v"')]
        ops += [('s', None, None), ('s', 'inhibition', None), ('s', 'inhibition', 'twin'), ('s', 'is_root', 'True')] if struct else []
        for op in ops:
            K.restore(d, files(entries))
            db = K.database(d)
            try:
                (db.remove_descriptor if op[0] == 'd' else db.remove_structure)(key, *op[1:], normalize=False)
                out = 'ok'
            except Exception as e:
                out = repr(e)
            r.count('transitions')
            r.count('traces')

            def left(rs, k, is_it):
                return [x for x in rs if k != key or not is_it or any(a is not None and a != b for a, b in zip(op[1:], x))]
            want = [(k, kind, one_, left(rows, k, op[0] == 'd'), left(struct, k, op[0] == 's')) for k, _ in group]
            got = K.snapshot(d)
            r.require(out == 'ok' and {p: c for p, c in got.items() if c} == files(want), 'remove %s %s as it is spelled' % (key, op), 'ends with %s and leaves %s' % (out, read(got)))
    K.wipe(d)


FACTOR = [('wo.+wa.', 'U:O:.'), ('wu.+we.', 'A:O:.'), ('y.+o.+e.', 'U:M:.'), ('U:O:.+A:O:.', 'O:O:.')]


def factor(chunk, r):
    K.quiet()
    for keys, answers in chunk:
        r.count('states')
        entries = [('e.', 'morpheme', True, VALUES[2], [])] + [(k, 'morpheme', False, VALUES[n % 3], [('is_root', 'True' if n == 0 else 'False')] + ([('inhibition', 'twin')] if n == 0 else []))
                                                               for n, k in enumerate(keys)]
        # the questions come in the order of the dictionary: one per paradigm that is not factorised
        from ieml.dictionary.script import script as S
        asked = sorted((k for k in keys if dict(FACTOR).get(k)), key=lambda k: S(k))
        to = {k: dict(FACTOR)[k] for k, a in zip(asked, answers) if a == 'y'}
        one(r, 'factorize_db', entries, move(entries, to), again=False, answers=answers)


def failing(chunk, r):
    """one failing call of the file system: done, or nothing changed"""
    K.quiet()
    to = {s: c for _, _, g in POOL for s, c in g if c}
    for keys, k in chunk:
        entries = OTHERS + [entry(i, x, n % 3) for n, (i, x) in enumerate(keys)]
        g = put(files(entries))
        key = 'normalize_database on %s, failing call %d' % ([x for _, x in keys], k)
        st = faults.child(W['dir'], faults.FAIL, k, lambda: maintain(g, script('normalize_database')))
        r.count('traces')
        r.count('points')
        if not r.require(st[0] == 'ok', key, 'unexpected outcome %s' % (st,)):
            continue
        out, _, last = st[1:]
        H.unlock(g.folder)
        now, tree, wt, clean = H.state(g.folder)
        r.require(wt == tree and clean == 'refs/heads/master', key, 'the folder is left with pending changes (%s, %s failed)' % (out, last))
        want = files(move(entries, to) if out == 'ok' else entries)
        r.require(read(tree) == read(want), key, 'ends with %s (%s failed) and holds %s' % (out, last, read(tree)))


def run(ctx):
    faults.ensure()
    import numpy, pandas, pygit2, tqdm
    from ieml.usl.usl import usl
    usl('[! E:A:.  ()(wa.)]')
    flat = [(i, s) for i, (_, _, g) in enumerate(POOL) for s, _ in g]
    n = 3 if THOROUGH else 2
    states = [()] + [c for k in range(1, n + 1) for c in itertools.combinations(flat, k)] + [tuple(reversed(c)) for c in itertools.combinations(flat, 2)]
    states += [tuple((i, s) for s, _ in g) for i, (_, _, g) in enumerate(POOL)] + [tuple(flat)]
    parallel(ctx, normalize, list(dict.fromkeys(states)), chunk=4)
    words = [k for k, _ in REWRITE]
    parallel(ctx, rewrite, [c for k in range(0, (4 if THOROUGH else 3)) for c in itertools.combinations(words, k)] + [tuple(words)], chunk=4)
    parallel(ctx, remove, [c for k in range(0, len(listed()) + 1) for c in itertools.combinations(range(len(listed())), k)], chunk=4)
    ff = []
    for keys in (('wo.+wa.',), ('O:O:.', 'wo.+wa.'), ('O:O:.', 'wu.+we.'), ('O:O:.', 'wo.+wa.', 'wu.+we.'), ('y.+o.+e.',), ('U:O:.+A:O:.',), ('O:M:.', 'y.+o.+e.'), ('O:O:.', 'U:O:.')):
        m = sum(k in dict(FACTOR) for k in keys)
        ff += [(keys, a) for a in itertools.product('yn', repeat=m)]
    parallel(ctx, factor, ff, chunk=1)
    parallel(ctx, spelled, [(i, s) for i, (_, _, g) in enumerate(POOL) for s, c in g if c], chunk=2)
    fd = os.dup(2)
    K.quiet()
    tasks = []
    for keys in ([(0, 'U:S:.'), (6, '[! E:A:. ()(y. wa.)]')], [(1, 'U:M:E:.'), (2, 'S:M:.+B:O:.')], [(7, '[! E:S:. ()(wa.) > E:.n.- ()]')], [(3, 'y. wa.'), (9, 'not an ieml')]):
        g = put(files(OTHERS + [entry(i, x, n % 3) for n, (i, x) in enumerate(keys)]))
        st = faults.child(W['dir'], faults.COUNT, -1, lambda: maintain(g, script('normalize_database')))
        if ctx.require(st[0] == 'ok' and st[1] == 'ok', 'normalize_database on %s' % keys, 'without any fault: %s' % (st,)):
            tasks += [(keys, k) for k in range(1, st[2] + 1)]
    ctx.count('failing', len(tasks))
    os.dup2(fd, 2)
    parallel(ctx, failing, tasks, chunk=4)
    ctx.bounds = {'normalising': 'every set of <= %d of %d spellings, both orders of pairs, every group of spellings of one IEML, all at once' % (n, len(flat)),
                  'rewriting': 'every set of <= %d of %d words' % (3 if THOROUGH else 2, len(words)), 'removing': 'every subset of the listed USLs', 'factorising': '%d databases and answers' % len(ff),
                  'removals': 'every spelling with every choice of fields, its other spellings stored beside it',
                  'failing calls': 'every file system call of 4 databases'}
    ctx.assumptions = ['the address and folder written in the scripts are replaced by a scratch repository']
