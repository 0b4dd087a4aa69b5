"""C22 the transactions on paradigms, descriptors and inhibitions: from every state of the database, each call does what it announces in
whole or is refused and changes nothing."""
import csv
import io
import itertools
import os
from mc import dbkit as K, gitkit as H, faults
from mc.core import parallel, THOROUGH
from mc.checks import c16
from mc.checks.c16 import S, den

# -- states: (rows (ieml, language, descriptor, value), structure rows (ieml, key, value)), sorted tuples ------
MORPHEMES = ['wa.', 'y.', 'o.', 'e.', 'E:A:.', 'O:M:.', 'O:S:+B:.', 'U:M:.', 'A:M:.', 'O:S:.', 'M:O:.', 'M:U:.', 'O:M:O:.', 'O:M:U:.', 'O:M:A:.', 'O:M:.+M:O:.', 'U:S:.', 's.y.-', 'F:.',
             'U:S:+B:.', 'I:M:.', 'S:O:.', 'T:O:.']


def canon(state):
    return tuple(sorted(state[0])), tuple(sorted(state[1]))


def rows(root, tr, co=()):
    return [(root, l, d, v) for d, x in (('translations', tr), ('comments', co)) for l, vs in dict(x).items() for v in vs]


def root_state(root, tr='r', inh=(), subs=()):
    d = [(root, 'fr', 'translations', tr)] + [(s, 'fr', 'translations', 't' + s) for s in subs]
    return d, [(root, 'is_root', 'True')] + [(root, 'inhibition', i) for i in inh] + [(s, 'is_root', 'False') for s in subs]


def join(*xs):
    return canon((sum((list(x[0]) for x in xs), []), sum((list(x[1]) for x in xs), [])))


STARTS = {
    'empty': ((), ()),
    'one root': join(root_state('O:M:.', 'r', ['twin'], ['U:M:.', 'O:S:+B:.']), ([('y.', 'fr', 'translations', 'w'), ('y.', 'en', 'tags', 'g'), ('wa.', 'fr', 'tags', 'out')], [])),
    'small root': join(root_state('O:S:+B:.', 'r', ['twin', 'opposed'], ['U:S:+B:.']), ([('O:S:+B:.', 'en', 'comments', 'c'), ('O:S:+B:.', 'fr', 'translations', 'r2')], [])),
    'two roots': join(root_state('O:M:.', 'r', [], ['U:M:.']), root_state('S:O:.', 'q', ['crossed']), ([('y. o.', 'fr', 'translations', 'pm'), ('o. e.', 'fr', 'tags', 'pm2')], [])),
    'described only': join(([('O:M:.', 'fr', 'translations', 'x'), ('y.', 'fr', 'translations', 'w'), ('y. o.', 'en', 'comments', 'pm')], [])),
    'deep root': join(root_state('O:M:O:.', 'r', ['associated'], ['O:M:U:.'])),
    'columns': join(root_state('U:M:.', 'col'), root_state('M:U:.', 'row')),
}

TR = {'fr': ['t'], 'en': ['a', 'b']}


def ops():
    out = []
    for root in ('O:M:.', 'O:S:+B:.', 'U:M:.', 'M:O:.', 'O:M:O:.', 'O:M:.+M:O:.', 'wa.'):
        out.append(('create', root, ('twin',), ('fr', 't', 'en', 'a'), ('fr', 'c')))
    out.append(('create', 'O:M:.', (), (), ()))
    out.append(('create', 'O:M:O:.', ('opposed', 'crossed'), (), ()))
    out.append(('create', 'O:M:O:.', (), ('en', 'a'), ()))
    for p in ('O:M:.', 'U:M:.', 'A:M:.', 'O:S:.', 'U:S:+B:.', 'O:S:+B:.', 'M:U:.', 'O:M:A:.', 'O:M:.+M:O:.', 'wa.', 's.y.-', 'S:O:.'):
        out.append(('add', p, ('fr', 't', 'en', 'a'), ('en', 'c')))
    out.append(('add', 'A:M:.', ('fr', 't'), ()))
    for p in ('O:M:.', 'O:S:+B:.', 'U:M:.', 'S:O:.', 'O:M:O:.', 'wa.'):
        out += [('delroot', p, True), ('delroot', p, False)]
    for p in ('U:M:.', 'A:M:.', 'O:M:.', 'O:S:+B:.', 'wa.', 'y.', 'O:M:U:.', 's.y.-'):
        out.append(('del', p))
    for a, b in [('U:M:.', 'A:M:.'), ('U:M:.', 'O:S:.'), ('U:M:.', 'O:M:.'), ('U:M:.', 'M:U:.'), ('U:M:.', 's.y.-'), ('U:M:.', 'F:.'), ('U:M:.', 'U:M:.'), ('U:M:.', 'y.'), ('y.', 'A:M:.'),
                 ('y.', 'o.'), ('O:S:+B:.', 'O:M:.'), ('O:S:+B:.', 'U:M:.'), ('O:S:+B:.', 'O:S:.'), ('O:M:.', 'O:S:+B:.'), ('O:M:.', 'I:M:.'), ('O:M:.', 'M:O:.'), ('O:M:.', 'O:M:.+M:O:.'),
                 ('O:M:.', 'O:M:O:.'), ('s.y.-', 'A:M:.'), ('U:S:+B:.', 'A:M:.'), ('O:M:U:.', 'O:M:A:.'), ('S:O:.', 'T:O:.'), ('S:O:.', 'M:O:.')]:
        out.append(('update', a, b))
    for ie in ('wa.', 'y.', 'O:M:.', 'A:M:.', 'y. o.', '[! E:A:.  ()(y.)]'):
        out += [('set', ie, 'translations', ('fr', 'n')), ('set', ie, 'translations', ()), ('set', ie, 'tags', ('fr', 'b a', 'fr', 'b a', 'en', 'é"'))]
    out += [('set', 'y.', 'translations', ('fr', 'w', 'fr', 'w')), ('set', 'wa.', 'tags', ('fr', 'b a', 'en', 'é"'))]
    out += [('set', 'y.', 'translations', ('fr', 'w')), ('set', 'y.', 'tags', ()), ('set', 'y.', 'translations', ('fr', ' w ', 'en', '')), ('set', 'O:S:+B:.', 'translations', ('fr', 'r2', 'fr', 'r')),
            ('set', 'y.', 'tags', ('en', 'x\ny')), ('set', 'O:M:.', 'comments', ('fr', 'w'))]
    for p in ('O:M:.', 'O:S:+B:.', 'S:O:.', 'U:M:.', 'wa.'):
        out += [('inhibit', p, ()), ('inhibit', p, ('twin',)), ('inhibit', p, ('crossed', 'twin'))]
    out.append(('inhibit', 'O:M:.', ('nothing',)))
    out += [('all', f) for f in FS]
    return out


class Stop(Exception):
    pass


def stop(x):
    if x == 'o. e.':
        raise Stop()
    return x


CYCLE = {'y. o.': 'o. e.', 'o. e.': 'y. o.', 'y.': 'o.', 'o.': 'e.'}
FS = {
    'identity': lambda x: x,
    'rename': lambda x: 'y. e.' if x == 'y. o.' else x,
    'permute': lambda x: CYCLE.get(x, x),
    'collapse': lambda x: 'y. o.' if x in ('o. e.', 'y. e.', 'y.', 'e.') else x,
    'stop': stop,
    'invalid': lambda x: 'not ieml' if x == 'y.' else x,
}


def multi(x):
    """('fr', v, 'en', w) -> {'fr': [v], 'en': [w]}"""
    out = {}
    for l, v in zip(x[::2], x[1::2]):
        out.setdefault(l, []).append(v)
    return out


# -- model --------------------------------------------------------------------------------------
class Refused(Exception):
    pass


def morphemes(ie):
    return ['E:A:.', 'y.'] if ie.startswith('[') else ie.split(' ')


_D = {}


def is_morpheme(ie):
    return ie in MORPHEMES


def dictionary(state):
    """({script: root} of the dictionary, roots, {script: elements of the dictionary it contains})"""
    key = (tuple(sorted({x[0] for x in state[0]})), state[1])
    if key not in _D:
        paradigms = [ie for ie in key[0] if is_morpheme(ie) and len(S(ie)) > 1]
        try:
            d = c16.make(paradigms, state[1])
        except ValueError as e:
            _D[key] = None
        else:
            root = {}
            for r in d.tables.roots:
                for t in d.tables.roots[r]:
                    root[str(t.script)] = str(r)
            inside = {r: [s for s in root if root[s] == r and den(S(s)) <= den(S(r))] for r in set(root.values())}
            _D[key] = root, set(root.values()), inside
    if _D[key] is None:
        raise Refused('the dictionary is not valid')
    return _D[key]


def clean(v):
    return v.strip().replace('\n', '\\n')


def step(state, op):
    """(new state, exact number of commits or None), or Refused"""
    desc, struct = list(state[0]), list(state[1])

    def without(xs, ie):
        return [x for x in xs if x[0] != ie]
    if op[0] == 'create':
        _, root, inh, tr, co = op
        if len(S(root)) == 1 or any(x[0] == root for x in desc):
            raise Refused
        known = dictionary(state)[0]
        if any(ss in known for ss in den(S(root))):
            raise Refused
        struct = [x for x in struct if x[:2] != (root, 'is_root')] + [(root, 'is_root', 'True')] + [(root, 'inhibition', i) for i in inh]
        desc += rows(root, multi(tr), multi(co))
        n = 1
        for i, t in enumerate(t for t in S(root).tables_script if str(t) != root):
            def nb(x):
                return tuple(v + str(i) if k % 2 else v for k, v in enumerate(x))
            desc, struct = step(canon((desc, struct)), ('add', str(t), nb(tr), nb(co)))[0]
            desc, struct = list(desc), list(struct)
            n += 1
        return canon((desc, struct)), None
    if op[0] == 'add':
        _, p, tr, co = op
        root = dictionary(state)[0]
        rs = {root.get(ss) for ss in den(S(p))}
        if len(S(p)) == 1 or p in root or len(rs) != 1 or None in rs:
            raise Refused
        return canon((without(desc, p) + rows(p, multi(tr), multi(co)), without(struct, p) + [(p, 'is_root', 'False')])), 1
    if op[0] == 'delroot':
        _, p, empty = op
        _, roots, inside = dictionary(state)
        if p not in roots:
            raise Refused
        if empty:
            desc = [x for x in desc if x[0] not in inside[p]]
        return canon((desc, without(struct, p))), 1
    if op[0] == 'del':
        root = dictionary(state)[0]
        if op[1] not in root or len(S(op[1])) == 1:
            raise Refused
        return canon((without(desc, op[1]), without(struct, op[1]))), 1
    if op[0] == 'update':
        _, a, b = op
        if a == b:
            return state, 0
        root = dictionary(state)[0]
        if len(S(a)) == 1 or len(S(b)) == 1 or a not in root or b in root:
            raise Refused
        is_root = (a, 'is_root', 'True') in struct
        rs = {root.get(ss) for ss in den(S(b))}
        if is_root:
            if rs - {None} != {a} or not den(S(a)) <= den(S(b)):
                raise Refused
            struct = without(struct, a) + [(b,) + x[1:] for x in struct if x[0] == a] + [(a, 'is_root', 'False')]
            mine = [x for x in desc if x[0] == a]
            desc = without(desc, a) + [(b,) + x[1:] for x in mine] + [x[:3] + (clean('(translation migrated to %s) ' % b + x[3]),) for x in mine]
        else:
            if len(rs) != 1 or None in rs:
                raise Refused
            struct = without(struct, a) + [(b, 'is_root', 'False')]
            desc = without(desc, a) + [(b,) + x[1:] for x in desc if x[0] == a]
        return canon((desc, struct)), 1
    if op[0] == 'set':
        _, ie, d, val = op
        new = [clean(x[3]) and x[:3] + (clean(x[3]),) for x in rows(ie, multi(val)) for x in [(ie, x[1], d, x[3])]]
        return canon(([x for x in desc if x[0] != ie or x[2] != d] + [x for x in new if x], struct)), None
    if op[0] == 'inhibit':
        _, p, inh = op
        if p not in dictionary(state)[1] or 'nothing' in inh:
            raise Refused
        old = {x[2] for x in struct if x[:2] == (p, 'inhibition')}
        struct = [x for x in struct if x[:2] != (p, 'inhibition') or x[2] in inh] + [(p, 'inhibition', i) for i in inh if i not in old]
        return canon((desc, struct)), None
    if op[0] == 'all':
        known = dictionary(state)[0]
        out = []
        for x in desc:
            if not all(m in known for m in morphemes(x[0])):
                out.append(x)
                continue
            try:
                y = FS[op[1]](x[0])
            except Stop:
                raise Refused
            if y == 'not ieml':
                raise Refused
            out.append((y,) + x[1:])
        return canon((out, struct)), None


# -- the code --------------------------------------------------------------------------------------
def U(ie):
    from ieml.usl.usl import usl
    return S(ie) if is_morpheme(ie) else usl(ie)


def perform(t, op):
    import copy
    k, a = op[0], op[1:]
    if k == 'create':
        t.create_root_paradigm(S(a[0]), list(a[1]), multi(a[2]), multi(a[3]))
    elif k == 'add':
        t.add_morpheme_paradigm(S(a[0]), multi(a[1]), multi(a[2]))
    elif k == 'delroot':
        t.delete_morpheme_root_paradigm(S(a[0]), empty_descriptors=a[1])
    elif k == 'del':
        t.delete_morpheme_paradigm(S(a[0]))
    elif k == 'update':
        t.update_morpheme_paradigm(S(a[0]), S(a[1]))
    elif k == 'set':
        t.set_descriptors(U(a[0]), a[1], multi(a[2]))
    elif k == 'inhibit':
        t.set_inhibitions(S(a[0]), list(a[1]))
    elif k == 'all':
        t.update_all_ieml(lambda u: FS[a[0]](str(u)), 'test')


def attempt(fn, *a):
    try:
        fn(*a)
        return 'ok'
    except Exception as e:
        return '%s(%s)' % (type(e).__name__, str(e)[:80])


def read(files):
    """the rows of a tree, read independently of the code"""
    desc, struct = [], []
    for p, c in files.items():
        if p.endswith('.desc') or p.endswith('.ieml'):
            for row in csv.reader(io.StringIO(c.decode('utf8'), newline=''), delimiter=' '):
                (desc if p.endswith('.desc') else struct).append(tuple(row))
    return canon((desc, struct))


def q(v):
    return v.replace('"', '""')


W = {}


def site():
    """the clone this process works on"""
    if W.get('pid') != os.getpid():
        from ieml.ieml_database import GitInterface
        W['pid'] = os.getpid()
        d = K.scratch('tx')
        W['first'] = str(H.bare(os.path.join(d, 'origin'), [{'README.md': b'readme\n'}])[0])
        W['g'] = GitInterface(origin=os.path.join(d, 'origin'), folder=os.path.join(d, 'db'))
        W['db'] = K.database(W['g'].folder)
        W['dir'] = d
    return W['g']


def files_of(state):
    out = {'README.md': b'readme\n'}
    g = site()
    for ie, l, d, v in state[0]:
        p = os.path.relpath(W['db'].path_of(U(ie)), g.folder)
        out[p] = out.get(p, b'') + ('"%s" %s %s "%s"\n' % (q(ie), l, d, q(v))).encode()
    for ie, k, v in state[1]:
        p = os.path.relpath(W['db'].path_of(U(ie), descriptor=False), g.folder)
        out[p] = out.get(p, b'') + ('"%s" %s "%s"\n' % (ie, k, v)).encode()
    return out


def put(state):
    """the clone holds the state, as one commit after the first"""
    import pygit2
    g = site()
    repo = pygit2.Repository(g.folder)
    c = H.commit(repo, files_of(state), [W['first']], ref=None)
    repo.reset(c, pygit2.GIT_RESET_HARD)
    for p in H.worktree(g.folder):
        if p not in files_of(state):
            os.remove(os.path.join(g.folder, p))
    return g


def show(s):
    return {'desc': [' '.join(x) for x in s[0]], 'structure': [' '.join(x) for x in s[1]]}


def diff(a, b):
    a, b = list(a[0]) + list(a[1]), list(b[0]) + list(b[1])
    return 'missing %s, in excess %s' % (sorted(x for x in b if x not in a or a.count(x) < b.count(x)), sorted(x for x in a if x not in b or b.count(x) < a.count(x)))


def judge(r, key, g, state, op, out, head):
    """compare what the code did with the model; returns the state reached"""
    import pygit2
    try:
        want, n = step(state, op)
        refused = False
    except Refused:
        want, n, refused = state, 0, True
    now, tree, wt, clean_ = H.state(g.folder)
    got = read(tree)
    r.require((out != 'ok') == refused, key, '%s expected, it ends with %s' % ('a refusal is' if refused else 'success is', out))
    r.require(clean_ == 'refs/heads/master' and wt == tree, key, 'the folder is left with pending changes (ends with %s)' % out)
    r.require(got == want, key, 'the database: %s (ends with %s)' % (diff(got, want), out))
    r.require(tree.get('README.md') == b'readme\n', key, 'another file is changed')
    if refused:
        r.require(now == head, key, 'refused (%s) but the head moves' % out)
    else:
        repo, k, c = pygit2.Repository(g.folder), 0, now
        while c != head and k < 10:
            x = repo[c]
            r.require(len(x.parent_ids) == 1 and x.author.name == 'someone', key, 'a commit with parents %s by %s' % ([str(p) for p in x.parent_ids], x.author.name))
            c, k = str(x.parent_ids[0]), k + 1
        r.require(c == head, key, 'the commits do not follow the head')
        r.require(k == n if n is not None else (k >= 1 if want != state else k <= 1), key, '%d commits' % k)
    return got


def transactions(g, **k):
    from ieml.ieml_database.transactions.DBTransaction import DBTransactions
    return DBTransactions(g, H.sig('someone'), **k)


def name(op):
    return '%s(%s)' % (op[0], ', '.join(str(x) for x in op[1:]))


def overlaps():
    """(state, operation): roots holding each part of the sequences of a paradigm, so that the paradigm meets none, one or two roots anywhere"""
    from ieml.dictionary.script import factorize
    out = []
    for target, side in (('O:O:.', ('y.', 'o.')), ('O:M:.', ('wa.', 'wo.'))):
        seqs = sorted(den(S(target)))
        parts = [x for n in range(1, len(seqs)) for x in itertools.combinations(seqs, n) if THOROUGH or n in (1, len(seqs) - 1) or x[0] == seqs[0]]

        def over(part, k):
            return str(factorize(S('+'.join(part + (side[k],)))))
        for part in parts:
            rest = tuple(x for x in seqs if x not in part)
            one, other = over(part, 0), over(rest, 1)
            inside = str(factorize(S('+'.join(part)))) if len(part) > 1 else None
            MORPHEMES.extend(x for x in (target, one, other, inside) if x and x not in MORPHEMES)
            ops = [('create', target, ('twin',), ('fr', 't'), ()), ('add', target, ('fr', 't'), ())]
            for state in (join(root_state(one, 'r', ['twin'])), join(root_state(one), root_state(other, 'q', ['opposed']))):
                out += [(state, o) for o in ops + [('update', one, target)]]
            if inside:
                out.append((join(root_state(one, 'r', [], [inside])), ('update', inside, target)))
                out.append((join(root_state(one, 'r', [], [inside]), root_state(other)), ('update', inside, target)))
                out.append((join(root_state(inside)), ('update', inside, target)))
                out.append((join(root_state(inside), root_state(other)), ('update', inside, target)))
            out.append((join(root_state(target, 'r', [], [inside] if inside else [])), ('create', one, (), (), ())))
            out.append((join(root_state(target)), ('add', one, ('fr', 't'), ())))
    return out


def pairs(chunk, r):
    K.quiet()
    for state, op in chunk:
        g = put(state)
        head = str(g.repo.head.target)
        r.count('states')
        r.count('transitions')
        r.count('traces')
        judge(r, 'from %s: %s' % (show(state), name(op)), g, state, op, attempt(perform, transactions(g, use_cache=False), op), head)


def steps(chunk, r):
    K.quiet()
    for state in chunk:
        r.count('states')
        dirty = True
        for op in ops():
            if dirty:
                g = put(state)
            head = str(g.repo.head.target)
            key = 'from %s: %s' % (show(state), name(op))
            out = attempt(perform, transactions(g, use_cache=False), op)
            r.count('transitions')
            r.count('traces')
            dirty = judge(r, key, g, state, op, out, head) != state or str(g.repo.head.target) != head


def histories(chunk, r):
    """sequences on one clone with the default cache; the next transaction sees the previous one"""
    K.quiet()
    for start, hist in chunk:
        state = STARTS[start]
        g = put(state)
        for f in os.listdir(g.folder):
            if f.startswith('.') and f != '.git':
                os.remove(os.path.join(g.folder, f))
        r.count('states')
        t = transactions(g)
        for n, op in enumerate(hist):
            head = str(g.repo.head.target)
            out = attempt(perform, t, op)
            r.count('transitions')
            r.count('traces')
            state = judge(r, 'from %s: %s' % (start, '; '.join(map(name, hist[:n + 1]))), g, state, op, out, head)


def failing(chunk, r):
    """one failing call of the file system: done, or refused with nothing changed"""
    K.quiet()
    for start, op, k in chunk:
        state = STARTS[start]
        want, _ = step(state, op)
        g = put(state)
        key = 'from %s: %s, failing call %d' % (start, name(op), k)
        head = str(g.repo.head.target)
        st = faults.child(W['dir'], faults.FAIL, k, lambda: attempt(perform, transactions(g, use_cache=False), op))
        r.count('traces')
        r.count('points')
        if not r.require(st[0] == 'ok', key, 'unexpected outcome %s' % (st,)):
            continue
        out, _, last = st[1:]
        H.unlock(g.folder)
        now, tree, wt, clean_ = H.state(g.folder)
        got = read(tree)
        r.require(wt == tree and clean_ == 'refs/heads/master', key, 'the folder is left with pending changes (%s, %s failed)' % (out, last))
        r.require(got == want if out == 'ok' else got == state, key, 'ends with %s (%s failed), the database: %s' % (out, last, diff(got, want)))


def reachable(depth):
    seen, level = dict.fromkeys(STARTS.values()), list(STARTS.values())
    for _ in range(depth):
        nxt = []
        for s in level:
            for op in ops():
                try:
                    n, _ = step(s, op)
                except Refused:
                    continue
                if n not in seen and len(n[0]) <= 12:
                    seen[n] = None
                    nxt.append(n)
        level = nxt
    return list(seen)


def args(op):
    return {x for x in op[1:3] if isinstance(x, str)} - {'translations', 'tags', 'comments'}


def run(ctx):
    faults.ensure()
    import numpy, pandas, pygit2
    from ieml.usl.usl import usl
    from ieml.ieml_database.transactions import DBTransaction
    usl('[! E:A:.  ()(wa.)]')
    fd = os.dup(2)
    K.quiet()
    states = reachable(2 if THOROUGH else 0)
    ctx.count('reached', len(states))
    tasks = []
    for start in STARTS:
        for op in ops():
            try:
                n, _ = step(STARTS[start], op)
            except Refused:
                continue
            if n != STARTS[start]:
                tasks.append((start, op))
    eff = list(tasks)
    over = overlaps()
    ctx.count('overlaps', len(over))
    os.dup2(fd, 2)
    parallel(ctx, steps, states, chunk=2)
    parallel(ctx, pairs, over, chunk=8)
    hist = [(s, (a, b)) for s, a in eff for b in ops() if THOROUGH or 'all' in (a[0], b[0]) or args(a) & args(b)]
    parallel(ctx, histories, hist, chunk=20)
    fd = os.dup(2)
    K.quiet()
    tasks = []
    for start, op in (eff if THOROUGH else eff[::5]):
        g = put(STARTS[start])
        st = faults.child(W['dir'], faults.COUNT, -1, lambda: attempt(perform, transactions(g, use_cache=False), op))
        if ctx.require(st[0] == 'ok' and st[1] == 'ok', '%s: %s' % (start, name(op)), 'without any fault: %s' % (st,)):
            tasks += [(start, op, k) for k in range(1, st[2] + 1)]
    os.dup2(fd, 2)
    parallel(ctx, failing, tasks, chunk=4)
    ctx.bounds = {'operations': len(ops()), 'states': 'all reached by <= %d transactions from %d databases' % (2 if THOROUGH else 0, len(STARTS)),
                  'overlaps': '%d calls where the roots of the database hold each%s part of the sequences of O:O:. and O:M:.' % (len(over), '' if THOROUGH else ' (single, all but one, or with the first)'),
                  'histories': '%d sequences of two on one clone with its cache%s' % (len(hist), '' if THOROUGH else ', the second on an IEML of the first'),
                  'failing calls': 'every file system call of %d transactions' % len(eff if THOROUGH else eff[::5])}
    ctx.assumptions = ['the dictionary a state stands for is built by the code (C16 decides it)', 'one failing call per run']
