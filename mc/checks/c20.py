"""C20 a transaction on the git database is all or nothing, whatever fails and wherever the process dies."""
import itertools
import os
from mc import dbkit as K, gitkit as H, faults
from mc.core import parallel, THOROUGH

# -- universe ---------------------------------------------------------------------------
OPS = [
    ('add', 'a.', 'fr', 'translations', 'new'), ('add', 'O:M:.', 'en', 'tags', 'é "q"'), ('remove', 'a.', 'fr', 'translations', 'x'),
    ('remove', 'a.', None, None, None), ('remove', 'y.', None, None, None),
    ('add', 'wo. wa.', 'fr', 'comments', 'pm'), ('add', '[! E:A:. ()(a.)]', 'fr', 'translations', 'w'),
    ('sadd', 'O:M:.', 'inhibition', 'twin'), ('sremove', 'O:M:.', None, None), ('swap', 'y.'),
]
BASE = [('add', 'a.', 'fr', 'translations', 'x'), ('add', 'a.', 'en', 'tags', 'y'), ('add', 'y.', 'fr', 'translations', 'u'),
        ('add', 'O:M:.', 'fr', 'translations', 'root'), ('sadd', 'O:M:.', 'is_root', True)]


class Stop(Exception):
    pass


def apply(db, op):
    if op[0] == 'add':
        db.add_descriptor(*op[1:])
    elif op[0] == 'remove':
        db.remove_descriptor(*op[1:])
    elif op[0] == 'sadd':
        db.add_structure(*op[1:])
    elif op[0] == 'sremove':
        db.remove_structure(*op[1:])
    elif op[0] == 'swap':
        # another value of the same length, right away
        db.remove_descriptor(op[1], 'fr', 'translations', 'u')
        db.add_descriptor(op[1], 'fr', 'translations', 'v')
    elif op[0] == 'raise':
        raise op[1]('stop')


_CONTENT = {}


def content(files, ops):
    """what the operations make of these files (in a plain folder)"""
    key = (tuple(sorted(files.items())), tuple(map(str, ops)))
    if key not in _CONTENT:
        d = K.scratch('plain')
        K.restore(d, files)
        db = K.database(d)
        for o in ops:
            apply(db, o)
        _CONTENT[key] = K.snapshot(d)
        K.wipe(d)
    return _CONTENT[key]


T = {}


def template():
    """a bare origin with two commits and a clone of it, made once; a case works on a copy"""
    if T:
        return
    from ieml.ieml_database import GitInterface
    T['dir'] = K.scratch('tmpl')
    first = content({'README.md': b'readme\n'}, BASE[:3])
    second = content(first, BASE[3:])
    T['origin'] = os.path.join(T['dir'], 'origin')
    T['commits'] = [str(c) for c in H.bare(T['origin'], [first, second])]
    T['trees'] = dict(zip(T['commits'], [first, second]))
    T['clone'] = os.path.join(T['dir'], 'clone')
    GitInterface(origin=T['origin'], folder=T['clone'])
    T['base'] = second


def fresh():
    d = K.scratch('git')
    return H.copy(T['clone'], os.path.join(d, 'db'))


def opened(folder):
    from ieml.ieml_database import GitInterface
    return GitInterface(origin=T['origin'], folder=folder)


def transact(g, ops, msg, name='tester'):
    db = K.database(g.folder)
    with g.commit(H.sig(name), msg):
        for o in ops:
            apply(db, o)


def attempt(fn, *a):
    try:
        return 'ok', fn(*a)
    except BaseException as e:
        return 'err', type(e).__name__


def sound(r, key, folder, want_tree, case=None):
    """nothing pending and the files are those of the head, which are the expected ones"""
    head, tree, wt, clean = H.state(folder)
    r.require(clean == 'refs/heads/master', key, 'the repository is left with pending changes or off the branch: %s' % (clean,), case)
    r.require(wt == tree, key, 'the files are not those of the head commit', case)
    r.require(tree == want_tree, key, 'the head commit holds %s, expected %s' % (show(tree), show(want_tree)), case)
    return head


def show(t):
    return {p: c.decode('utf8', 'replace')[:60] for p, c in sorted(t.items()) if p != 'README.md'}


# -- histories of transactions -----------------------------------------------------------
def histories(chunk, r):
    import pygit2
    K.quiet()
    for hist in chunk:
        folder = fresh()
        g = opened(folder)
        files = T['base']
        head = H.state(folder)[0]
        r.count('states')
        for n, ops in enumerate(hist):
            key = 'history %s' % '; '.join(','.join(map(str, o)) for o in hist[:n + 1])
            msg, who = 'transaction %d é' % n, 'author%d' % n
            out = attempt(transact, g, ops, msg, who)
            r.count('transitions')
            r.count('traces')
            raised = [o[1].__name__ for o in ops if o[0] == 'raise']
            r.require(out[0] == ('err' if raised else 'ok') and (not raised or out[1] == raised[0]), key, 'ends with %s' % (out,))
            if not raised:
                after = content(files, ops)
            else:
                after = files
            now = sound(r, key, folder, after)
            c = pygit2.Repository(folder)[now]
            if after == files:
                r.require(now == head, key, 'a commit without any change')
            else:
                r.require([str(p) for p in c.parent_ids] == [head], key, 'the commit does not follow the head')
                r.require(c.message == msg and c.author.name == who, key, 'message or author')
            r.require(g.get_version() == ('master', now) and g.current_commit == now, key, 'announced version')
            head, files = now, after
        K.wipe(os.path.dirname(folder))


# -- start from a dirty folder; reset and checkout -------------------------------------------
DIRT = {
    'modified': lambda d: open(os.path.join(d, A), 'a').write('"a." fr tags "dirt"\n'),
    'same size': lambda d: _swap(os.path.join(d, A)),
    'deleted': lambda d: os.remove(os.path.join(d, A)),
    'new': lambda d: open(os.path.join(d, os.path.dirname(A), 'b..desc'), 'w').write('"b." fr tags "dirt"\n'),
    'new folder': lambda d: (os.makedirs(os.path.join(d, 'word', 'singular', 'z')), open(os.path.join(d, 'word', 'singular', 'z', 'z.desc'), 'w').write('dirt')),
    'new at the root': lambda d: open(os.path.join(d, 'x.desc'), 'w').write('dirt'),
    'emptied': lambda d: open(os.path.join(d, A), 'w').close(),
    'readme': lambda d: open(os.path.join(d, 'README.md'), 'w').write('dirt'),
    'staged': lambda d: _stage(d),
    'staged deletion': lambda d: _stage(d, True),
}
A = 'morpheme/singular/a..desc'


def _swap(p):
    s = open(p).read()
    open(p, 'w').write(s.replace('"x"', '"z"'))


def _stage(d, rm=False):
    import pygit2
    repo = pygit2.Repository(d)
    if rm:
        os.remove(os.path.join(d, A))
        repo.index.remove(A)
    else:
        os.makedirs(os.path.join(d, 'lexeme'), exist_ok=True)
        with open(os.path.join(d, 'lexeme', 's.desc'), 'w') as fp:
            fp.write('dirt')
        repo.index.add('lexeme/s.desc')
    repo.index.write()


def dirty(chunk, r):
    K.quiet()
    for names, how in chunk:
        key = '%s then %s' % (' + '.join(names), how)
        folder = fresh()
        g = opened(folder)
        with open(os.path.join(folder, '.cache'), 'w') as fp:
            fp.write('kept')
        for n in names:
            DIRT[n](folder)
        r.count('states')
        r.count('traces')
        before = H.worktree(folder)
        if how == 'transaction':
            out = attempt(transact, g, [OPS[0]], 'm')
            r.require(out == ('err', 'ValueError'), key, 'ends with %s' % (out,))
            r.require(H.worktree(folder) == before, key, 'the refused transaction changes the files')
            r.require(H.state(folder)[0] == T['commits'][1], key, 'the refused transaction moves the head')
        else:
            want = T['commits'][1]
            if how == 'reset':
                out = attempt(g.reset)
            elif how == 'checkout':
                out = attempt(g.checkout)
            elif how == 'open':
                out = attempt(opened, folder)
            else:
                want = T['commits'][0]
                out = attempt(g.reset if how == 'reset to the first commit' else lambda c: g.checkout('master', c), want)
            r.require(out[0] == 'ok', key, 'ends with %s' % (out,))
            now = sound(r, key, folder, T['trees'][want])
            r.require(now == want, key, 'the head is %s' % now)
            out = attempt(transact, g, [OPS[0]], 'm')
            r.require(out == ('ok', None), key, 'a transaction afterwards ends with %s' % (out,))
            sound(r, key, folder, content(T['trees'][want], [OPS[0]]))
        r.require(open(os.path.join(folder, '.cache')).read() == 'kept', key, 'a file of the root starting with a dot is touched')
        K.wipe(os.path.dirname(folder))


# -- crashes and faults -------------------------------------------------------------------
BODIES = [
    ('one addition', [OPS[0]]), ('two files', [OPS[0], OPS[1]]), ('deletion', [OPS[3]]), ('new folder', [OPS[5], OPS[6]]),
    ('emptied and deleted', [OPS[2], OPS[4]]), ('everything', [OPS[0], OPS[4], OPS[5], OPS[7], OPS[9]]), ('nothing', []),
]


def scenario(name):
    """(function of the folder, contents the database may hold afterwards, True when the operation rolls back by itself)"""
    kind, arg = name
    if kind == 'transaction':
        ops = dict(BODIES)[arg]
        return (lambda f: transact(GIT(f), ops, 'm')), [T['base'], content(T['base'], ops)]
    if kind == 'aborted':
        ops = dict(BODIES)[arg] + [('raise', Stop)]
        return (lambda f: transact(GIT(f), ops, 'm')), [T['base']]
    if kind == 'reset':
        return (lambda f: soiled(f, GIT(f)).reset(T['commits'][0])), [T['base'], T['trees'][T['commits'][0]]]
    if kind == 'open':
        return (lambda f: (dirt(f), opened(f))), [T['base']]
    if kind == 'clone':
        return (lambda f: opened(f)), [T['base']]


def dirt(f):
    faults.pause()
    for n in ('modified', 'new', 'new folder'):
        DIRT[n](f)
    faults.resume()


def GIT(folder):
    """the interface on an existing folder, its opening steps are not points"""
    faults.pause()
    g = opened(folder)
    faults.resume()
    return g


def soiled(folder, g):
    dirt(folder)
    return g


def place(name):
    if name[0] == 'clone':
        return os.path.join(K.scratch('git'), 'db')
    return fresh()


def points(chunk, r):
    K.quiet()
    for name, mode, k in chunk:
        key = '%s: %s at call %d' % (' '.join(name), {faults.DIE: 'crash', faults.TORN: 'torn write', faults.FAIL: 'failing call'}[mode], k)
        fn, allowed = scenario(name)
        folder = place(name)
        root = os.path.dirname(folder)
        before = T['commits'][1]
        st = faults.child(root, mode, k, lambda: attempt(fn, folder))
        r.count('traces')
        r.count('states')
        if mode != faults.FAIL:
            r.require(st[0] == 'dead' or st[2] < k, key, 'unexpected outcome %s' % (st,))
        else:
            r.require(st[0] == 'ok', key, 'unexpected outcome %s' % (st,))
            if st[0] == 'ok':
                out, n, last = st[1:]
                if out[0] == 'ok' and name[0] in ('transaction', 'reset', 'clone', 'open') and not (name[0] == 'transaction' and not dict(BODIES)[name[1]]):
                    # reported as done: it must be
                    got = H.state(folder)
                    r.require(got[1] == allowed[-1] and got[2] == allowed[-1] and got[3], key,
                              'reported as done (%s failed), the files are %s' % (last, show(got[2])))
                elif name[0] == 'transaction':
                    # reported as failed: nothing is left of it
                    H.unlock(folder)
                    got = H.state(folder)
                    r.require(got[2] == T['base'] and got[1] == T['base'] and got[3], key,
                              'reported as failed (%s failed), the files are %s, pending: %s' % (last, show(got[2]), not got[3]))
        if os.path.isdir(os.path.join(folder, '.git')):
            H.unlock(folder)
        out = attempt(opened, folder)
        r.require(out[0] == 'ok', key, 'the database cannot be opened afterwards: %s' % (out,))
        if out[0] == 'ok':
            head, tree, wt, clean = H.state(folder)
            r.require(clean == 'refs/heads/master' and wt == tree, key, 'after opening: pending changes')
            r.require(tree in allowed, key, 'after opening the content is %s' % show(tree))
            out = attempt(transact, out[1], [('add', 'o.', 'fr', 'tags', 'next')], 'next')
            r.require(out == ('ok', None), key, 'the next transaction ends with %s' % (out,))
            sound(r, key, folder, content(tree, [('add', 'o.', 'fr', 'tags', 'next')]))
        K.wipe(root)


def run(ctx):
    faults.ensure()
    import numpy, pandas, pygit2
    from ieml.ieml_database import GitInterface
    from ieml.usl.usl import usl
    usl('a.')
    fd = os.dup(2)
    K.quiet()
    template()
    os.dup2(fd, 2)
    aborts = [('raise', Stop), ('raise', KeyboardInterrupt)]
    bodies = [[o] for o in OPS] + [list(p) for p in itertools.permutations(OPS, 2)]
    hist = [[b] for b in bodies] + [[b + [a]] for b in bodies for a in aborts] + [[[aborts[0]]], [[]]]
    hist += [[b[:1] + [aborts[0]] + b[1:]] for b in bodies if len(b) == 2]
    short = [[o] for o in OPS] + [[o, aborts[0]] for o in OPS] + [[]]
    hist += [list(h) for h in itertools.product(short, repeat=2)]
    if THOROUGH:
        hist += [[list(p)] for p in itertools.permutations(OPS, 3)] + [list(h) for h in itertools.product(short, repeat=3)]
    parallel(ctx, histories, hist)
    hows = ['transaction', 'reset', 'checkout', 'open', 'reset to the first commit', 'checkout of the first commit']
    sets = [c for n in (1, 2, 3)[:2 + THOROUGH] for c in itertools.combinations(DIRT, n)]
    clash = [{'modified', 'deleted'}, {'same size', 'deleted'}, {'deleted', 'staged deletion'}, {'same size', 'staged deletion'}, {'modified', 'staged deletion'}]
    sets = [tuple(sorted(c, key=lambda n: n.startswith('staged d') or n == 'deleted')) for c in sets if not ('deleted' in c and 'staged deletion' in c)]
    sets = [c for c in sets if not ({'emptied', 'same size', 'modified'} & set(c) and {'deleted', 'staged deletion'} & set(c))]
    parallel(ctx, dirty, [(c, h) for c in sets for h in hows])
    names = [('transaction', b) for b, _ in BODIES] + [('aborted', b) for b, _ in BODIES] + [('reset', ''), ('open', ''), ('clone', '')]
    tasks = []
    fd = os.dup(2)
    K.quiet()
    for n in names:
        folder = place(n)
        st = faults.child(os.path.dirname(folder), faults.COUNT, -1, lambda: attempt(scenario(n)[0], folder))
        K.wipe(os.path.dirname(folder))
        if st[0] != 'ok' or (st[1][0] == 'err' and n[0] != 'aborted'):
            ctx.violate(' '.join(n), 'without any fault: %s' % (st,))
            continue
        ctx.count('points', st[2])
        ctx.extra.setdefault('points', {})[' '.join(n)] = st[2]
        tasks += [(n, m, k) for m in (faults.DIE, faults.TORN, faults.FAIL) for k in range(1, st[2] + 1)]
    os.dup2(fd, 2)
    parallel(ctx, points, tasks, chunk=4)
    ctx.bounds = {'histories': 'transactions of <= 2 (3) of 10 operations with an abort at every place; sequences of 2 (3) transactions',
                  'crash and fault points': 'every file system call of every scenario: before it, in the middle of a write, failing with ENOSPC'}
    ctx.assumptions = ['the process dies, the system does not: completed file system calls stay', 'lock files left by a crash are removed by hand, as git asks',
                       'one fault per run']
