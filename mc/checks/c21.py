"""C21 pulling, pushing and comparing versions of the git database: three-way merge by file, the remote wins conflicts and the local
version of what lost is returned, nothing stays half done."""
import itertools
import os
import subprocess
from collections import Counter
from mc import dbkit as K, gitkit as H, faults
from mc.core import parallel, THOROUGH
from mc.checks.c20 import attempt

X, Y = ('a.', 'morpheme/singular/a..desc'), ('y.', 'morpheme/singular/y..desc')
SX = ('O:M:.', 'morpheme/paradigm/O:M:..ieml')
DEC = ('wa. [>constant>wa. "x"]', 'polymorpheme/singular/wa. [/d.desc')
README = ('', 'README.md')
NONE = {d: {l: [] for l in K.LANG} for d in K.DESC}


def text(u, vs):
    """the file of an IEML that holds these values"""
    if vs is None:
        return None
    ie, path = u
    if path.endswith('.ieml'):
        return ''.join('"%s" inhibition "%s"\n' % (ie, v) for v in vs).encode()
    if not ie:
        return ''.join(v + '\n' for v in vs).encode()
    return ''.join('"%s" fr translations "%s"\n' % (ie.replace('"', '""'), v) for v in vs).encode()


def files(us, vals):
    out = {'LICENSE': b'x\n'}
    for u, v in zip(us, vals):
        if v is not None:
            out[u[1]] = text(u, v)
    return out


_M = {}


def merge_text(b, l, r):
    """textual three-way merge by git, None on a conflict"""
    key = (b, l, r)
    if key not in _M:
        d = K.scratch('mf')
        for n, c in zip('blr', key):
            with open(os.path.join(d, n), 'wb') as fp:
                fp.write(c)
        p = subprocess.run(['git', 'merge-file', '-p', 'l', 'b', 'r'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _M[key] = p.stdout if p.returncode == 0 else None
        K.wipe(d)
    return _M[key]


def merge(base, loc, rem):
    """(merged content, paths in conflict)"""
    out, bad = {}, []
    for p in sorted(set(base) | set(loc) | set(rem)):
        b, l, r = base.get(p), loc.get(p), rem.get(p)
        if l == r or r == b:
            v = l
        elif l == b:
            v = r
        else:
            v = merge_text(b or b'', l, r) if l is not None and r is not None else None
            if v is None:
                bad.append(p)
                v = r
        if v is not None:
            out[p] = v
    return out, bad


def local_version(c):
    """the descriptors of a file content, as announced in a conflict"""
    import csv, io
    res = {d: {l: [] for l in K.LANG} for d in K.DESC}
    for ie, l, d, v in csv.reader(io.StringIO((c or b'').decode()), delimiter=' '):
        res[d][l].append(v)
    return res


def owner(*cs):
    import csv, io
    for c in cs:
        for row in csv.reader(io.StringIO((c or b'').decode()), delimiter=' '):
            return row[0]


def announced(base, loc, rem, bad):
    return {owner(loc.get(p), rem.get(p), base.get(p)): local_version(loc.get(p)) for p in bad if p.endswith('.desc')}


def show(t):
    return {p: c.decode('utf8', 'replace')[:80] for p, c in sorted(t.items()) if p != 'LICENSE'}


def write_files(folder, old, new):
    for p in old:
        if p not in new:
            os.remove(os.path.join(folder, p))
    for p, c in new.items():
        if old.get(p) != c:
            q = os.path.join(folder, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as fp:
                fp.write(c)


def local_commit(g, new, msg='local'):
    old = H.worktree(g.folder)
    with g.commit(H.sig('local'), msg):
        write_files(g.folder, old, new)


def opened(origin, folder):
    from ieml.ieml_database import GitInterface
    return GitInterface(origin=origin, folder=folder, credentials=NoAuth())


def NoAuth():
    import pygit2
    return pygit2.Username('git')


def remote_commit(origin, new):
    import pygit2
    repo = pygit2.Repository(origin)
    return H.commit(repo, new, [repo.references['refs/heads/master'].target])


# -- base / local / remote -----------------------------------------------------------------
_BASES = {}


def prepared(base):
    """(folder with an origin and a clone) for a content, made once per process and copied"""
    key = tuple(sorted(base.items()))
    if key not in _BASES:
        if len(_BASES) > 40:
            for d in _BASES.values():
                K.wipe(d)
            _BASES.clear()
        d = K.scratch('base')
        H.bare(os.path.join(d, 'origin'), [base])
        opened(os.path.join(d, 'origin'), os.path.join(d, 'A'))
        _BASES[key] = d
    d = os.path.join(K.scratch('run'), 'x')
    H.copy(_BASES[key], d)
    import pygit2
    pygit2.Repository(os.path.join(d, 'A')).remotes.set_url('origin', os.path.join(d, 'origin'))
    return d


def expected(base, loc, rem):
    """(content after the pull, conflicts, number of parents of the head or None when it stays)"""
    if rem == base:
        return loc, {}, 'same'
    if loc == base:
        return rem, {}, 'remote'
    m, bad = merge(base, loc, rem)
    return m, announced(base, loc, rem, bad), 'merge'


def judge(r, key, d, g, before, remote_head, base, loc, rem):
    """the state after a successful pull"""
    import pygit2
    want, conf, kind = expected(base, loc, rem)
    head, tree, wt, clean = H.state(g.folder)
    r.require(clean == 'refs/heads/master', key, 'pending changes or an unfinished merge are left')
    r.require(wt == tree, key, 'the files are not those of the head')
    r.require(tree == want, key, 'the pull gives %s, expected %s' % (show(tree), show(want)))
    parents = [str(p) for p in pygit2.Repository(g.folder)[head].parent_ids]
    if kind == 'same':
        r.require(head == before, key, 'the head moves')
    elif kind == 'remote':
        r.require(head == remote_head, key, 'the head is not the one of the remote')
    else:
        r.require(parents == [before, remote_head], key, 'the merge follows %s' % parents)
    return conf, head


def triples(chunk, r):
    K.quiet()
    for us, b, l, m in chunk:
        base, loc, rem = files(us, b), files(us, l), files(us, m)
        key = 'files %s: base %s local %s remote %s' % (','.join(u[1] for u in us), b, l, m)
        d = prepared(base)
        origin = os.path.join(d, 'origin')
        g = opened(origin, os.path.join(d, 'A'))
        rhead = H.state(g.folder)[0]
        if rem != base:
            rhead = str(remote_commit(origin, rem))
        if loc != base:
            local_commit(g, loc)
        before = H.state(g.folder)[0]
        r.count('states')
        r.count('traces')
        out = attempt(g.pull)
        if not r.require(out[0] == 'ok', key, 'the pull ends with %s' % (out,)):
            r.require(H.state(g.folder)[0] == before and H.state(g.folder)[3], key, 'and leaves the repository in the middle')
            K.wipe(os.path.dirname(d))
            continue
        conf, head = judge(r, key, d, g, before, rhead, base, loc, rem)
        r.require(out[1] == conf, key, 'announces the conflicts %s, expected %s' % (out[1], conf))
        out = attempt(g.pull)
        r.require(out == ('ok', {}) and H.state(g.folder)[0] == head, key, 'pulling again: %s' % (out,))
        out = attempt(g.push)
        import pygit2
        r.require(out[0] == 'ok' and str(pygit2.Repository(origin).references['refs/heads/master'].target) == head, key, 'pushing: %s' % (out,))
        after = dict(H.state(g.folder)[1], **{'z.desc': b'"z" fr tags "next"\n'})
        out = attempt(local_commit, g, after)
        r.require(out == ('ok', None) and H.state(g.folder)[1] == after, key, 'the next transaction: %s' % (out,))
        K.wipe(os.path.dirname(d))


# -- histories of two users --------------------------------------------------------------------
EDITS = {
    'x+1': (X, lambda c: (c or b'') + text(X, ['1'])), 'x+2': (X, lambda c: (c or b'') + text(X, ['2'])), 'x-': (X, lambda c: None), 'x0': (X, lambda c: b''),
    'y+1': (Y, lambda c: (c or b'') + text(Y, ['1'])), 'y-': (Y, lambda c: None),
}


def step(r, key, d, op):
    """one operation of a user on the real repositories, judged; returns False when disabled"""
    import pygit2
    who, what = op
    origin, folder = os.path.join(d, 'origin'), os.path.join(d, who)
    g = opened(origin, folder)
    head, tree, _, _ = H.state(folder)
    bare = pygit2.Repository(origin)
    rhead = str(bare.references['refs/heads/master'].target)
    if what in EDITS:
        u, f = EDITS[what]
        new = dict(tree)
        c = f(tree.get(u[1]))
        new.pop(u[1], None)
        if c is not None:
            new[u[1]] = c
        if new == tree:
            return False
        out = attempt(local_commit, g, new)
        r.require(out == ('ok', None) and H.state(folder)[1] == new, key, 'transaction: %s' % (out,))
    elif what == 'pull':
        rem = H.tree(bare, rhead)
        out = attempt(g.pull)
        repo = pygit2.Repository(folder)
        anc = repo.merge_base(head, rhead)
        if rhead == head or str(anc) == rhead:
            base, loc, remc = rem, tree, rem
        elif str(anc) == head:
            base, loc, remc = tree, tree, rem
        else:
            base, loc, remc = H.tree(repo, anc), tree, rem
        now, ntree, wt, clean = H.state(folder)
        r.require(out[0] == 'ok' and clean and wt == ntree, key, 'pull: %s, clean: %s' % (out, clean))
        if str(anc) == rhead:
            r.require(now == head and out == ('ok', {}), key, 'pull of what is known: %s' % (out,))
        elif str(anc) == head:
            r.require(now == rhead and out == ('ok', {}), key, 'fast-forward: %s' % (out,))
        else:
            m, bad = merge(base, loc, remc)
            r.require(ntree == m, key, 'the merge holds %s, expected %s' % (show(ntree), show(m)))
            r.require(out == ('ok', announced(base, loc, remc, bad)), key, 'the conflicts are %s, expected %s' % (out, announced(base, loc, remc, bad)))
            r.require([str(p) for p in repo[now].parent_ids] == [head, rhead], key, 'the merge is not over both heads')
    else:
        ok = rhead == head or bare_has(folder, head, rhead)
        out = attempt(g.push)
        now = str(pygit2.Repository(origin).references['refs/heads/master'].target)
        if ok:
            r.require(out[0] == 'ok' and now == head, key, 'push: %s, the remote is at %s' % (out, now))
        else:
            r.require(out[0] == 'err' and now == rhead, key, 'a push that loses commits: %s, the remote is at %s' % (out, now))
        s = H.state(folder)
        r.require(s[0] == head and s[2] == tree and s[3], key, 'push changes the local repository')
    return True


def bare_has(folder, head, rhead):
    """does the local history hold the remote head"""
    import pygit2
    repo = pygit2.Repository(folder)
    return repo.get(rhead) is not None and (rhead == head or repo.descendant_of(head, rhead))


def two_users():
    d = os.path.join(K.scratch('hist'), 'x')
    os.makedirs(d)
    H.bare(os.path.join(d, 'origin'), [files([X, Y], [('0',), None])])
    for w in 'AB':
        opened(os.path.join(d, 'origin'), os.path.join(d, w))
    return d


ALPHABET = [('A', 'x+1'), ('B', 'x+2'), ('A', 'x-'), ('B', 'y+1'), ('B', 'x0'), ('A', 'pull'), ('B', 'pull'), ('A', 'push'), ('B', 'push')]


def users(chunk, r):
    """depth-first over the histories with the given first operations"""
    K.quiet()
    import pygit2

    def walk(d, hist, left, first):
        for op in ([first[0]] if first else ALPHABET):
            # independent operations commute: only one order of neighbouring local operations of the two users
            if hist and hist[-1][0] == 'B' and op[0] == 'A' and hist[-1][1] in EDITS and op[1] in EDITS:
                continue
            n = os.path.join(K.scratch('hist'), 'x')
            H.copy(d, n)
            for w in 'AB':
                pygit2.Repository(os.path.join(n, w)).remotes.set_url('origin', os.path.join(n, 'origin'))
            h = hist + (op,)
            done = step(r, 'history %s' % ' '.join('%s:%s' % o for o in h), n, op)
            r.count('transitions')
            if done:
                r.count('states')
                r.count('traces')
                if left > 1:
                    walk(n, h, left - 1, first[1:])
            K.wipe(os.path.dirname(n))
    for first, depth in chunk:
        d = two_users()
        walk(d, (), depth, first)
        K.wipe(os.path.dirname(d))


# -- several remotes --------------------------------------------------------------------------
def remotes(chunk, r):
    """pull from and push to a second remote, one that answers nothing, one unknown"""
    K.quiet()
    import pygit2
    for b, l, m in chunk:
        us = [X, Y]
        base, loc, rem = files(us, b), files(us, l), files(us, m)
        key = 'second remote: base %s local %s remote %s' % (b, l, m)
        d = prepared(base)
        origin, second = os.path.join(d, 'origin'), os.path.join(d, 'second')
        H.copy(origin, second)
        g = opened(origin, os.path.join(d, 'A'))
        rhead = H.state(g.folder)[0]
        first = rhead
        if rem != base:
            rhead = str(remote_commit(second, rem))
        if loc != base:
            local_commit(g, loc)
        before = H.state(g.folder)[0]
        r.count('states')
        r.count('traces')
        g.add_remote('second', second)
        g.add_remote('second', second)
        r.require(attempt(g.add_remote, 'second', origin)[0] == 'err', key, 'the url of a remote is replaced')
        r.require(attempt(g.pull, 'nowhere')[0] == 'err' and H.state(g.folder)[0] == before, key, 'pull from an unknown remote')
        out = attempt(g.pull, 'second')
        if r.require(out[0] == 'ok', key, 'the pull ends with %s' % (out,)):
            conf, head = judge(r, key, d, g, before, rhead, base, loc, rem)
            r.require(out[1] == conf, key, 'announces %s, expected %s' % (out[1], conf))
            out = attempt(g.push, 'second')
            r.require(out[0] == 'ok' and str(pygit2.Repository(second).references['refs/heads/master'].target) == head, key, 'push to the second remote')
            r.require(str(pygit2.Repository(origin).references['refs/heads/master'].target) == first, key, 'push to the second remote changes the first')
            K.wipe(second)
            out = attempt(g.pull, 'second')
            r.require(out == ('ok', {}) and H.state(g.folder)[0] == head, key, 'pull from a remote that is gone: %s' % (out,))
        K.wipe(os.path.dirname(d))


# -- comparison of versions -----------------------------------------------------------------------
def lcs(a, b):
    t = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a)):
        for j in range(len(b)):
            t[i + 1][j + 1] = t[i][j] + 1 if a[i] == b[j] else max(t[i][j + 1], t[i + 1][j])
    return t[-1][-1]


def diffs(chunk, r):
    K.quiet()
    for us, b, l in chunk:
        old, new = files(us, b), files(us, l)
        key = 'diff of %s: %s -> %s' % (','.join(u[0] for u in us), b, l)
        d = K.scratch('diff')
        cs = H.bare(os.path.join(d, 'o'), [old, new])
        g = opened(os.path.join(d, 'o'), os.path.join(d, 'A'))
        r.count('states')
        r.count('traces')
        out = attempt(g.diff, *cs)
        if not r.require(out[0] == 'ok', key, 'ends with %s' % (out,)):
            continue
        out = out[1]
        dbf = {u[1]: u[0] for u in us if u[0]}
        want = {p for p in dbf if (old.get(p) or b'') != (new.get(p) or b'')}
        r.require({p for p in out if p in dbf} == want, key, 'reports %s' % sorted(out))
        for p in want & set(out):
            e = out[p]
            ol, nl = [(c.get(p) or b'').decode().splitlines(True) for c in (old, new)]
            co, cn = Counter(ol) - Counter(e['deleted']), Counter(nl) - Counter(e['added'])
            r.require(e['ieml'] == dbf[p], key, 'the ieml is %s' % e['ieml'])
            r.require(co == cn and not Counter(e['deleted']) - Counter(ol) and not Counter(e['added']) - Counter(nl), key, 'added %s deleted %s' % (e['added'], e['deleted']))
            r.require(len(e['deleted']) == len(ol) - lcs(ol, nl), key, 'not the smallest difference: %s' % e)
            r.require(e['is_new'] == (p not in old) and e['is_removed'] == (p not in new), key, 'new/removed: %s' % e)
        K.wipe(d)


# -- crashes and faults ------------------------------------------------------------------------
CASES = [
    ('fast-forward', [('1',), None], [('1',), None], [('1', '2'), ('n',)]),
    ('fast-forward that deletes', [('1',), ('n',)], [('1',), ('n',)], [None, ('n', 'm')]),
    ('merge without conflict', [('1',), None], [('1',), ('n',)], [('1', '2'), None]),
    ('conflict', [('1',), ('n',)], [('2',), ('n',)], [('3',), ('m',)]),
    ('deleted here', [('1',), ('n',)], [None, ('n',)], [('3',), ('n',)]),
    ('deleted there', [('1',), ('n',)], [('2',), ('n', 'm')], [None, ('n',)]),
    ('nothing new', [('1',), None], [('2',), None], [('1',), None]),
]


def staged(case):
    name, b, l, m = case
    us = [X, Y]
    base, loc, rem = files(us, b), files(us, l), files(us, m)
    d = prepared(base)
    origin = os.path.join(d, 'origin')
    g = opened(origin, os.path.join(d, 'A'))
    if rem != base:
        remote_commit(origin, rem)
    if loc != base:
        local_commit(g, loc)
    return d, g, base, loc, rem


def points(chunk, r):
    K.quiet()
    import pygit2
    for ci, what, mode, k in chunk:
        case = CASES[ci]
        key = '%s, %s: %s at call %d' % (case[0], what, {faults.DIE: 'crash', faults.TORN: 'torn write', faults.FAIL: 'failing call'}[mode], k)
        d, g, base, loc, rem = staged(case)
        origin = os.path.join(d, 'origin')
        want, conf, kind = expected(base, loc, rem)
        if what == 'push':
            g.pull()
        st0 = H.state(g.folder)
        bare = pygit2.Repository(origin)
        r0 = str(bare.references['refs/heads/master'].target)
        st = faults.child(os.path.dirname(d), mode, k, lambda: attempt(g.pull if what == 'pull' else g.push))
        r.count('traces')
        r.count('states')
        if mode != faults.FAIL:
            r.require(st[0] == 'dead' or st[2] < k, key, 'unexpected outcome %s' % (st,))
        elif r.require(st[0] == 'ok', key, 'unexpected outcome %s' % (st,)):
            out, n, last = st[1:]
            unlock_any(g.folder)
            s = H.state(g.folder)
            if what == 'pull':
                ok = s[1] in ((loc, want) if out[0] == 'ok' else (loc,))
                r.require(ok and s[2] == s[1] and (s[3] or last.startswith('unlink') and '/.git/' in last), key, 'ends with %s (%s failed), the files are %s, the head %s, pending: %s' % (out, last, show(s[2]), show(s[1]), not s[3]))
                if out[0] == 'ok' and s[1] == want and kind == 'merge' and s[0] != st0[0]:
                    r.require(out[1] == conf, key, 'announces %s' % (out[1],))
        for x in (g.folder, origin):
            unlock_any(x)
        out = attempt(opened, origin, g.folder)
        if not r.require(out[0] == 'ok', key, 'cannot be opened afterwards: %s' % (out,)):
            continue
        g = out[1]
        s = H.state(g.folder)
        r.require(s[1] in (loc, want) and s[2] == s[1] and s[3] == 'refs/heads/master', key, 'after opening the files are %s, pending: %s' % (show(s[2]), not s[3]))
        now = str(pygit2.Repository(origin).references['refs/heads/master'].target)
        r.require(now in (r0, st0[0]) if what == 'push' else now == r0, key, 'the remote is at %s' % now)
        out = attempt(g.pull)
        s = H.state(g.folder)
        r.require(out[0] == 'ok' and s[1] == want and s[2] == want and s[3], key, 'pulling again: %s, the files are %s' % (out, show(s[2])))
        out = attempt(g.push)
        b = pygit2.Repository(origin)
        r.require(out[0] == 'ok' and H.tree(b, b.references['refs/heads/master'].target) == want, key, 'pushing afterwards: %s' % (out,))
        K.wipe(os.path.dirname(d))


def unlock_any(folder):
    for x, _, ff in os.walk(folder):
        for f in ff:
            if f.endswith('.lock'):
                os.remove(os.path.join(x, f))


def run(ctx):
    faults.ensure()
    import numpy, pandas, pygit2
    from ieml.ieml_database import GitInterface
    from ieml.usl.usl import usl
    usl('a.')
    C = [None, (), ('1',), ('1', '2'), ('1', '2', '3', '4'), ('0', '1', '2', '3', '4'), ('1', '2', '3', '5'), ('5',)]
    S = [None, (), ('twin',), ('twin', 'opposed'), ('crossed',)]
    tasks = [((X,), (b,), (l,), (m,)) for b in C for l in C for m in C]
    tasks += [((SX,), (b,), (l,), (m,)) for b in S for l in S for m in S]
    two = [None, (), ('1',), ('2',)] if THOROUGH else [None, ('1',), ('2',)]
    both = [(a, b) for a in two for b in two]
    pairs = [(X, Y), (X, SX)] if THOROUGH else [(X, Y)]
    tasks += [(us, b, l, m) for us in pairs for b in both for l in both for m in both]
    tasks += [((X, SX), b, l, m) for b in [(('1',), ('twin',))] for l in itertools.product(C[:4], S) for m in itertools.product(C[:3], S)]
    parallel(ctx, triples, sorted(tasks, key=str))
    parallel(ctx, remotes, [(b, l, m) for b in [(('1',), None)] for l in both for m in both])
    depth = 5 if THOROUGH else 4
    parallel(ctx, users, [((f, g), depth) for f in ALPHABET for g in ALPHABET], chunk=1)
    D = [None, (), ('1',), ('1', '2'), ('2',), ('0', '1', '2', '3', '4', '5', '6', '7', '8'), ('0', '1', '3', '4', '5', '6', '7', '9', '8'), ('x', '1', '2', '3', '4', '5', '6', '7', '8', 'y')]
    tasks = [((u,), (b,), (l,)) for u in (X, DEC) for b in D for l in D] + [((SX,), (b,), (l,)) for b in S for l in S]
    tasks += [((X, README), b, l) for b in itertools.product(D[:3], D[2:4]) for l in itertools.product(D[:3], D[2:4])]
    parallel(ctx, diffs, tasks)
    tasks = []
    fd = os.dup(2)
    K.quiet()
    for ci, case in enumerate(CASES):
        for what in ('pull', 'push'):
            d, g, base, loc, rem = staged(case)
            if what == 'push':
                g.pull()
            st = faults.child(os.path.dirname(d), faults.COUNT, -1, lambda: attempt(g.pull if what == 'pull' else g.push))
            K.wipe(os.path.dirname(d))
            if st[0] != 'ok' or st[1][0] == 'err':
                ctx.violate('%s, %s' % (case[0], what), 'without any fault: %s' % (st,))
                continue
            ctx.count('points', st[2])
            ctx.extra.setdefault('points', {})['%s, %s' % (case[0], what)] = st[2]
            modes = (faults.DIE, faults.TORN, faults.FAIL)
            tasks += [(ci, what, m, k) for m in modes for k in range(1, st[2] + 1)]
    os.dup2(fd, 2)
    parallel(ctx, points, tasks, chunk=4)
    ctx.bounds = {'merges': 'one file: 8 (base) x 8 (local) x 8 (remote) contents; two files: 3 (4) contents each', 'histories': 'two users and an origin, %d operations' % depth,
                  'crash and fault points': 'every file system call of pull and push in %d cases: before it, in the middle of a write, failing with ENOSPC' % len(CASES)}
    ctx.assumptions = ['the textual merge of two changed files is the one of git merge-file', 'the process dies, the system does not', 'lock files left by a crash are removed by hand, as git asks']
