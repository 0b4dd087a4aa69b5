"""C04 factorisation: same set of singular sequences, a function of that set only."""
import hashlib
import itertools
import os
import subprocess
import sys
from mc.core import parallel, guard, THOROUGH
from mc.model import script as M
from mc import universe as U


def grids():
    """named lists of singular sequences (model); every subset of each is explored"""
    g = {}
    g['3x3'] = [(a, b, 'E') for a in 'SBT' for b in 'SBT']
    g['2x2x2'] = [(a, b, c) for a in 'US' for b in 'EA' for c in 'ET']
    g['row+null'] = [('E',) * 3] + [(a, 'E', 'E') for a in 'USB'] + [('S', b, 'E') for b in 'UB'] + [('S', 'U', c) for c in 'AT']
    n1 = M.null(1)
    a, b, c = (('U', 'E', 'E'), ('S', 'B', 'E'), ('T', 'T', 'T'))
    g['layer2 mixed'] = [(x, y, n1) for x in (a, b) for y in (n1, b, c)] + [(a, b, z) for z in (b, c)]
    m0 = (a, b, n1)
    m1 = (b, n1, n1)
    n2 = M.null(2)
    g['layer3'] = [(x, y, n2) for x in (m0, m1) for y in (n2, m1)] + [(m0, m1, z) for z in (m0, m1)]
    g['layer0'] = list('EUASBT')
    if THOROUGH:
        g['2x2x2+'] = [(a, b, c) for a in 'USB' for b in 'EA' for c in 'ET']
        g['diagonal'] = [(a, b, 'E') for a in 'UASB' for b in 'UASB' if (a + b) in
                         'UU AA SS BB UA AS SB BU US AB'.split()]
    return g


def ser(seqs):
    from ieml.dictionary.script.operator import script
    return [script(M.seq_str(s)) for s in seqs]


def orders(n):
    if n <= 3:
        return list(itertools.permutations(range(n)))
    idx = list(range(n))
    out = [idx, idx[::-1]]
    for k in range(1, n, max(1, n // 4)):
        out.append(idx[k:] + idx[:k])
    out.append(idx[::2] + idx[1::2])
    out.append(idx[1::2][::-1] + idx[::2])
    out.append(sorted(idx, key=lambda i: (i * 7 + 3) % (n + 1)))
    return out


def subset(seqs, r):
    from ieml.dictionary.script.operator import script
    from ieml.dictionary.script.tools import factorize
    want = frozenset(map(M.seq_str, seqs))
    objs = ser(seqs)
    key = 'set ' + ' '.join(sorted(want))
    r.count('states')
    res = None
    for o in orders(len(objs)):
        for inp in ([objs[i] for i in o], [objs[i] for i in o] + [objs[o[0]]]):
            before = [str(x) for x in inp]
            st, f = guard(factorize, inp)
            r.count('transitions')
            if st != 'ok':
                r.violate(key, 'factorize raises %s' % f, before)
                return
            r.require([str(x) for x in inp] == before, key, 'the input list is modified', before)
            try:
                back = M.parse(str(f))
            except M.SyntaxErr:
                r.violate(key, 'factorize prints %s' % f, before)
                return
            r.require(M.den_strs(back) == want and {str(s) for s in f.singular_sequences} == want
                      and f.cardinal == len(want), key, '%s is not the same set' % f, before)
            if res is None:
                res = f
            r.require(str(f) == str(res) and f == res, key, 'two factorisations %s and %s for two orders' % (res, f), before)
    r.count('traces')
    st, g = guard(factorize, res)
    r.require(st == 'ok' and str(g) == str(res), key, 'factorising again gives %s instead of %s' % (g, res), sorted(want))
    st, g = guard(script, '+'.join(sorted(want, key=lambda s: s[::-1])), factorize=True)
    r.require(st == 'ok' and str(g) == str(res), key, 'script(.., factorize=True) gives %s instead of %s' % (g, res), sorted(want))
    if len(want) > 3:
        r.sample({'set': sorted(want), 'factorised': str(res)})


def subsets(chunk, r):
    for s in chunk:
        subset(s, r)


def exprs(chunk, r):
    """factorize(script) for arbitrary scripts, and lists of paradigms of several layers"""
    from ieml.dictionary.script.operator import script
    from ieml.dictionary.script.tools import factorize, promote
    for es in chunk:
        xs = [script(M.spell(e)) for e in es]
        key = 'list ' + ' '.join(map(str, xs))
        top = max(M.layer(e) for e in es)
        want = set()
        for e in es:
            for q in M.den(e):
                while M.seq_layer(q) < top:
                    q = (q, M.null(M.seq_layer(q)), M.null(M.seq_layer(q)))
                want.add(M.seq_str(q))
        r.count('states')
        out = set()
        variants = [xs, xs[::-1], xs + xs[:1], tuple(xs)]
        if len(xs) == 1:
            variants.append(xs[0])
        for v in variants:
            st, f = guard(factorize, v)
            r.count('transitions')
            if st != 'ok':
                r.violate(key, 'factorize raises %s' % f, [str(x) for x in xs])
                break
            out.add(str(f))
            r.require({str(s) for s in f.singular_sequences} == want, key, '%s is not the same set' % f, [str(x) for x in xs])
        r.require(len(out) == 1, key, 'several factorisations %s' % sorted(out), [str(x) for x in xs])
        for x, e in zip(xs, es):
            for l in range(M.layer(e), min(M.layer(e) + 3, 7)):
                q = e
                for _ in range(l - M.layer(e)):
                    q = U.lift(q)
                st, p = guard(promote, x, l)
                r.require(st == 'ok' and p.layer == l and {str(s) for s in p.singular_sequences} == M.den_strs(q),
                          'promote %s %d' % (x, l), 'promote gives %s' % (p,), [str(x), l])


def digest(cases):
    from ieml.dictionary.script.tools import factorize
    h = hashlib.sha256()
    for c in cases:
        try:
            h.update(str(factorize(ser(c))).encode())
        except Exception as e:
            h.update(type(e).__name__.encode())
    return h.hexdigest()


def seed_cases():
    g = grids()
    out = []
    for name in ('3x3', 'layer2 mixed', 'layer3'):
        s = g[name]
        out += [[x for i, x in enumerate(s) if m >> i & 1] for m in range(1, 1 << len(s), 3)]
    return out


def run(ctx):
    import ieml.dictionary.script.tools
    ieml.dictionary.script.operator.script('S:')
    g = grids()
    all_subsets = [[x for i, x in enumerate(s) if m >> i & 1] for s in g.values() for m in range(1, 1 << len(s))]
    parallel(ctx, subsets, all_subsets, chunk=16)
    p1 = U.pick1()
    few = p1 + [M.parse(s) for s in ('S:', 'O:', 'M:', 'E:', "wa.b.-", "O:.M:.-", "b.-S:.-'", "O:M:.M:.-", "M:M:.O:.-+O:M:.+S:.-")]
    lists = [(e,) for e in few] + list(itertools.combinations(few, 2))
    lists = [l for l in lists if sum(U.est(e) for e in l) <= 48]
    parallel(ctx, exprs, lists, chunk=4)
    # the result does not depend on the interpreter's string hashing
    cases = seed_cases()
    mine = digest(cases)
    for hs in ('1', '2', '3', '4') if not THOROUGH else map(str, range(1, 17)):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, '-c', 'import logging; logging.disable(50)\n'
                            'from mc.checks.c04 import digest, seed_cases; print(digest(seed_cases()))'],
                           env=env, capture_output=True, text=True)
        ctx.count('traces')
        ctx.require(p.returncode == 0 and p.stdout.strip() == mine, 'hash seed ' + hs,
                    'another factorisation under PYTHONHASHSEED=%s: %s' % (hs, p.stderr[-300:]), hs)
    ctx.bounds = {'grids (every subset)': {k: len(v) for k, v in g.items()}, 'subsets': len(all_subsets),
                  'lists of paradigms': len(lists), 'orders per set': 'all for <= 3 elements, 8 beyond'}
