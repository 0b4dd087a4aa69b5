"""C15 two-dimensional tables of a USL: cells, headers and dimensions are those of the two parts chosen."""
import itertools
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G
from mc.checks.c08 import parser, build
from mc.checks.c13 import text, pp

PM = M.pm


# -- reference model ------------------------------------------------------------
def dims(u):
    """the parts of u that can be the dimension of a table: (path, polymorphemes it varies)"""
    def of_pm(pre, p):
        for i, (g, n) in enumerate(p[2]):
            if len(M.ss(PM([], [(g, n)]))) > 1:
                yield pre + [('pm', i, n, None)]

    def of_lex(pre, l):
        if len(M.ss(l[1])) > 1:
            yield pre + [('lex', 'flexion')]
        if len(M.ss(l[2])) > 1:
            yield pre + [('lex', 'content')]
            for s in of_pm(pre + [('lex', 'content')], l[2]):
                yield s
    if u[0] == 'pm':
        return list(of_pm([], u))
    if u[0] == 'lex':
        return list(of_lex([], u))
    return [s for a, l in u[1] for s in of_lex([('role', a == u[2], a)], l)]


def leaves(u):
    return [s for s in dims(u) if s[-1] != ('lex', 'content')]


def get(u, s):
    """the polymorpheme a dimension varies"""
    for x in s:
        if x[0] == 'role':
            u = dict(u[1])[x[2]]
        elif x[0] == 'lex':
            u = u[1] if x[1] == 'flexion' else u[2]
        else:
            u = PM([], [u[2][x[1]]])
    return u


def edit(u, s, f):
    """u with the polymorpheme holding the dimension s replaced by f(it)"""
    if u[0] == 'pm':
        return f(u)
    if u[0] == 'lex':
        rest = s[1:]
        if s[0][1] == 'flexion':
            return M.lex(edit(u[1], rest, f), u[2])
        return M.lex(u[1], edit(u[2], rest, f))
    return M.word([(a, edit(l, s[1:], f) if a == s[0][2] else l) for a, l in u[1]], u[2])


def fix(u, choice):
    """u where every dimension of choice = [(path, polymorpheme without group)] holds its value"""
    groups = {}
    for s, v in choice:
        if s[-1][0] == 'pm':
            groups.setdefault(tuple(s[:-1]), []).append((s[-1][1], v))
        else:
            u = edit(u, s, lambda p: v)
    for pre, l in groups.items():
        idx = {i for i, _ in l}
        u = edit(u, list(pre) + [('pm',)], lambda p: PM(p[1] + tuple(m for _, v in l for m in v[1]),
                                                       [g for i, g in enumerate(p[2]) if i not in idx]))
    return u


def values(u, ss):
    """the values of a list of dimensions: those of the groups of a polymorpheme are the combinations of a polymorpheme"""
    pms = {}
    for s in ss:
        pms.setdefault(tuple(s[:-1]) if s[-1][0] == 'pm' else tuple(s), []).append(s)
    parts = []
    for pre, l in pms.items():
        if len(l) == 1:
            parts.append([[(l[0], v)] for v in M.ss(get(u, l[0]))])
        else:
            alts = []
            for v in M.ss(PM([], [g for s in l for g in get(u, s)[2]])):
                alts.append([(s, PM([m for m in v[1] if m in get(u, s)[2][0][0]])) for s in l])
            parts.append(alts)
    return [sum(x, []) for x in itertools.product(*parts)]


def prefix(a, b):
    return b[:len(a)] == a


# -- exploration -----------------------------------------------------------------
def names(us):
    return {M.to_str(x) for x in us}


def sset(o):
    return {str(x) for x in o.singular_sequences}


def table(r, u, o, row, col):
    from ieml.usl.table import UslTable2D
    key = '%s rows %s columns %s' % (M.to_str(u), row and text(row), text(col))
    r.count('traces')
    P = pp()

    def get_all():
        t = UslTable2D(o, columns=P.parse(text(col)), rows=None if row is None else P.parse(text(row)))
        return t.cells, t.rows, t.columns
    g = guard(get_all)
    if g[0] != 'ok':
        r.violate(key, 'raised %s' % g[1], key)
        return
    cells, rows, cols = g[1]
    if row is None:
        rv = values(u, [s for s in leaves(u) if not prefix(col, s)])
    else:
        rv = values(u, [row])
    cv = values(u, [col])
    if not r.require((len(cells), {len(x) for x in cells}) == (len(rv), {len(cv)}) and (len(rows), len(cols)) == (len(rv), len(cv)), key,
                     'dimensions: %d rows of %s cells, %d and %d headers instead of %d x %d' %
                     (len(cells), {len(x) for x in cells}, len(rows), len(cols), len(rv), len(cv)), key):
        return
    flat = [str(c) for x in cells for c in x]
    r.count('transitions', len(flat))
    want = {M.to_str(fix(u, a + b)) for a in rv for b in cv}
    if not r.require(set(flat) == want and len(set(flat)) == len(flat), key, 'cells: missing %s, in excess %s, %d repeated' % (
            sorted(want - set(flat))[:3], sorted(set(flat) - want)[:3], len(flat) - len(set(flat))), key):
        return
    r.require({frozenset(map(str, x)) for x in cells} == {frozenset(M.to_str(fix(u, a + b)) for b in cv) for a in rv}, key,
              'the rows do not gather the cells of one value of the row dimension', key)
    r.require({frozenset(map(str, x)) for x in zip(*cells)} == {frozenset(M.to_str(fix(u, a + b)) for a in rv) for b in cv}, key,
              'the columns do not gather the cells of one value of the column dimension', key)
    r.require(rows == sorted(rows) and cols == sorted(cols), key, 'the headers are not in increasing order', key)
    cs = [[sset(c) for c in x] for x in cells]
    single = all(n == 1 for s in leaves(u) for _, n in get(u, s)[2])
    if single:
        r.require(all(sset(h) == set().union(*x) for h, x in zip(rows, cs)), key, 'a row header does not denote the cells of its row', key)
        r.require(all(sset(h) == set().union(*x) for h, x in zip(cols, zip(*cs))), key, 'a column header does not denote the cells of its column', key)
        r.require(sum(len(c) for x in cs for c in x) == len(M.ss(u)) and set().union(*[c for x in cs for c in x]) == names(M.ss(u)), key,
                  'the cells do not tile the singular sequences', key)
    else:
        r.require(set().union(*[c for x in cs for c in x]) >= names(M.ss(u)), key, 'singular sequences without cell', key)


def partitions(r, u, o):
    """the announced dimension is the number of independent variations; every partition is made of them, each once"""
    from ieml.usl.table import enumerate_partitions
    key = 'partitions ' + M.to_str(u)
    r.count('traces')
    g = guard(enumerate_partitions, o)
    if g[0] != 'ok':
        r.violate(key, 'raised %s' % g[1], key)
        return
    n, parts = g[1]
    ls = leaves(u)

    def trees(pre):
        """number of choices of pairwise unrelated parts"""
        tot = 1
        for c in sorted({tuple(d) for d in ds if len(d) > len(pre) and prefix(list(pre), d)
                         and not any(len(pre) < len(e) < len(d) and prefix(e, d) for e in ds if prefix(list(pre), e))}):
            tot *= 1 + trees(c)
        return tot
    ds = dims(u)
    r.require(n == len(ls), key, 'dimension %d instead of %d' % (n, len(ls)), key)
    got = [frozenset(map(str, p)) for p in parts]
    allowed = {text(d) for d in ds}
    r.require(len(got) == len(set(got)) == trees(()) and all(p <= allowed for p in got), key,
              '%d partitions, %d expected' % (len(got), trees(())), key)


def do(chunk, r):
    for u in chunk:
        r.count('states')
        o = build(u)
        ds = dims(u)
        for col in ds:
            for row in ds + [None]:
                if row is not None and (prefix(row, col) or prefix(col, row)):
                    continue
                table(r, u, o, row, col)
        if u[0] != 'word':
            partitions(r, u, o)
        r.sample([M.to_str(u), len(ds)])


def universe():
    pool = ['S:', "b.a.-"]
    g1 = [('A:', 'B:'), ('T:', 'wa.', 'wo.'), ('k.', 's.'), ("t.", "b."), ("S:.A:.B:.-", "k.a.-k.a.-'"), ("U:",)]
    out = []
    for c in [(), ('S:',), ('S:', 'U:' if False else "m.-B:.A:.-'")]:
        for k in range(1, 4):
            for gs in itertools.combinations(g1, k):
                for ns in itertools.product((1, 2), repeat=k):
                    if sum(ns) > k + 1 or any(n > len(g) for g, n in zip(gs, ns)):
                        continue
                    if k == 3 and not THOROUGH and (sum(ns) > k or max(map(len, gs)) > 2):
                        continue
                    out.append(PM(c, list(zip(gs, ns))))
    fl = [PM(), PM(['E:.wo.-']), PM([], [(('E:.wo.-', 'E:.wa.-'), 1)]), PM([], [(("E:S:.-d.u.-'", "E:B:.-d.u.-'", "E:T:.-d.u.-'"), 1)])]
    co = [PM(['S:']), PM(['S:'], [(('A:', 'B:'), 1)]), PM([], [(('A:', 'B:'), 1), (('T:', 'wa.'), 1)]), PM(['k.'], [(('A:', 'B:'), 1), (('T:', 'wa.', 'wo.'), 1)]),
          PM(['b.'], [(('A:', 'B:', 'T:'), 2)])]
    lx = [M.lex(f, c) for f in fl for c in co]
    out += [l for l in lx if dims(l)]
    few = [M.lex(PM(), PM(['S:'])), M.lex(PM(), PM(['S:'], [(('A:', 'B:'), 1)])), M.lex(PM([], [(('E:.wo.-', 'E:.wa.-'), 1)]), PM(['T:'])),
           M.lex(PM([], [(("E:S:.-d.u.-'", "E:B:.-d.u.-'"), 1)]), PM(['wa.'], [(('k.', 's.'), 1)]))]
    shapes = [(('E:A:.',),), (('E:A:.',), ('E:A:.', 'E:A:.')), (('E:S:.',), ('E:.n.-',)), (('E:A:.',), ('E:A:.', 'E:U:.')),
              (('E:.n.-', 'E:A:.'), ('E:.n.-',)), (('E:B:.',), ('E:.s.-',), ('E:.d.-',)), (('E:U:.',), ('E:U:.', 'E:A:.'), ('E:U:.', 'E:U:.'))]
    for s in shapes:
        if len(s) == 3 and not THOROUGH:
            continue
        try:
            M.word_kind([(a, None) for a in s])
        except M.Bad:
            continue
        for ls in itertools.product(few, repeat=len(s)):
            for f in s:
                w = M.word(list(zip(s, ls)), f)
                if dims(w) and len(M.ss(w)) <= 81:
                    out.append(w)
    return sorted(set(out), key=lambda u: (u[0], u))


def run(ctx):
    import tqdm
    tqdm.tqdm = lambda x, *a, **k: x
    parser(), pp()
    us = universe()
    parallel(ctx, do, us, chunk=2)
    ctx.bounds = {'USLs': len(us), 'tables': 'every ordered pair of unrelated varying parts, and every part against all the others',
                  'groups': 'up to 3 per polymorpheme, multiplicity 1 or 2', 'roles': 3 if THOROUGH else 2}
    ctx.assumptions = ['the model of substitution of a part by one of its singular sequences']
