"""C05 tables of a script: cells tile the singular sequences, headers agree with cells."""
from mc.core import parallel, guard, THOROUGH
from mc.model import script as M
from mc import universe as U

MAXH = 12


def expected(e):
    """model of the table set of an expression: list of blocks; a block is a 3-d nested
    list of singular sequence strings, or 'too large'"""
    d = M.den(e)
    if len(d) == 1:
        return [('cell', e)]
    if e[0] == '+':
        kids = flat(e)
        if len(kids) > 1 and any(len(M.den(k)) == 1 for k in kids):
            return [('col', e)]
        out = []
        for k in kids:
            out += expected(k)
        return out
    plural = [i for i in (1, 2, 3) if len(M.den(e[i])) > 1]
    if len(plural) == 1:
        i = plural[0]
        out = []
        for kind, *rest in expected(e[i]):
            sub = rest[0]
            out.append((kind, e[:i] + (sub,) + e[i + 1:]))
        return out
    if any(len(M.den(e[i])) > MAXH for i in plural):
        raise OverflowError
    return [('%dd' % len(plural), e)]


def flat(e):
    out = []
    for k in e[1]:
        out += flat(k) if k[0] == '+' else [k]
    uniq = {}
    for k in out:
        uniq.setdefault(M.spell(k), k)
    return list(uniq.values())


def strs(xs):
    return {str(x) for x in xs}


def one(e, r):
    from ieml.dictionary.script.operator import script
    plain = M.spell(e)
    key = 'expr ' + plain
    st, x = guard(script, plain)
    if st != 'ok':
        return
    r.count('states')
    try:
        blocks = expected(e)
    except OverflowError:
        r.require(guard(lambda: x.cells)[0] == 'err', key, 'a table with more than %d headers is accepted' % MAXH, plain)
        r.count('too_large')
        return
    st, t = guard(lambda: (x.cells, x.tables_script, x.headers))
    if st != 'ok':
        r.violate(key, 'tables raise %s' % t, plain)
        return
    r.count('traces')
    cells, tabs, heads = t
    want = M.den_strs(e)
    overlapping = U.est(e) != len(M.den(e))
    r.require(isinstance(cells, tuple) and all(c.ndim == 3 for c in cells), key, 'cells are not 3-d arrays', plain)
    r.require(len(cells) == len(blocks), key, '%d tables instead of %d' % (len(cells), len(blocks)), plain)
    allc = [str(c) for b in cells for c in b.flat]
    r.require(set(allc) == want, key, 'cells do not cover the singular sequences', plain)
    if not overlapping:
        r.require(len(allc) == len(want), key, 'a singular sequence has two cells', plain)
    # blocks as a multiset of sets
    r.require(sorted(sorted(strs(b.flat)) for b in cells) == sorted(sorted(M.den_strs(b[1])) for b in blocks), key,
              'the tables do not split the singular sequences as the expression does', plain)
    by = {}
    for kind, ex in blocks:
        by.setdefault(frozenset(M.den_strs(ex)), []).append((kind, ex))
    ti = 0
    hi = 0
    for b in cells:
        kind, ex = by[frozenset(strs(b.flat))][0] if frozenset(strs(b.flat)) in by else (None, None)
        if kind is None:
            return
        r.count('transitions', b.size)
        r.require(len(set(map(str, b.flat))) == b.size, key, 'a cell occurs twice in one table', plain)
        if kind == 'cell':
            r.require(b.shape == (1, 1, 1), key, 'shape of a cell', plain)
            ti += 1
            continue
        if kind == 'col':
            r.require(b.shape == (len(M.den(ex)), 1, 1), key, 'shape %s of a column' % (b.shape,), plain)
            col = [c for c in b[:, 0, 0]]
            r.require(all(p < q for p, q in zip(col, col[1:])), key, 'column not in increasing order', plain)
            h = heads[hi]
            r.require(len(h) == 1 and len(h[0]) == 1 and strs(h[0][0].singular_sequences) == M.den_strs(ex), key,
                      'header of a column', plain)
            r.require(strs(tabs[ti].singular_sequences) == M.den_strs(ex), key, 'table script of a column', plain)
            ti += 1
            hi += 1
            continue
        nd = int(kind[0])
        # a 2-d or 3-d block: one table per tab; plural operands in substance, attribute, mode order
        dims = dims_of(ex)
        r.require(b.shape == tuple(dims) + (1,) * (3 - len(dims)), key, 'shape %s instead of %s' % (b.shape, dims), plain)
        for k in range(b.shape[2]):
            tab = b[:, :, k]
            r.require(ti < len(tabs) and strs(tabs[ti].singular_sequences) == strs(tab.flat), key,
                      'table script %s does not denote its cells' % (tabs[ti] if ti < len(tabs) else None), plain)
            h = heads[hi] if hi < len(heads) else None
            if h is None or len(h) != 2 or len(h[0]) != tab.shape[0] or len(h[1]) != tab.shape[1]:
                r.violate(key, 'headers of table %d do not match its shape %s' % (hi, tab.shape), plain)
                return
            for i, row in enumerate(h[0]):
                r.require(strs(row.singular_sequences) == strs(tab[i, :]), key, 'row header %s is not its row' % row, plain)
            for j, col in enumerate(h[1]):
                r.require(strs(col.singular_sequences) == strs(tab[:, j]), key, 'column header %s is not its column' % col, plain)
            for line in (h[0], h[1]):
                r.require(all(p < q for p, q in zip(line, line[1:])), key, 'headers not in increasing order', plain)
            ti += 1
            hi += 1
    r.require(ti == len(tabs), key, '%d table scripts for %d tables' % (len(tabs), ti), plain)
    r.require(hi == len(heads), key, '%d headers for %d tables' % (len(heads), hi), plain)
    if len(cells) > 1 or cells[0].size > 3:
        r.sample({'script': str(x), 'shapes': [c.shape for c in cells], 'tables': [str(q) for q in tabs]})


def dims_of(ex):
    plural = [i for i in (1, 2, 3) if len(M.den(ex[i])) > 1]
    if len(plural) == 1:
        return dims_of(ex[plural[0]])
    if ex[0] == '+':
        return None
    return [len(M.den(ex[i])) for i in plural]


def work(chunk, r):
    for e in chunk:
        one(e, r)


def exprs():
    from mc.checks.c03 import exprs as c03
    l0, s1, l2, s2, l3, dp = c03()
    ops = [o for o in l0 if len(M.den(o)) <= 2][::2] + [U.term0('SBT'), U.term0('UA'), U.term0('UASBT'), l0[-1]]
    l1 = U.layer1_products(ops)
    big1 = [M.parse(s) for s in ('O:M:.', 'M:M:.', 'M:M:.+O:M:.', 'F:F:.', 'F:M:.', 'O:O:M:.', 'I:O:.', 'S:+B:.', 'O:.', 'M:.', 'wa.',
                                 'E:.', 'O:M:.+M:O:.', 'M:.+O:.', 's.+b.', 'O:.+s.')]
    l2b = [e for e in U.products(big1) if U.est(e) <= 360]
    s2b = [('+', (a, b)) for i, a in enumerate(l2b[::9]) for b in l2b[5::41] if U.est(a) + U.est(b) <= 360]
    l3b = [('m', a, b, U.null(2)) for a in l2b[::29] for b in l2b[7::53] if U.est(a) * U.est(b) <= 360]
    # single plural operand in each position, over tables of every kind
    l3b += [t for a in l2b[::11] for t in (('m', a, U.null(2), U.null(2)), ('m', U.null(2), a, U.null(2)))]
    l3b += [('m', a, U.null(2), U.null(2)) for a in s2b[::9]]
    if not THOROUGH:
        l1 = l1[::3]
        l3 = l3[::8]
        s2b = s2b[::2]
    return l0 + l1 + s1 + l2 + l2b + s2 + s2b + l3 + l3b + dp


def run(ctx):
    from ieml.dictionary.script.operator import script
    script('S:')
    seen = {}
    for e in exprs():
        seen.setdefault(M.spell(e), e)
    es = list(seen.values())
    parallel(ctx, work, es, chunk=25)
    ctx.bounds = {'expressions': len(es), 'max header': MAXH, 'layers': '0-6'}
