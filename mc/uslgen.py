"""Universes of USL expressions of the reference model and their spellings."""
import itertools
from mc.model import usl as M

L1, L2, X1, X2, X3 = M.LINKS[0], M.LINKS[2], M.INDEXES[0], M.INDEXES[1], M.INDEXES[2]


def pms(ms, maxc, gpool, maxg):
    """all polymorphemes with up to maxc constants of ms and up to maxg groups of gpool"""
    out = []
    for n in range(maxc + 1):
        for c in itertools.combinations(ms, n):
            for k in range(maxg + 1):
                for g in itertools.combinations_with_replacement(gpool, k):
                    out.append(M.pm(c, g))
    return out


GROUPS = [(('S:',), 1), (('A:', 'B:'), 1), (('A:', 'T:'), 2), (('B:', 'k.', 'wa.'), 1), (('U:', 'wo.', "b.a.-"), 2), ((), 1),
          (('U:', 'S:', 'T:', 's.'), 3)]


def pm_inputs(p, cap=60):
    """spellings of a polymorpheme (tuples (constants, groups) in every order, empty morphemes added)"""
    seen = 0
    for c in itertools.permutations(p[1]):
        for gs in itertools.permutations(p[2]):
            for rot in range(3):
                g2 = []
                for i, (g, n) in enumerate(gs):
                    g = list(g) or ['E:']
                    if rot == 1:
                        g = g[::-1]
                    if rot == 2:
                        g = ['E:'] + g[1:] + g[:1]
                    g2.append((tuple(g), n))
                cc = tuple(c) + (('E:',) if rot == 2 else ())
                yield cc, tuple(g2)
                seen += 1
                if seen >= cap:
                    return


def pm_text(c, gs, sp=' '):
    return sp.join(list(c) + ['m%d(%s)' % (n, sp.join(g)) for g, n in gs])


def some_lexemes():
    P = M.pm
    ps = [P(), P(['S:']), P(['A:', 'T:']), P(['wa.'], [(('A:', 'B:'), 1)]), P([], [(('S:', 'T:'), 1)])]
    return [M.lex(f, c) for f in ps for c in ps]


ADDR_POOL = [
    ('E:S:.',), ('E:B:.',), ('E:S:.', 'E:A:.'),
    ('E:.n.-',), ('E:.n.-', 'E:A:.'), ('E:.n.-', 'E:U:.'), ('E:.n.-', L1, X1), ('E:.n.-', L1, X2), ('E:.n.-', 'E:A:.', 'E:U:.'),
    ('E:.n.-', 'E:.d.-'), ('E:.d.-',), ('E:.s.-',), ('E:.n.-', 'E:U:.', L1, X1), ('E:.n.-', 'E:U:.', L1, X2),
    ('E:A:.',), ('E:A:.', 'E:A:.'), ('E:A:.', 'E:U:.'), ('E:A:.', 'E:A:.', 'E:A:.'), ('E:A:.', 'E:A:.', 'E:U:.'),
    ('E:A:.', L1, X1), ('E:A:.', L1, X2), ('E:A:.', L1, X3), ('E:A:.', L2, X2), ('E:A:.', L1, X1, 'E:A:.'), ('E:A:.', L1), ('E:A:.', X1),
    ('E:A:.', 'E:A:.', X1), ('E:A:.', L1, X1, L2, X1), ('E:A:.', L1, X1, L2, X2), ('E:A:.', 'E:S:.'),
    ('E:U:.',), ('E:U:.', L1, X1), ('E:U:.', L1, X2), ('E:U:.', 'E:U:.'), ('E:U:.', 'E:A:.'), ('E:U:.', L2, X1, L1, X1), ('E:U:.', L2, X1, L1, X2),
    ('E:A:.', 'E:U:.', L1, X1), ('E:A:.', 'E:U:.', L1, X2),
    (L1,), (L1, X1), (X1,), (),
]


def shapes(n, pool=None):
    """all multisets of up to n addresses (repetition only of one address)"""
    pool = pool or ADDR_POOL
    for k in range(1, n + 1):
        for s in itertools.combinations(pool, k):
            yield s
    for a in pool:
        yield (a, a)
        if n > 2:
            for b in pool:
                if b != a:
                    yield (a, a, b)


def valid_shapes(n, pool=None):
    out = []
    for s in shapes(n, pool):
        try:
            M.word_kind([(a, None) for a in s])
        except M.Bad:
            continue
        out.append(s)
    return out


EXTRA_SHAPES = [
    tuple([('E:B:.',)] + [(a,) for a in M.ACTANTS]),
    (('E:T:.',), ('E:.k.-',), ('E:.k.-', 'E:A:.'), ('E:.k.-', 'E:A:.', 'E:A:.'), ('E:.l.-',), ('E:.l.-', 'E:U:.')),
    tuple(('E:A:.', L1, i) for i in M.INDEXES),
    (('E:A:.', L1, X1), ('E:A:.', L1, X1, 'E:A:.'), ('E:A:.', L1, X1, 'E:U:.'), ('E:A:.', L1, X2), ('E:A:.', L1, X2, 'E:A:.')),
    (('E:A:.',), ('E:A:.', 'E:A:.', L2, X1), ('E:A:.', 'E:A:.', L2, X2, L1, X1), ('E:A:.', 'E:A:.', L2, X2, L1, X2)),
    (('E:S:.',), ('E:.t.-', L2, X1), ('E:.t.-', L2, X2), ('E:.f.-',), ('E:.m.-',)),
]


def word_text(entries, focus, lextext=M.lex_str, old=''):
    return '[' + old + ' > '.join(('! ' if i == focus else '') + ' '.join(a) + ' ' + lextext(x) for i, (a, x) in enumerate(entries)) + ']'
