"""C02 the order on scripts is a strict total order, consistent with equality."""
import itertools
import functools
import random
from mc.core import parallel, guard, THOROUGH, SEED
from mc.model import script as M
from mc import universe as U

POOL = []


def universe():
    p1 = U.pick1()
    l0 = U.layer0()
    l1 = [('m', a, b, c) for a in l0[:6] + l0[6:9] + [l0[-1]] for b in l0[:6] + [l0[8]] for c in l0[:2] + [l0[10]]]
    s1 = U.sums(p1, 2) + U.sums(p1[:9], 3)
    few1 = [p1[i] for i in (0, 1, 2, 3, 5)]
    few1 += [('+', (p1[1], p1[2])), ('+', (p1[2], p1[3])), ('+', (p1[0], p1[1])), ('+', (p1[3], p1[5]))]
    l2 = U.products(few1)
    s2 = U.sums(l2[::40], 2)
    dp = U.deep([p1[i] for i in (1, 3, 5, 6, 9)], 6)
    nulls = [('n', l) for l in range(1, 7)]
    tw = U.nested_twins() + U.colliding()
    if THOROUGH:
        l1 = [('m', a, b, c) for a in l0[:15] + [l0[-1]] for b in l0[:9] for c in l0[:6] + [l0[10]]]
        s1 += U.sums(p1[::2], 3)
        s2 += U.sums(l2[::25], 2)
        tw += U.nested_twins(('U:.', 'wa.', 'b.'), 3) + U.colliding(('U:.', 'wa.', 'b.'))
    return [e for e in l0 + l1 + s1 + l2 + s2 + dp + nulls + tw if U.est(e) <= 360]


def pairs(chunk, r):
    """irreflexive, antisymmetric, total, consistent with ==, with layer/emptiness/size"""
    for i in chunk:
        x = POOL[i]
        sx, ex = str(x), x.layer
        r.count('states')
        r.require(not (x < x) and not (x > x) and x == x and not (x != x),
                  'irreflexive ' + sx, 'not reflexively equal / irreflexive', sx)
        for j in range(i + 1, len(POOL)):
            y = POOL[j]
            # the pool is sorted and free of duplicates: x must precede y for every j > i,
            # which is exactly transitivity + totality of the order on the pool
            r.count('transitions')
            if not (x < y and not (y < x) and y > x and not (x > y) and x != y and not (x == y)):
                r.violate('pair %s %s' % (sx, y), 'not ordered as in the sorted list', [sx, str(y)])
            if x.layer > y.layer or (x.layer == y.layer and x.cardinal > y.cardinal):
                r.violate('pair %s %s' % (sx, y), 'order contradicts layer/number of singular sequences', [sx, str(y)])
            if x.layer == y.layer and x.cardinal == y.cardinal and \
                    str(y) == 'E' + M.MARKS[:y.layer + 1]:
                r.violate('pair %s %s' % (sx, y), 'the empty script is not the least of its layer', [sx, str(y)])


def equals(chunk, r):
    """equal scripts obtained in different ways compare in the same way with everything"""
    from mc.checks.c01 import build
    from ieml.dictionary.script.operator import script, add
    by = {str(x): i for i, x in enumerate(POOL)}
    for e, k in chunk:
        alts = [build(e), add([build(e)]), script(M.spellings(e, 5)[-1])]
        for n, a in enumerate(alts):
            i = by[str(a)]
            r.count('transitions')
            for j in k:
                y = POOL[j]
                if not (((a < y) == (i < j)) and ((y < a) == (j < i)) and ((a == y) == (i == j))
                        and ((a > y) == (i > j))):
                    r.violate('alt%d %s %s' % (n, a, y), 'an equal script obtained otherwise compares differently',
                              [M.spell(e), str(y)])


def run(ctx):
    from ieml.dictionary.script.operator import script
    es = universe()
    d = {}
    for e in es:
        s = script(M.spell(e))
        d.setdefault(str(s), (s, e))
    objs = [v[0] for v in d.values()]
    first = sorted(objs)
    for order in (list(reversed(objs)), sorted(objs, key=str), sorted(objs, key=lambda x: str(x)[::-1])):
        ctx.require([str(x) for x in sorted(order)] == [str(x) for x in first],
                    'sort', 'sorting the same scripts from another initial order gives another result', None)
        ctx.count('traces')
    POOL.extend(first)
    ctx.sample([str(x) for x in first[::max(1, len(first) // 12)]])
    parallel(ctx, pairs, range(len(POOL)), chunk=20)
    step = 7 if not THOROUGH else 1
    ks = list(range(0, len(POOL), step))
    parallel(ctx, equals, [(v[1], ks) for v in d.values()], chunk=40)
    ctx.bounds = {'distinct scripts': len(POOL), 'pairs': len(POOL) * (len(POOL) - 1) // 2}
