"""C10 the order on USLs is a strict total order consistent with equality."""
import itertools
import pickle
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G
from mc.checks.c08 import parser
from mc.checks import c08, c14

POOL, EXPR = [], []
LEVEL = {'pm': 1, 'lex': 2, 'word': 3, 'dec': 4}


def to_str(u):
    return u[1] if u[0] == 'dec' else M.to_str(u)


def build(u):
    return parser().parse(u[1]) if u[0] == 'dec' else c08.build(u)


def other(u):
    """an equal USL obtained in another way"""
    if u[0] == 'dec':
        return pickle.loads(pickle.dumps(parser().parse(u[2]), protocol=4))
    return c08.guard(parser().parse, M.to_str(u))[1] if M.to_str(u) and not (u[0] == 'pm' and len(u[1]) <= 1 and not u[2]) else build(u)


BASE = {}


def cmp(x, y):
    return guard(lambda: (x < y, y < x, x > y, y > x, x == y, x != y))


def pairs(chunk, r):
    n = len(POOL)
    for i in chunk:
        x, u = POOL[i], EXPR[i]
        r.count('states')
        g = cmp(x, x)
        r.require(g == ('ok', (False, False, False, False, True, False)), 'self ' + str(x), 'comparison with itself gives %s' % (g,), str(x))
        for j in range(i + 1, n):
            y, v = POOL[j], EXPR[j]
            r.count('transitions')
            g = cmp(x, y)
            r.require(g == ('ok', (True, False, False, True, False, True)), 'pair %s | %s' % (x, y),
                      'x precedes y in the sorted list but the comparisons are %s' % (g,), [str(x), str(y)])
            if u[0] == v[0] == 'dec' and BASE[u[3]] > BASE[v[3]]:
                r.violate('level %s | %s' % (x, y), 'the order contradicts the order without decorations', [str(x), str(y)])
            if LEVEL[u[0]] > LEVEL[v[0]] or (u[0] == v[0] == 'pm' and len(u[1] or ' ') > len(v[1] or ' ')):
                r.violate('level %s | %s' % (x, y), 'order contradicts the level or the number of constants', [str(x), str(y)])


def alts(chunk, r):
    """an equal USL obtained in another way compares alike"""
    n = len(POOL)
    for i in chunk:
        u = EXPR[i]
        a = other(u)
        for j in range(0, n, 1 if THOROUGH else 3):
            r.count('transitions')
            g = cmp(a, POOL[j])
            want = (i < j, j < i, j < i, i < j, i == j, i != j)
            r.require(g == ('ok', want), 'alt %s | %s' % (a, POOL[j]), 'an equal USL obtained by parsing compares differently: %s' % (g,), None)


def universe():
    ms = ['U:', 'S:', 'T:', 'wa.', "k.a.-k.a.-'"]
    pms = G.pms(ms, 3 if THOROUGH else 2, G.GROUPS, 1) + G.pms(ms[:2], 1, G.GROUPS, 2)
    few = [M.pm(), M.pm(['S:']), M.pm(['T:', 'U:']), M.pm(['S:'], [(('A:', 'B:'), 1)]), M.pm([], [(('A:', 'B:'), 1), (('S:', 'wa.'), 2)]),
           M.pm([], [((), 1)]), M.pm(['S:', 'wa.', "k.a.-k.a.-'"])]
    lexs = [M.lex(f, c) for f in few for c in few]
    lx = [M.lex(M.pm(['S:']), M.pm(['T:'])), M.lex(M.pm(), M.pm(['wa.', 'U:'])), M.lex()]
    words = []
    for s in G.valid_shapes(3) + G.EXTRA_SHAPES:
        for a in itertools.product(lx, repeat=min(2, len(s))):
            la = [a[i] if i < 2 else lx[0] for i in range(len(s))]
            for f in s[:3]:
                words.append(M.word(list(zip(s, la)), f))
    if not THOROUGH:
        words = words[::2]
    return sorted(set(pms)), sorted(set(lexs)), sorted(set(words))


def decorated(bases):
    """decorated USLs (text, other spelling, undecorated), none, one or two decorations; those that no part keeps leave the USL itself"""
    out = []
    for u in bases:
        t = M.to_str(u)
        D = [c14.text(x) for x in c14.decorable(u)]
        keep = list(dict.fromkeys([(d, v) for d in D[:2] + D[-1:] for v in ('', 'a', 'a b', '"', 'é')][::1 if THOROUGH else 2]))
        for k in (1, 2):
            for ds in itertools.combinations(keep, k):
                if len({d for d, _ in ds}) == k:
                    o = guard(parser().parse, ' '.join([t] + [c14.deco(d, v) for d, v in ds]))
                    if o[0] == 'ok':        # else C14 reports it
                        out.append(('dec', str(o[1]), ' '.join([t] + [c14.deco(d, v) for d, v in reversed(ds)]), t))
    return list({x[1]: x for x in out}.values())


def dropped(ctx, few):
    """a USL whose decorations are all dropped compares like the USL"""
    for u in few:
        for t in ('[>constant "x"]', '[> "x"]'):
            o = guard(parser().parse, M.to_str(u) + ' ' + t)
            if o[0] != 'ok' or str(o[1]) != M.to_str(u):
                continue
            i = [str(x) for x in POOL].index(M.to_str(u))
            for j in range(len(POOL)):
                g = cmp(o[1], POOL[j])
                ctx.count('transitions')
                ctx.require(g == ('ok', (i < j, j < i, j < i, i < j, i == j, i != j)), 'dropped %s %s | %s' % (M.to_str(u), t, POOL[j]), 'compares differently: %s' % (g,), None)


def run(ctx):
    parser()
    pms, lexs, words = universe()
    few = [M.pm(['S:', 'wa.']), M.pm(['S:', 'T:']), M.pm(['S:'], [(('A:', 'B:'), 1)]), M.pm([], [(('A:', 'B:'), 1), (('S:', 'wa.'), 2)]), M.lex(M.pm(['S:']), M.pm(['T:', 'U:'])),
           M.lex(M.pm(), M.pm(['S:', 'wa.'])), M.word([(('E:A:.',), M.lex(M.pm(['S:']), M.pm(['T:'])))], ('E:A:.',)),
           M.word([(('E:S:.',), M.lex(M.pm(['S:']), M.pm(['T:']))), (('E:.n.-',), M.lex(M.pm(), M.pm(['wa.', 'U:'])))], ('E:.n.-',))]
    dec = decorated(few)
    for i, e in enumerate(sorted(few, key=c08.build)):
        BASE[M.to_str(e)] = i
    pms, lexs, words = (list(dict.fromkeys(x)) for x in (pms + [u for u in few if u[0] == 'pm'], lexs + [u for u in few if u[0] == 'lex'], words + [u for u in few if u[0] == 'word']))
    for e in pms + lexs + words + dec:
        EXPR.append(e)
    objs = {}
    for e in EXPR:
        o = build(e)
        ctx.require(str(o) == to_str(e), 'str ' + to_str(e), 'printed %s' % o, None)
        objs[to_str(e)] = (o, e)
    objs = list(objs.values())
    first = sorted((o for o, _ in objs))
    by = {str(o): e for o, e in objs}
    for order in (list(reversed(first)), sorted(first, key=str), sorted(first, key=lambda o: str(o)[::-1])):
        ctx.count('traces')
        ctx.require([str(x) for x in sorted(order)] == [str(x) for x in first], 'sort', 'sorting depends on the initial order', None)
    POOL.extend(first)
    EXPR[:] = [by[str(o)] for o in first]
    ctx.sample([str(o) for o in first[::max(1, len(first) // 10)]])
    parallel(ctx, pairs, range(len(POOL)), chunk=10)
    parallel(ctx, alts, range(len(POOL)), chunk=10)
    dropped(ctx, few)
    ctx.bounds = {'decorated USLs': len(dec), 'polymorphemes': len(pms), 'lexemes': len(lexs), 'words': len(words), 'pairs': len(POOL) * (len(POOL) - 1) // 2}
