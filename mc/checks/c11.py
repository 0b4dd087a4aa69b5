"""C11 a word is accepted exactly when its roles form a well-formed tree, and keeps its roles."""
import itertools
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G
from mc.checks.c08 import parser, S, mklex, mkpm

LX = [M.lex(M.pm(['S:']), M.pm(['T:'])), M.lex(M.pm(), M.pm(['wa.'])), M.lex(M.pm(['b.']), M.pm()), M.lex(M.pm(), M.pm(['U:', 'k.']))]
_L = {}


def lexs(i):
    if i not in _L:
        _L[i] = mklex(LX[i])
    return _L[i]


CTX = {'process': 'ProcessSyntagmaticFunction', 'dependant': 'DependantQualitySyntagmaticFunction',
       'independant': 'IndependantQualitySyntagmaticFunction'}


def kind_of(entries):
    try:
        return M.word_kind(entries)
    except M.Bad:
        return None


def do(chunk, r):
    from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole, JunctionSyntagmaticFunction
    from ieml.usl.word import Word
    for shape in chunk:
        r.count('states')
        entries = [(a, LX[i % 4]) for i, a in enumerate(shape)]
        want = kind_of(entries)
        key = ' > '.join(' '.join(a) for a in shape)
        n = len(shape)
        perms = list(itertools.islice(itertools.permutations(range(n)), 24)) if n <= 4 else [tuple(range(n)), tuple(reversed(range(n)))]
        canon = set()
        for k, p in enumerate(perms):
            r.count('transitions')
            r.count('traces')
            l = [([S(s) for s in shape[i]], lexs(i % 4)) for i in p]
            g = guard(SyntagmaticFunction.from_list, l)
            if want is None:
                r.require(g == ('err', 'ValueError'), 'reject ' + key, 'a malformed set of roles gives %s' % (g[1] if g[0] == 'err' else 'a syntagmatic function'), [key, p])
            else:
                if not r.require(g[0] == 'ok', 'accept ' + key, 'a well-formed set of roles is rejected: %s' % (g[1],), [key, p]):
                    continue
                ctx, sf = g[1]
                r.require(ctx.__name__ == CTX[want], 'kind ' + key, 'is a %s instead of a %s word' % (ctx.__name__, want), key)
                al = guard(sf.as_list, ctx)
                got = sorted((tuple(str(s) for s in a), str(x)) for a, x in al[1]) if al[0] == 'ok' else al
                exp = sorted((tuple(a), M.lex_str(x)) for a, x in entries)
                r.require(got == exp, 'as_list ' + key, 'roles given back: %s' % (got,), key)
                # every role is found at its address and no other
                pre = 0 if want == 'process' else 1
                for i in range(n):
                    q = guard(lambda: sf.actors[SyntagmaticRole([S(s) for s in shape[i][pre:]])].actor)
                    r.require(q[0] == 'ok' and str(q[1]) == M.lex_str(entries[i][1]), 'actor ' + key, 'role %s gives %s' % (shape[i], q[1]), key)
                leaves = [ro for ro, nd in sf.actors.items() if not isinstance(nd, JunctionSyntagmaticFunction)]
                r.require(len(leaves) == n, 'leaves ' + key, '%d roles instead of %d' % (len(leaves), n), key)
                for i in range(n):
                    w = guard(lambda: Word(sf, SyntagmaticRole([S(s) for s in shape[i]]), ctx))
                    u = M.word(entries, shape[i])
                    if w[0] != 'ok' or str(w[1]) != M.word_str(u):
                        r.violate('word ' + key, 'word gives %s' % (w[1],), [key, shape[i]])
                        continue
                    c = guard(w[1].check)
                    r.require(c[0] == 'ok', 'check ' + key, 'a well-formed word does not pass check: %s' % (c[1],), [key, shape[i]])
                canon.add(tuple(sorted((str(a), str(x)) for a, x in ((SyntagmaticRole(a), x) for a, x in al[1]))) if al[0] == 'ok' else None)
            if k in (0, len(perms) - 1):
                for fi in range(n):
                    pe = [entries[i] for i in p]
                    t = G.word_text(pe, p.index(fi))
                    g = guard(parser().parse, t)
                    if want is None or not shape[fi]:
                        r.require(g == ('err', 'CannotParse'), 'parse ' + t, 'a malformed word gives %s' % (g[1] if g[0] == 'err' else str(g[1])), t)
                    else:
                        u = M.word(entries, shape[fi])
                        r.require(g[0] == 'ok' and str(g[1]) == M.word_str(u), 'parse ' + t, 'gives %s' % (g[1],), t)
                t = G.word_text([entries[i] for i in p], None)
                g = guard(parser().parse, t)
                r.require(g == ('err', 'CannotParse'), 'parse ' + t, 'a word without focus is accepted: %s' % (g[1],), t)
        r.require(len(canon) <= 1, 'order ' + key, 'the order of the roles changes the word', key)
        r.sample([key, want])


def other_roles(chunk, r):
    """every link, index, valence and actant script plays its role; no other script does"""
    from ieml.usl.syntagmatic_function import SyntagmaticFunction
    for shape in chunk:
        r.count('states')
        r.count('transitions')
        want = kind_of([(a, None) for a in shape])
        g = guard(SyntagmaticFunction.from_list, [([S(s) for s in a], lexs(0)) for a in shape])
        key = ' > '.join(' '.join(a) for a in shape)
        r.require((g[0] == 'ok') == (want is not None) and (want or g[1] == 'ValueError'), 'role ' + key, 'accepted: %s, expected %s' % (g[0], want), key)


def run(ctx):
    parser()
    pool = G.ADDR_POOL
    sh = list(G.shapes(3))
    if THOROUGH:
        sh += list(itertools.combinations(pool, 4))
    sh += G.valid_shapes(4) + G.EXTRA_SHAPES
    sh = list(dict.fromkeys(sh))
    parallel(ctx, do, sh, chunk=60)
    odd = ('S:', 'E:', 'wa.', 'E:.b.-', "E:.-wa.-t.o.-'", 'E:.', 'E:O:.', 'E:S:.T:.-')
    o = []
    for s in M.ADDRESSES + odd:
        o += [((s,),), (('E:B:.',), (s,)), (('E:A:.',), ('E:A:.', s)), (('E:B:.',), ('E:.n.-',), ('E:.n.-', s)), (('E:U:.', s),), (('E:U:.',), ('E:U:.', s)),
              (('E:A:.', s, G.X1), ('E:A:.', s, G.X2)), (('E:B:.',), ('E:.s.-', s, G.X1)), (('E:A:.', G.L1, s),), (('E:A:.', G.L1, G.X1), ('E:A:.', G.L1, s)),
              ((s,), ('E:.d.-',)), ((s,), ('E:.d.-',), ('E:.d.-', 'E:U:.')), (('E:A:.',), ('E:A:.', 'E:U:.', s, G.X1)), (('E:U:.', s, G.X1), ('E:U:.', s, G.X2))]
    for t in M.ADDRESSES:
        for s in M.ADDRESSES:
            o += [((s,), (t,)), (('E:B:.',), (s,), (s, t))] if THOROUGH or ('k.u' not in s and "d.o" not in s) else []
    o = list(dict.fromkeys(o))
    parallel(ctx, other_roles, o, chunk=100)
    ctx.bounds = {'sets of addresses': len(sh), 'addresses': len(pool), 'orders': 'all', 'role scripts': len(M.ADDRESSES) + len(odd), 'role uses': len(o)}
