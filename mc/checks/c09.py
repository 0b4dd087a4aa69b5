"""C09 the singular sequences of a USL are exactly the combinations its groups allow."""
import itertools
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G
from mc.checks.c08 import parser, S, mkpm, build

PARADIGMS = ['M:', 'O:', 'S:+T:', 'O:M:.', 'M:M:.O:.-']


def check_one(r, u, o):
    """list, number, singularity and set of the object o against the model"""
    exp = M.to_str(u)
    r.count('traces')
    want = {M.to_str(x) for x in M.ss(u)}
    got = guard(lambda: list(o.singular_sequences))
    if got[0] != 'ok':
        r.violate('ss ' + exp, 'singular_sequences raised %s' % got[1], exp)
        return None
    strs = [str(x) for x in got[1]]
    if len(set(strs)) != len(strs):
        r.violate('ss ' + exp, 'duplicated singular sequences', [exp, strs])
    if set(strs) != want:
        r.violate('ss ' + exp, 'missing %s, in excess %s' % (sorted(want - set(strs))[:4], sorted(set(strs) - want)[:4]), [exp])
        return None
    ok = (guard(lambda: (o.cardinal, len(o), o.is_singular)) == ('ok', (len(want), len(want), len(want) == 1)))
    r.require(ok, 'cardinal ' + exp, 'cardinal or singularity disagrees with the number of singular sequences', exp)
    r.require({str(x) for x in o.singular_sequences_set} == want, 'set ' + exp, 'singular_sequences_set differs', exp)
    if len(want) <= 40:
        for x in got[1]:
            r.count('transitions')
            r.require(type(x) is type(o) and x.is_singular and [str(y) for y in x.singular_sequences] == [str(x)],
                      'idempotent %s' % x, 'a singular sequence is not its own only singular sequence', [exp, str(x)])
            r.require(x in o, 'member %s in %s' % (x, exp), 'a singular sequence is not contained in its USL', [exp, str(x)])
    return got[1]


def do(chunk, r):
    for u in chunk:
        r.count('states')
        b = guard(build, u)
        if b[0] != 'ok':
            r.violate('build ' + M.to_str(u), 'raised %s' % b[1], None)
            continue
        check_one(r, u, b[1])
        t = M.to_str(u)
        if t and not (u[0] == 'pm' and len(u[1]) <= 1 and not u[2]):
            p = guard(parser().parse, t)
            if p[0] != 'ok':
                r.violate('parse ' + t, 'raised %s' % p[1], None)
            else:
                check_one(r, u, p[1])
                r.require([str(m) for m in p[1].morphemes] == M.morphemes(u), 'morphemes ' + t, 'wrong morphemes', t)
        r.sample([t, len(M.ss(u))])


def contain(chunk, r):
    """containment is inclusion of the singular sequences, between USLs of a kind"""
    for u, vs in chunk:
        a = build(u)
        su = M.ss(u)
        for v in vs:
            r.count('transitions')
            g = guard(lambda: build(v) in a)
            r.require(g == ('ok', M.ss(v) <= su), 'contains %s / %s' % (M.to_str(u), M.to_str(v)),
                      'containment says %s' % (g,), [M.to_str(u), M.to_str(v)])


def validity(chunk, r):
    """check() accepts exactly the well-formed polymorphemes, alone and at any place of a word"""
    from ieml.usl import Lexeme
    from ieml.usl.word import Word
    from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
    for c, gs in chunk:
        r.count('states')
        sing = lambda m: m not in PARADIGMS
        allm = [m for m in c] + [m for g, _ in gs for m in g]
        # independent of the order of the model, which does not know the paradigms
        p = ('pm', tuple(m for m in c if not M.null(m)), tuple((tuple(m for m in g if not M.null(m)), n) for g, n in gs))
        want = M.pm_valid(p, sing)
        b = guard(lambda: mkpm(c, gs))
        key = G.pm_text(c, gs)
        if b[0] != 'ok':
            r.violate('build ' + key, 'raised %s' % b[1], None)
            continue
        g = guard(b[1].check)
        r.count('traces')
        r.require((g[0] == 'ok') == want and (want or g[1] == 'ValueError'), 'check ' + key, 'check gives %s, expected %s' % (g, want), key)
        good = mkpm(['S:'], [])
        for place in range(10):
            f, k = (b[1], good) if place % 2 else (good, b[1])
            bad = Lexeme(f, k)
            okl = Lexeme(good, good)
            i = place // 2
            shape, focus = [([('E:A:.',), ('E:A:.', 'E:A:.')], 0), ([('E:S:.',), ('E:.n.-',)], 1),
                            ([('E:A:.',), ('E:A:.', 'E:U:.')], 1), ([('E:A:.', G.L1, G.X1), ('E:A:.', G.L1, G.X2)], 1),
                            ([('E:T:.',), ('E:.s.-',), ('E:.s.-', 'E:U:.', G.L1, G.X1), ('E:.s.-', 'E:U:.', G.L1, G.X2)], 2)][i]
            for where in range(len(shape)):
                entries = [([S(s) for s in a], bad if j == where else okl) for j, a in enumerate(shape)]
                r.count('transitions')

                def mk():
                    ctx, sf = SyntagmaticFunction.from_list(entries)
                    w = Word(sf, role=SyntagmaticRole([S(s) for s in shape[focus]]), context_type=ctx)
                    w.check()
                g = guard(mk)
                r.require((g[0] == 'ok') == want and (want or g[1] == 'ValueError'), 'word check %s %d %d' % (key, place, where),
                          'check of a word gives %s, expected %s' % (g, want), key)


def universe():
    ms = ['U:', 'S:', 'wa.', 'b.', 'k.', "b.a.-"]
    disj = [(('A:',), 1), (('A:', 'B:'), 1), (('A:', 'B:'), 2), (('T:', 'wo.', 's.'), 1), (('T:', 'wo.', 's.'), 2), (('T:', 'wo.', 's.'), 3),
            (('t.', "S:.A:.B:.-", "k.a.-k.a.-'", "m.-B:.A:.-'"), 1), (('t.', "S:.A:.B:.-", "k.a.-k.a.-'", "m.-B:.A:.-'"), 3), ((), 1),
            (('A:', 'B:', 'T:', 'wo.', 's.'), 2), (('A:', 'B:', 'T:', 'wo.', 's.'), 3)]
    pms = []
    for n in range(6):
        for c in itertools.combinations(ms, n):
            for k in range(1, 4):
                for g in itertools.combinations(disj, k):
                    if k < 3 or n < (6 if THOROUGH else 3):
                        pms.append(M.pm(c, g))
    if not THOROUGH:
        pms = [p for i, p in enumerate(pms) if len(p[1]) <= 2 or i % 4 == 0]
    # overlapping and invalid groups as well
    pms += G.pms(['S:', 'A:'], 2, G.GROUPS, 2)
    pms += [M.pm(c, []) for n in range(7) for c in itertools.combinations(ms, n)]
    pms = sorted(set(pms))
    few = [M.pm(), M.pm(['S:']), M.pm(['S:'], [(('A:', 'B:'), 1)]), M.pm([], [(('A:', 'B:'), 2)]), M.pm(['U:', 'S:'], [(('A:',), 1), (('T:', 'wa.', 'b.'), 2)]),
           M.pm([], [((), 1)]), M.pm(["b.a.-"], [(('A:', 'B:'), 1), (('S:', 'T:'), 1), (('wa.', 'k.'), 1)])]
    lexs = [M.lex(f, c) for f in few for c in few]
    lx = [M.lex(M.pm(['S:']), M.pm(['T:'])), M.lex(M.pm(), M.pm(['wa.'], [(('A:', 'B:'), 1)])), M.lex(M.pm(['b.'], [(('S:', 'T:'), 2)]), M.pm(['U:'])), M.lex()]
    words = []
    for s in G.valid_shapes(3) + [e for e in G.EXTRA_SHAPES if len(e) <= 6]:
        for a in itertools.product(lx, repeat=min(3, len(s))):
            la = [a[i] if i < 3 else lx[0] for i in range(len(s))]
            words.append(M.word(list(zip(s, la)), s[-1]))
            if len(s) > 1:
                words.append(M.word(list(zip(s, la)), s[0]))
    return pms, lexs, words


def run(ctx):
    parser()
    pms, lexs, words = universe()
    parallel(ctx, do, pms, chunk=20)
    parallel(ctx, do, lexs, chunk=2)
    parallel(ctx, do, words, chunk=20)
    small = [p for p in pms if len(M.ss(p)) <= 30]
    small = small[::max(1, len(small) // (400 if THOROUGH else 150))]
    parallel(ctx, contain, [(u, small) for u in small], chunk=4)
    parallel(ctx, contain, [(u, lexs) for u in lexs], chunk=4)
    ws = words[::max(1, len(words) // (300 if THOROUGH else 100))]
    parallel(ctx, contain, [(u, ws) for u in ws], chunk=4)
    vm = ['S:', 'T:', 'wa.', 'M:', 'E:'] + (PARADIGMS[2:] if THOROUGH else [])
    vg = [(g, n) for g in [('S:',), ('T:', 'A:'), ('A:', 'A:'), ('wa.', 'k.', 'b.', 't.'), ('E:',), ('O:', 'T:')] for n in range(0, 6)]
    cases = [(c, gs) for k in range(4) for c in itertools.combinations_with_replacement(vm, k) for gs in [()] + [(g,) for g in vg]]
    cases += [(c, gs) for c in [(), ('S:',)] for gs in itertools.combinations_with_replacement(vg, 2)]
    parallel(ctx, validity, cases if THOROUGH else cases[::3] + cases[:120], chunk=10)
    ctx.bounds = {'polymorphemes': len(pms), 'lexemes': len(lexs), 'words': len(words), 'containment pairs': len(small) ** 2 + len(lexs) ** 2 + len(ws) ** 2,
                  'validity cases': len(cases)}
