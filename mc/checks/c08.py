"""C08 USLs have one canonical form whatever the order and spelling of their components."""
import itertools
import pickle
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G

_P = {}


def parser():
    if 'p' not in _P:
        from ieml.usl.parser import IEMLParser
        _P['p'] = IEMLParser()
    return _P['p']


def S(x):
    from ieml.dictionary.script import script
    k = _P.setdefault('s', {})
    if x not in k:
        k[x] = script(x)
    return k[x]


def mkpm(c, gs):
    from ieml.usl import PolyMorpheme
    return PolyMorpheme(constant=[S(m) for m in c], groups=[([S(m) for m in g], n) for g, n in gs])


def mklex(l):
    from ieml.usl import Lexeme
    return Lexeme(mkpm(l[1][1], l[1][2]), mkpm(l[2][1], l[2][2]))


def mkword(entries, focus):
    from ieml.usl.word import Word
    from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
    ctx, sf = SyntagmaticFunction.from_list([([S(s) for s in a], mklex(x)) for a, x in entries])
    return Word(sf, role=SyntagmaticRole([S(s) for s in focus]), context_type=ctx)


def build(u):
    if u[0] == 'pm':
        return mkpm(u[1], u[2])
    if u[0] == 'lex':
        return mklex(u)
    return mkword(u[1], u[2])


TYPES = {'pm': ('PolyMorpheme', 'Script', 'MultiplicativeScript', 'AdditiveScript', 'NullScript'), 'lex': ('Lexeme',), 'word': ('Word',)}


def same(r, u, got, how):
    """got must be the object denoted by the model expression u"""
    exp = M.to_str(u)
    r.count('traces')
    if got[0] != 'ok':
        r.violate('%s %s' % (how, exp), 'raised %s' % got[1], exp)
        return None
    o = got[1]
    if str(o) != exp:
        r.violate('%s %s' % (how, exp), 'printed %s' % o, [exp, str(o)])
        return None
    r.require(type(o).__name__ in TYPES[u[0]], '%s %s' % (how, exp), 'is a %s' % type(o).__name__, exp)
    return o


def laws(r, u, objs):
    objs = [o for o in objs if o is not None]
    exp = M.to_str(u)
    if u[0] == 'pm' and len(u[1]) <= 1 and not u[2]:
        # a lone morpheme is read as the morpheme itself: same text, another class
        from ieml.dictionary.script import Script
        objs = [o for o in objs if not isinstance(o, Script)]
        for o in objs[1:]:
            r.require(objs[0] == o and hash(objs[0]) == hash(o), 'equal ' + exp, 'not equal', exp)
        return
    for o in objs[1:]:
        a = objs[0]
        r.require(a == o and hash(a) == hash(o) and not (a != o) and len({a, o}) == 1,
                  'equal ' + exp, 'two spellings of one USL are not equal or hash differently', exp)
    if objs and exp and exp != '()':
        o = objs[0]
        back = same(r, u, guard(parser().parse, str(o)), 'reparse')
        if back is not None:
            r.require(back == o and hash(back) == hash(o), 'reparse ' + exp, 'printed form parses to a different object', exp)


def do_pm(chunk, r):
    for u in chunk:
        r.count('states')
        objs = []
        for n, (c, gs) in enumerate(G.pm_inputs(u, 60)):
            r.count('transitions')
            objs.append(same(r, u, guard(mkpm, c, gs), 'build'))
            t = G.pm_text(c, gs)
            if t and M.to_str(u):
                t2 = [t, G.pm_text(c, gs, '  '), '{' + t + '}', t.replace(' ', '\n')][n % 4]
                objs.append(same(r, u, guard(parser().parse, t2), 'parse'))
        laws(r, u, objs)
        if objs and objs[0] is not None and M.to_str(u):
            from ieml.usl.usl import usl
            same(r, u, guard(usl, objs[0]), 'usl()')
        r.sample(M.to_str(u))


def do_lex(chunk, r):
    for u in chunk:
        _, f, c = u
        r.count('states')
        objs = [same(r, u, guard(mklex, u), 'build')]
        texts = []
        for fi in itertools.islice(G.pm_inputs(f, 4), 4):
            for ci in itertools.islice(G.pm_inputs(c, 4), 4):
                ft, ct = G.pm_text(*fi), G.pm_text(*ci)
                if ft and ct:
                    texts.append('(%s)(%s)' % (ft, ct))
                elif ct:
                    texts += ['()(%s)' % ct, '(E:)(%s)' % ct, '() (%s)' % ct]
                elif ft:
                    texts += ['(%s)' % ft, '(%s)(E:)' % ft, '()()(%s)' % ft]
                else:
                    texts += ['()', '(E:)', '(E:)(E:)']
                # former notation with the flexion in two parts
                if ct and ft:
                    texts.append('()(%s)(%s)' % (ct, ft))
                    for cut in range(1, len(fi[0])):
                        texts.append('(%s)(%s)(%s)' % (' '.join(fi[0][:cut]), ct, G.pm_text(fi[0][cut:], fi[1])))
                    if fi[1] and fi[0]:
                        texts.append('(%s)(%s)(%s)' % (' '.join(fi[0]), ct, G.pm_text((), fi[1])))
                        texts.append('(%s)(%s)(%s)' % (G.pm_text((), fi[1]), ct, ' '.join(fi[0])))
        for t in sorted(set(texts)):
            r.count('transitions')
            objs.append(same(r, u, guard(parser().parse, t), 'parse ' + t))
        laws(r, u, objs)
        if M.to_str(u) == '()':
            same(r, u, guard(parser().parse, '()'), 'reparse')
        r.sample(M.to_str(u))


def spelled(x, k):
    """another spelling of a lexeme"""
    if k == 0:
        return M.lex_str(x)
    f = list(G.pm_inputs(x[1], 3))[-1]
    c = list(G.pm_inputs(x[2], 3))[-1]
    ft, ct = G.pm_text(*f), G.pm_text(*c)
    if ct:
        return '(%s)(%s)' % (ft or 'E:', ct)
    return '(%s)' % ft


def do_word(chunk, r):
    for shape, lexs, perms in chunk:
        r.count('states')
        entries = list(zip(shape, lexs))
        for fi in range(len(shape)):
            u = M.word(entries, shape[fi])
            objs = []
            for k, p in enumerate(perms):
                r.count('transitions')
                pe = [entries[i] for i in p]
                objs.append(same(r, u, guard(mkword, pe, shape[fi]), 'build'))
                t = G.word_text(pe, p.index(fi), lambda x: spelled(x, k % 2), ['', 'E:.b.E:S:.- ', '', 'E:.b.E:T:.- '][k % 4])
                objs.append(same(r, u, guard(parser().parse, t), 'parse'))
            laws(r, u, objs)
            if objs and objs[0] is not None:
                r.require(str(objs[0].grammatical_class) == M.word_class(u), 'class ' + M.to_str(u), 'grammatical class %s' % objs[0].grammatical_class, None)
                r.require([str(m) for m in objs[0].morphemes] == M.morphemes(u), 'morphemes ' + M.to_str(u), 'wrong morphemes', None)
            # a word in which several lexemes are marked has its focus on the last
            if fi and len(shape) > 1:
                t = G.word_text(entries, 0).replace(' > ' + ' '.join(shape[fi]) + ' ', ' > ! ' + ' '.join(shape[fi]) + ' ', 1)
                if t.count('!') == 2:
                    same(r, u, guard(parser().parse, t), 'parse ' + t)
        r.sample(M.to_str(M.word(entries, shape[0])))


def universe():
    ms = ['U:', 'S:', 'T:', 'wa.', "k.a.-k.a.-'"]
    gp = G.GROUPS
    if THOROUGH:
        pms = G.pms(ms + ['b.', "m.-B:.A:.-'"], 5, gp, 2) + G.pms(ms[:3], 2, gp, 3)
    else:
        pms = G.pms(ms + ['b.', "m.-B:.A:.-'"], 3, gp, 2) + G.pms(ms[1:2], 1, gp, 3)
    # repeated morphemes are kept (they are rejected by check, not by construction)
    pms += [M.pm(['S:', 'S:', 'T:'], []), M.pm(['S:', 'wa.'], [(('S:', 'S:'), 1)]), M.pm([], [(('T:',), 7)]), M.pm([], [(('T:',), 0)])]
    pms = sorted(set(pms))
    few = [M.pm(), M.pm(['S:']), M.pm(['T:', 'U:']), M.pm(['S:'], [(('A:', 'B:'), 1)]), M.pm([], [(('A:', 'B:'), 1), (('S:', 'wa.'), 2)]),
           M.pm([], [((), 1)]), M.pm(['S:', 'wa.', "k.a.-k.a.-'"]), M.pm(['wa.', 'b.'], [(('A:', 'T:'), 2), (('S:',), 1)])]
    lexs = [M.lex(f, c) for f in few for c in few]
    lx = [M.lex(M.pm(['S:']), M.pm(['T:'])), M.lex(M.pm(), M.pm(['wa.', 'U:'], [(('A:', 'B:'), 1)])), M.lex(M.pm(['b.'], [(('S:', 'T:'), 1)]), M.pm()),
          M.lex()]
    words = []
    for s in G.valid_shapes(5 if THOROUGH else 4) + G.EXTRA_SHAPES:
        n = len(s)
        perms = list(itertools.islice(itertools.permutations(range(n)), 25))
        if len(perms) > 24:
            perms = [tuple(range(n)), tuple(reversed(range(n)))] + [tuple(range(i, n)) + tuple(range(i)) for i in range(1, n)]
        elif not THOROUGH and len(perms) > 24:
            perms = perms[::4]
        for a in itertools.product(lx, repeat=min(2, len(s))):
            la = [a[i % len(a)] if i < 2 else lx[(lx.index(a[0]) + i) % len(lx)] for i in range(len(s))]
            words.append((s, tuple(la), perms))
    return pms, lexs, words


def run(ctx):
    parser()
    pms, lexs, words = universe()
    parallel(ctx, do_pm, pms, chunk=10)
    parallel(ctx, do_lex, lexs, chunk=2)
    parallel(ctx, do_word, words, chunk=10)
    ctx.bounds = {'polymorphemes': len(pms), 'lexemes': len(lexs), 'word structures x lexemes': len(words),
                  'addresses': len(G.ADDR_POOL), 'lexemes per word': 5 if THOROUGH else 4}
