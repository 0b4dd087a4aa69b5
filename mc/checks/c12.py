"""C12 the USL notation: exactly the well-formed strings are read, as what they denote, in any history."""
import itertools
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G
from mc.checks.c08 import parser, S


def expect(toks):
    try:
        return M.parse_tokens(toks)
    except M.Bad:
        return None


def text(toks):
    return ' '.join('E:.b.E:B:.-' if t == 'OLD' else t for t in toks)


def want_str(u):
    return u[1] if u[0] == 'script' else M.to_str(u)


def one(r, toks, p):
    r.count('transitions')
    u = expect(toks)
    s = text(toks)
    g = guard(p.parse, s)
    if u is None:
        r.require(g == ('err', 'CannotParse'), 'reject ' + s, 'ill-formed string gives %s' % (g[1] if g[0] == 'err' else repr(str(g[1]))), s)
    else:
        r.count('accepted')
        from ieml.dictionary.script import Script
        from ieml.usl import PolyMorpheme, Lexeme, Word
        ok = g[0] == 'ok' and str(g[1]) == want_str(u) and \
            isinstance(g[1], {'script': Script, 'pm': PolyMorpheme, 'lex': Lexeme, 'word': Word}[u[0]])
        r.require(ok, 'accept ' + s, 'expected %s, got %s' % (want_str(u), g[1]), s)
        r.sample([s, want_str(u)])


def do(chunk, r):
    for prefix, toks, n in chunk:
        for rest in itertools.product(toks, repeat=n):
            r.count('states')
            one(r, tuple(prefix) + rest, parser())
    r.count('traces', r.counts['transitions'])


STRINGS = ['S:', 'S: T:', 'S: m1(A: B:)', '()(S:)', '(S:)(T:)(A:)', '[! E:A:. ()(S:)]', '[! E:S:. ()(S:) > E:.n.- ()(T:)]',
           'S: T: [>constant>S: "x"]', '()(S: T:) [>content>constant>T: "y"]',
           # rejected ones
           '', '(', 'S: )', '[E:A:. ()(S:)]', '[! S: ()(S:)]', '[! E:A:. ()(S:) > E:A:. ()(S:)]', 'S: m1()', '[! E:A:. (S:', 'S:. T: (', "S:.+T:", 'm1(S:', 'S: [>constant>S:',
           'S: [> S: "x"]']


def obs(g):
    return (g[0], str(g[1])) if g[0] == 'ok' else g


_REF = {}


def hist(chunk, r):
    """all sequences of calls on one parser: every answer is the one of a fresh parser"""
    from ieml.usl.parser import IEMLParser
    p = IEMLParser()
    for h in chunk:
        r.count('states')
        for k, s in enumerate(h):
            r.count('transitions')
            g = obs(guard(p.parse, s))
            if g != _REF[s]:
                r.violate('history %s' % (h[:k + 1],), 'gives %s, a fresh parser %s' % (g, _REF[s]), h)
    r.count('traces', len(chunk))


def dictionary(chunk, r):
    """a parser bound to a dictionary accepts exactly the USLs made of its morphemes"""
    from ieml.usl.parser import IEMLParser
    for known in chunk:
        p = IEMLParser(dictionary={S(m) for m in known})
        for t, ms in [('S:', {'S:'}), ('S: T:', {'S:', 'T:'}), ('S: m1(A: B:)', {'S:', 'A:', 'B:'}), ('()(S: A:)', {'S:', 'A:'}), ('(T:)(B:)', {'T:', 'B:'}),
                      ('[! E:A:. ()(S:)]', {'E:A:.', 'S:'}), ('[! E:A:. ()(S:) > E:A:. E:U:. (T:)]', {'E:A:.', 'E:U:.', 'S:', 'T:'})]:
            r.count('transitions')
            g = guard(p.parse, t)
            want = ms <= set(known)
            r.require((g[0] == 'ok') == want and (want or g[1] == 'CannotParse'), 'dictionary %s %s' % (sorted(known), t),
                      'accepted: %s, expected %s' % (g[0], want), [sorted(known), t])


def run(ctx):
    parser()
    T = ['S:', 'T:', 'm1', '(', ')', '[', ']', '!', '>', 'E:A:.']
    jobs = [((), T, n) for n in range(1, 4)] + [((a,), T, 3) for a in T] + [((a, b), T, 3) for a in T for b in T]
    jobs += [((a, b, c), T, 3) for a in T for b in T for c in T]
    if THOROUGH:
        jobs += [((a, b, c), T, 4) for a in T for b in T for c in T]
        jobs += [((a, b, c, d), ['S:', 'm2', '(', ')'], 6) for a in T for b in ['S:', 'm1', '(', ')'] for c in ['S:', '('] for d in ['S:', 'm1', '(', ')']]
    # longer strings that begin like a lexeme or a word
    L = ['S:', '(', ')', 'm1']
    jobs += [(('(', a), L, 7 if THOROUGH else 6) for a in L] + [(('(', 'S:', ')', '(', a), L, 7 if THOROUGH else 6) for a in L]
    W = ['(', ')', '>', '!', ']', 'E:A:.', 'S:']
    for pre in [('[', '!', 'E:A:.'), ('[', 'OLD', '!', 'E:A:.'), ('[', '!', 'E:A:.', '(', 'S:', ')'), ('[', '!', 'E:A:.', '(', ')', '>'),
                ('[', '!', 'E:A:.', '(', 'S:', ')', '>', 'E:A:.', 'E:A:.'), ('[', 'E:A:.', '(', 'T:', ')', '>', '!'), ('[', 'E:A:.', '(', ')', '>', '!', 'E:A:.', 'E:A:.'),
                ('[', 'E:A:.', '(', ')', '(', 'T:', ')'), ('[', 'E:A:.', '(', 'T:', ')', '>', 'E:A:.', 'E:U:.', '(')]:
        jobs += [(pre + (a,), W, 6 if THOROUGH else 5) for a in W]
    # number of groups, large multiplicities
    jobs += [(('S:',), ['m1', 'm12', '(', ')', 'S:', 'T:'], 5)]
    parallel(ctx, do, jobs, chunk=1)
    for s in STRINGS:
        from ieml.usl.parser import IEMLParser
        _REF[s] = obs(guard(IEMLParser().parse, s))
        if s and STRINGS.index(s) > 9:
            ctx.require(_REF[s] == ('err', 'CannotParse'), 'reject ' + s, 'gives %s' % (_REF[s],), s)
    hs = list(itertools.product(STRINGS, repeat=3 if THOROUGH else 2))
    hs += [(a, b, c) for a in STRINGS[::3] for b in STRINGS[9:] for c in STRINGS[:9]]
    parallel(ctx, hist, hs, chunk=200)
    un = ['S:', 'T:', 'A:', 'B:', 'E:A:.', 'E:U:.']
    parallel(ctx, dictionary, [set(c) for n in range(7) for c in itertools.combinations(un, n)], chunk=4)
    ctx.bounds = {'all token strings up to': 7 if THOROUGH else 6, 'longer strings': 'with fixed lexeme and word prefixes', 'histories': len(hs)}
