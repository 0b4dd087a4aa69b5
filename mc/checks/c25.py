"""C25 simplifying a word removes exactly the roles that carry nothing: the result is the smallest well-formed word with the same focus and all lexemes."""
import itertools
import pickle
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G
from mc.checks.c08 import parser, S, mklex, mkpm, mkword

E_ = M.lex()
FULL = [M.lex(M.pm(['S:']), M.pm(['T:'])), M.lex(M.pm(), M.pm(['wa.'])), M.lex(M.pm(['b.']), M.pm()), M.lex(M.pm(), M.pm([], [(('A:', 'B:'), 1)])),
        M.lex(M.pm([], [(('S:', 'T:'), 1)]), M.pm())]


def well(addresses):
    try:
        M.word_kind([(a, None) for a in addresses])
        return True
    except M.Bad:
        return False


def smallest(entries, focus):
    """the entries of the smallest well-formed word of the same kind that keeps the focus, the process and every lexeme"""
    must = {a for a, x in entries if not M.lex_empty(x) or a == focus or a[0] in M.VALENCES}
    rest = [a for a, _ in entries if a not in must]
    for n in range(len(rest) + 1):
        found = [set(c) | must for c in itertools.combinations(rest, n) if well(must | set(c))]
        if found:
            assert len(found) == 1, (entries, focus)
            return [e for e in entries if e[0] in found[0]]
    raise AssertionError


def words(chunk, r):
    from ieml.usl.word import simplify_word, Word
    for entries, focus, orders in chunk:
        u = M.word(entries, focus)
        t = M.word_str(u)
        r.count('states')
        keep = smallest(entries, focus)
        v = M.word(keep, focus)
        exp = M.word_str(v)
        r.count('kept', len(keep))
        r.count('removed', len(entries) - len(keep))
        for k in range(orders):
            es = entries if k == 0 else tuple(reversed(entries)) if k == 1 else entries[k:] + entries[:k]
            w = parser().parse(t) if k == 3 else mkword(es, focus)
            r.count('transitions')
            r.count('traces')
            g = guard(simplify_word, w)
            if not r.require(g[0] == 'ok', 'fails ' + t, 'simplifying raises %s' % (g[1],), t):
                break
            x = g[1]
            if not r.require(type(x) is Word and str(x) == exp, 'result ' + t, 'gives %s instead of %s' % (x, exp), t):
                break
            y = mkword(keep, focus)
            r.require(x == y and hash(x) == hash(y) and not x < y and not y < x, 'equal ' + t, 'the result is not equal to the word without these roles', t)
            r.require(x.role == y.role and x.context_type is y.context_type and x.grammatical_class == w.grammatical_class, 'kind ' + t,
                      'focus %s, kind %s, class %s' % (x.role, x.context_type.__name__, x.grammatical_class), t)
            r.require(guard(x.check)[0] == 'ok', 'check ' + t, 'the result is not valid', t)
            r.require(list(map(str, x.morphemes)) == M.word_morphemes(v), 'morphemes ' + t, 'morphemes %s' % (list(map(str, x.morphemes)),), t)
            r.require(sorted(map(str, x.singular_sequences)) == sorted(map(M.word_str, M.word_ss(v))), 'singular ' + t, 'other singular sequences', t)
            r.require(str(w) == t and w.role == mkword(entries, focus).role, 'argument ' + t, 'the simplified word was changed into %s' % w, t)
            r.require(str(parser().parse(str(x))) == exp, 'parse ' + t, 'the result does not parse back', t)
            z = guard(simplify_word, x)
            r.require(z[0] == 'ok' and z[1] == x and str(z[1]) == exp, 'again ' + t, 'simplifying again gives %s' % (z[1],), t)
            r.require(str(pickle.loads(pickle.dumps(x, protocol=4))) == exp, 'pickle ' + t, 'the result changes when pickled', t)
            for o, m in ((w, entries), (x, keep)):
                want = all(M.lex_empty(l) for _, l in m)
                r.require(o.empty is want and bool(o) is not want, 'empty ' + t, 'the word %s says empty: %s' % (o, o.empty), t)
        r.sample([t, exp])


def lexemes(chunk, r):
    for f, c in chunk:
        l = M.lex(f, c)
        r.count('states')
        o = mklex(l)
        r.require(o.empty is M.lex_empty(l) and bool(o) is not M.lex_empty(l), 'empty ' + M.lex_str(l), 'empty: %s' % o.empty, M.lex_str(l))
        for p, q in ((f, o.pm_flexion), (c, o.pm_content)):
            r.require(q.empty is M.pm_empty(p) and bool(q) is not M.pm_empty(p), 'empty ' + M.pm_str(p), 'empty: %s' % q.empty, M.pm_str(p))


def run(ctx):
    parser()
    X1, X2, X3, L1, L2 = G.X1, G.X2, G.X3, G.L1, G.L2
    J = ('E:A:.',)
    shapes = G.valid_shapes(4 if THOROUGH else 3) + G.EXTRA_SHAPES + [
        (J + (L1, X1), J + (L1, X2), J + (L1, X3)),
        (J + (L1, X1), J + (L1, X2, 'E:A:.'), J + (L1, X2), J + (L1, X1, 'E:U:.')),
        (J, ('E:A:.', 'E:A:.'), ('E:A:.', 'E:A:.', 'E:A:.'), ('E:A:.', 'E:A:.', 'E:A:.', 'E:A:.'), ('E:A:.', 'E:A:.', 'E:U:.')),
        (J + (L1, X1, L2, X1), J + (L1, X1, L2, X2), J + (L1, X2)),
        (J + (L1, X1, L2, X1), J + (L1, X1, L2, X2), J + (L1, X2, L2, X1), J + (L1, X2, L2, X2), J + (L1, X2, L2, X2, 'E:U:.')),
        (J, ('E:A:.', 'E:U:.', L1, X1), ('E:A:.', 'E:U:.', L1, X2, L2, X1), ('E:A:.', 'E:U:.', L1, X2, L2, X2)),
        (('E:U:.', L1, X1), ('E:U:.', L1, X2), ('E:U:.', L1, X3)),
        (('E:T:.',), ('E:.n.-', L1, X1), ('E:.n.-', L1, X2), ('E:.d.-',), ('E:.d.-', 'E:U:.', L2, X1), ('E:.d.-', 'E:U:.', L2, X2)),
        (('E:S:.',), ('E:.n.-',), ('E:.n.-', 'E:A:.', L1, X1), ('E:.n.-', 'E:A:.', L1, X2), ('E:.n.-', 'E:A:.', L1, X2, 'E:A:.')),
        (('E:S:.',), ('E:.n.-', L1, X1), ('E:.n.-', L1, X1, 'E:A:.'), ('E:.n.-', L1, X2), ('E:.d.-', L2, X1), ('E:.d.-', L2, X2)),
        tuple([('E:B:.',)] + [(a,) for a in M.ACTANTS[:5]]), tuple([('E:T:.',)] + [(a,) for a in M.ACTANTS[3:]]),
    ]
    todo = []
    for s in dict.fromkeys(tuple(sorted(x, key=M.addr_key)) for x in shapes):
        if len(s) > 7:
            if len(s) > 9:      # twelve members: at most two lexemes
                masks = [m for k in range(3) for m in itertools.combinations(range(len(s)), k)]
            else:
                masks = [m for k in range(len(s) + 1) for m in itertools.combinations(range(len(s)), k)] if THOROUGH else \
                    [m for k in (0, 1, 2, len(s) - 1, len(s)) for m in itertools.combinations(range(len(s)), k)]
        else:
            masks = [m for k in range(len(s) + 1) for m in itertools.combinations(range(len(s)), k)]
        for m in masks:
            for rot in range(len(FULL) if THOROUGH or len(s) <= 2 else 1):
                es = tuple((a, FULL[(i + rot) % len(FULL)] if i in m else E_) for i, a in enumerate(s))
                for f in s:
                    todo.append((es, f, 4 if len(s) > 1 else 2))
    ctx.bounds = {'role sets': len({tuple(a for a, _ in e) for e, _, _ in todo}), 'words': len(todo), 'lexemes': 'every set of empty roles, every focus, orders as given, reversed, rotated and parsed'}
    parallel(ctx, words, todo, chunk=200)
    P = [M.pm(), M.pm(['S:']), M.pm(['A:', 'T:']), M.pm([], [((), 1)]), M.pm([], [(('A:',), 1)]), M.pm(['wa.'], [(('A:', 'B:'), 1)]), M.pm([], [((), 2), (('S:', 'T:'), 2)])]
    parallel(ctx, lexemes, list(itertools.product(P, P)), chunk=20)
