"""C13 paths name the parts of a USL: exactly, unambiguously, readable back and sufficient to rebuild it."""
import itertools
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G
from mc.checks.c08 import parser, build, S

_P = {}
PM = M.pm


def pp():
    if 'pp' not in _P:
        from ieml.usl.decoration.parser.parser import PathParser
        _P['pp'] = PathParser()
    return _P['pp']


# -- reference model: (segments, text of the value) ----------------------------
# segments: ('role', focus, address) ('lex', 'flexion'|'content') ('pm', group, multiplicity, morpheme|None) ('flex', morpheme)

def pm_paths(p):
    c = p[1] or ('E:',)
    yield [('pm', None, None, None)], M.pm_str(PM(p[1]))
    for m in c:
        yield [('pm', None, None, m)], m
    for i, (g, n) in enumerate(p[2][:3]):
        yield [('pm', i, n, None)], M.pm_str(PM([], [(g, n)]))
        for m in g:
            yield [('pm', i, n, m)], m


def flex_paths(p):
    for m in (p[1] or ('E:',)) + tuple(m for g, _ in p[2] for m in g):
        yield [('flex', m)], m


def lex_paths(l):
    yield [('lex', 'flexion')], M.pm_str(l[1])
    for s, v in flex_paths(l[1]):
        yield [('lex', 'flexion')] + s, v
    yield [('lex', 'content')], M.pm_str(l[2])
    for s, v in pm_paths(l[2]):
        yield [('lex', 'content')] + s, v


def word_paths(w):
    yield [], M.to_str(w)
    for a, l in w[1]:
        r = ('role', a == w[2], a)
        yield [r], M.lex_str(l)
        for s, v in lex_paths(l):
            yield [r] + s, v


def paths(u):
    return list({'pm': pm_paths, 'lex': lex_paths, 'word': word_paths}[u[0]](u))


def seg_text(s):
    if s[0] == 'role':
        return '>role>' + ('! ' if s[1] else '') + ' '.join(s[2])
    if s[0] == 'lex':
        return '>' + s[1]
    if s[0] == 'flex':
        return '>' + s[1]
    t = '>constant' if s[1] is None else '>group_%d%s' % (s[1], '' if s[2] is None else ' %d' % s[2])
    return t + ('' if s[3] is None else '>' + s[3])


def text(segs):
    return ''.join(map(seg_text, segs)) or '>'


def resolve(segs, u):
    """the text the path leads to in u, or None.  A path leads through the valence of any process, ignores the focus, the
    multiplicity and the context prefix, and the empty morpheme is in every group."""
    for s in segs:
        if s[0] == 'role':
            if u[0] != 'word':
                return None
            a, own = s[2], {x: l for x, l in u[1]}
            if a[0] in M.VALENCES:
                v = [x for x in own if x[0] in M.VALENCES]
                if not v:
                    return None
                a = (v[0][0],) + a[1:]
                hit = own.get(a)
            elif a[0] in M.ACTANTS:
                hit = own.get(a)
            else:
                proc = any(x[0] in M.VALENCES for x in own)
                if proc:
                    return 'skip'
                hit = next((l for x, l in own.items() if x[1:] == a[1:]), None)
                if hit is None and any(x[1:][:len(a) - 1] == a[1:] for x in own):
                    return 'skip'
            if hit is None:
                if any(x[:len(a)] == a for x in own):
                    return 'skip'       # a junction: no lexeme of its own
                return None
            u = hit
        elif s[0] == 'lex':
            if u[0] != 'lex':
                return None
            u = u[1] if s[1] == 'flexion' else u[2]
        elif s[0] == 'flex':
            if u[0] != 'pm':
                return None
            if s[1] not in (u[1] or ('E:',)) and not any(s[1] in g for g, _ in u[2]):
                return None
            return s[1]
        else:
            if u[0] != 'pm':
                return None
            if s[1] is not None and s[1] >= len(u[2]):
                return None
            if s[3] is None:
                return M.pm_str(PM(u[1])) if s[1] is None else M.pm_str(PM([], [u[2][s[1]]]))
            if s[3] != 'E:' and s[3] not in (u[1] if s[1] is None else u[2][s[1]][0]):
                return None
            return s[3]
    return M.to_str(u)


def recomposable(u):
    def flex(p):
        roots = {'E:.wo.-': 0, 'E:.wa.-': 0, "E:S:.-d.u.-'": 1, "E:B:.-d.u.-'": 1, "E:T:.-d.u.-'": 1}
        if any(m not in roots for m in p[1]) or any(m not in roots for g, _ in p[2] for m in g):
            return False
        used = [roots[m] for m in p[1]] + [roots[g[0]] for g, _ in p[2] if g]
        return len(set(used)) == len(used) and all(n == 1 and len(g) > 1 and len({roots[m] for m in g}) == 1 for g, n in p[2])

    def pm(p):
        ms = list(p[1]) + [m for g, _ in p[2] for m in g]
        return len(p[2]) <= 3 and all(g for g, _ in p[2]) and len(set(ms)) == len(ms) and len(set(p[2])) == len(p[2])
    if u[0] == 'pm':
        return pm(u) and (u[1] or u[2])
    ls = [u] if u[0] == 'lex' else [l for _, l in u[1]]
    return all(flex(l[1]) and pm(l[2]) for l in ls)


# -- the check -----------------------------------------------------------------

def do(chunk, r):
    from ieml.usl.decoration.path import UslPath, usl_from_path_values
    from ieml.usl.usl import usl
    for u in chunk:
        r.count('states')
        exp = M.to_str(u)
        o = build(u)
        want = paths(u)
        got = guard(lambda: list(o.iter_structure_path()))
        if got[0] != 'ok':
            r.violate('walk ' + exp, 'iter_structure_path raised %s' % got[1], exp)
            continue
        g = [(str(p), str(v)) for p, v in got[1]]
        r.require(sorted(g) == sorted((text(s), v) for s, v in want), 'walk ' + exp,
                  'the walk gives %s' % sorted(set(g) ^ {(text(s), v) for s, v in want})[:4], exp)
        segs_of = {text(s): s for s, _ in want}
        for p, v in got[1]:
            t = str(p)
            r.count('transitions')
            d = guard(p.deference, o)
            r.require(d[0] == 'ok' and str(d[1]) == str(v) and type(d[1]) is type(v), 'lead %s in %s' % (t, exp), 'the path leads to %s' % (d[1],), [exp, t])
            q = guard(pp().parse, t)
            if r.require(q[0] == 'ok' and str(q[1]) == t and type(q[1]) is type(p) and q[1] == p and hash(q[1]) == hash(p), 'parse ' + t,
                         'the path is read back as %s' % (q[1],), t):
                d = guard(q[1].deference, o)
                r.require(d[0] == 'ok' and str(d[1]) == str(v), 'lead parsed %s in %s' % (t, exp), 'the parsed path leads to %s' % (d[1],), [exp, t])
            if t in segs_of:
                algebra(r, segs_of[t], p)
        if u[0] == 'pm':
            g = guard(lambda: sorted((str(p), str(v)) for p, v in o.iter_structure_path(flexion=True)))
            r.require(g == ('ok', sorted((text(s), v) for s, v in flex_paths(u))), 'flexion walk ' + exp, 'gives %s' % (g,), exp)
            for s, v in flex_paths(u):
                d = guard(lambda: pp().parse(text(s)).deference(o))
                r.require(d[0] == 'ok' and str(d[1]) == v, 'lead flexion %s in %s' % (text(s), exp), 'leads to %s' % (d[1],), exp)
        ss = guard(lambda: list(o.iter_structure_path_by_script_ss()))
        leaf = sorted((text(s), v) for s, v in want if s and (s[-1][0] == 'flex' or s[-1][0] == 'pm' and s[-1][3] is not None))
        if r.require(ss[0] == 'ok' and sorted((str(p), str(v)) for p, v in ss[1]) == leaf, 'leaves ' + exp, 'morpheme paths %s' % (ss[1],), exp) \
                and recomposable(u):
            r.count('traces')
            l = ss[1]
            n = len(l)
            for order in {tuple(range(n)), tuple(range(n - 1, -1, -1)), tuple(range(n // 2, n)) + tuple(range(n // 2))}:
                x = guard(usl, [l[i] for i in order])
                r.require(x[0] == 'ok' and str(x[1]) == exp and type(x[1]) is type(o), 'recompose ' + exp, 'its paths give %s' % (x[1],), exp)
            x = guard(usl_from_path_values, [(str(p), str(v)) for p, v in l])
            r.require(x[0] == 'ok' and str(x[1]) == exp, 'recompose text ' + exp, 'its paths as text give %s' % (x[1],), exp)
        r.sample([exp, [text(s) for s, _ in want][:6]])


def algebra(r, segs, p):
    t = text(segs)
    key = 'algebra ' + t
    if segs:
        h, tail = p.split_tail()
        r.require(str(h) == text(segs[:-1]) and str(tail) == text(segs[-1:]), key, 'split_tail gives %s and %s' % (h, tail), t)
        r.require(str(h.concat(tail)) == t, key, 'concat does not undo split_tail', t)
        r.require(str(p.tail) == text(segs[-1:]), key, 'tail is %s' % p.tail, t)
        r.require(p.is_constant_path == all(not (s[0] == 'pm' and s[1] is not None) for s in segs), key, 'is_constant_path is %s' % p.is_constant_path, t)
        r.require(p.has_prefix(p) and p.has_prefix(None), key, 'is not a prefix of itself', t)
        r.require(str(UslPathRoot().concat(p)) == t and str(p.concat(UslPathRoot())) == t, key, 'the root path is not neutral', t)
        for k in range(1, len(segs)):
            q = guard(pp().parse, text(segs[:k]))
            if q[0] != 'ok':
                continue
            q = q[1]
            r.require(p.has_prefix(q) and not q.has_prefix(p), key, 'prefix relation with %s is wrong' % q, t)
            rest = p.remove_prefix(q)
            r.require(rest is not None and str(rest) == text(segs[k:]) and str(q.concat(rest)) == t, key,
                      'removing the prefix %s gives %s' % (q, rest), t)
            r.require(str(q.concat(p)) == t, key, '%s followed by the whole path gives %s' % (q, q.concat(p)), t)
            if k == len(segs) - 1 and segs[-1][0] == 'flex':
                inner = guard(pp().parse, text([('pm', None, None, str(p.tail)[1:])]))
                x = guard(q.concat, inner[1])
                r.require(x[0] == 'ok' and str(x[1]) == t, key, '%s followed by %s gives %s' % (q, inner[1], x[1]), t)
        x = segs[-1]
        if x[0] == 'pm':
            wm = segs[:-1] + [('pm', x[1], x[2], None)]
            r.require(str(p.without_morpheme()) == text(wm), key, 'without_morpheme gives %s' % p.without_morpheme(), t)
            r.require(p.has_prefix(p.without_morpheme()), key, 'a group is not a prefix of its morphemes', t)
            r.require(str(p.as_constant(S('wa.'))) == text(segs[:-1] + [('pm', None, None, x[3] or 'wa.')]), key, 'as_constant gives %s' % p.as_constant(S('wa.')), t)
        elif x[0] == 'flex' and len(segs) > 1:
            r.require(str(p.without_morpheme()) == text(segs[:-1]), key, 'without_morpheme gives %s' % p.without_morpheme(), t)
            r.require(str(p.as_constant()) == t, key, 'as_constant gives %s' % p.as_constant(), t)


def UslPathRoot():
    from ieml.usl.decoration.path import UslPath
    return UslPath()


def cross(chunk, r):
    """every path of the pool against every USL of the pool"""
    from ieml.usl.decoration.path import DeferenceError
    for u in chunk:
        o = build(u)
        for segs in POOLP:
            if not segs:
                continue
            w = resolve(segs, u)
            if w == 'skip':
                continue
            r.count('transitions')
            p = PARSED[text(segs)]
            key = 'cross %s in %s' % (text(segs), M.to_str(u))
            if w is None:
                g = guard(p.deference, o)
                r.require(g == ('err', 'DeferenceError') and p.contained(o) is False, key, 'a path that is not in the USL gives %s' % (g[1],), None)
            else:
                g = guard(p.deference, o)
                r.require(g[0] == 'ok' and str(g[1]) == w and p.contained(o) is True, key, 'should lead to %s, not %s' % (w, g[1]), None)


def pairs(chunk, r):
    for a in chunk:
        p = PARSED[text(a)]
        for b in POOLP:
            if not a or not b or (b[-1][0] == 'pm' and b[-1][3] is not None):
                continue
            r.count('transitions')
            q = PARSED[text(b)]
            want = a[:len(b)] == b
            if not want and b[-1][0] == 'pm' and len(a) == len(b) and a[:-1] == b[:-1] and a[-1][0] == 'pm' and a[-1][1:3] == b[-1][1:3]:
                want = True
            r.require(p.has_prefix(q) == want, 'prefix %s of %s' % (q, p), 'has_prefix should be %s' % want, None)
            r.require((p == q) == (a == b) and (hash(p) == hash(q) or a != b), 'equal %s %s' % (p, q), 'equality of paths disagrees with their text', None)


POOLP, PARSED = [], {}
BAD = ['', 'S:', '>>', '>role', '>role>', '>content>S:', '>flexion>constant', '>flexion>constant>S:', '>constant>', '>constant>S:>S:', '>group_9', '>group_3 1>S:',
       '>group_0 1 2', '>constant 1 >', '>role>S:', '>role>E:A:.>constant', '>role>E:A:.>flexion>constant>S:', '>content>flexion>S:', '>role>E:A:.>role>E:A:.',
       '>! E:A:.', '>content>content', '>group_0>group_1', '>role>!', '>role>E:A:. ! E:A:.', 'constant', 'content>constant', '>constant>S:.', '>role>E:A:.>S:']
BAD_OK = {'>constant>S:.'}


def universe():
    ms = ['S:', 'wa.', "k.a.-k.a.-'"]
    pms = [p for p in G.pms(ms, 3, G.GROUPS, 2) + G.pms(ms[:2], 2 if THOROUGH else 1, G.GROUPS, 3)
           if len(set(M.morphemes(p))) == len(p[1] or ' ') + sum(len(g) for g, _ in p[2]) and len(set(p[2])) == len(p[2])]
    F = [PM(), PM(['E:.wo.-']), PM(["E:S:.-d.u.-'", 'E:.wo.-']), PM([], [(('E:.wo.-', 'E:.wa.-'), 1)]),
         PM(["E:T:.-d.u.-'"], [(('E:.wo.-', 'E:.wa.-'), 1)]), PM([], [(('E:.wo.-', 'E:.wa.-'), 1), (("E:S:.-d.u.-'", "E:B:.-d.u.-'", "E:T:.-d.u.-'"), 1)]), PM(['S:'], [(('A:', 'B:'), 2)])]
    C = [PM(), PM(['S:']), PM(['A:', 'T:']), PM(['wa.'], [(('A:', 'B:'), 1)]), PM([], [(('S:', 'T:'), 1)]), PM(['b.'], [(('S:', 'T:'), 2), (('A:', 'k.'), 1)]),
         PM([], [(('S:',), 1), (('T:', 'wa.'), 1), (('A:', 'k.', 'b.'), 3)])]
    lexs = [M.lex(f, c) for f in F for c in C]
    lx = [M.lex(F[1], C[1]), M.lex(F[0], C[3]), M.lex(F[4], C[5]), M.lex(), M.lex(F[3], C[0]), M.lex(F[2], C[6])]
    words = []
    for s in G.valid_shapes(5 if THOROUGH else 4) + G.EXTRA_SHAPES:
        for k, f in enumerate(s[:6]):
            words.append(M.word([(a, lx[(i + k) % len(lx)]) for i, a in enumerate(s)], f))
    return pms, lexs, words


def run(ctx):
    parser(), pp()
    pms, lexs, words = universe()
    us = sorted(set(pms)) + lexs + words
    parallel(ctx, do, us, chunk=20)
    n = 60 if THOROUGH else 24
    pool = sorted(set(pms))[::max(1, len(set(pms)) // n)] + lexs[::max(1, len(lexs) // n)] + words[::max(1, len(words) // (3 * n))]
    seen = {}
    for u in pool:
        for s, _ in paths(u):
            seen.setdefault(text(s), s)
    POOLP.extend(seen.values())
    for t in seen:
        g = guard(pp().parse, t)
        if ctx.require(g[0] == 'ok', 'parse ' + t, 'raised %s' % g[1], t):
            PARSED[t] = g[1]
    POOLP[:] = [s for s in POOLP if text(s) in PARSED]
    parallel(ctx, cross, pool, chunk=2)
    parallel(ctx, pairs, POOLP[::1 if THOROUGH else 2], chunk=10)
    for t in BAD:
        ctx.count('transitions')
        g = guard(pp().parse, t)
        if t in BAD_OK:
            ctx.require(g[0] == 'ok', 'parse ' + t, 'raised %s' % g[1], t)
        else:
            ctx.require(g == ('err', 'CannotParse'), 'reject ' + t, 'gives %s' % (g[1],), t)
    ctx.bounds = {'polymorphemes': len(set(pms)), 'lexemes': len(lexs), 'words': len(words), 'cross: paths': len(POOLP), 'cross: USLs': len(pool)}
