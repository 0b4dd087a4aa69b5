"""C14 decorations are kept, printed canonically, read back, and never leak into another USL."""
import itertools
from mc.core import parallel, guard, THOROUGH
from mc.model import usl as M
from mc import uslgen as G
from mc.checks.c08 import parser, build, S
from mc.checks.c13 import paths, text, flex_paths, resolve, seg_text

PM = M.pm
VALUES = ['x', '', 'y "q" z', 'back\\slash', 'é ]>[ {}', 'a\\"b', 'line\nbreak', '[>constant>S: "x"]', '\\']


def quote(v):
    return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'


def deco(t, v):
    return '[%s %s]' % (t, quote(v))


def decorable(u):
    """paths that lead to a part that keeps a decoration"""
    out = []
    for s, v in paths(u):
        if s and s[-1][0] == 'pm' and (s[-1][3] is None or s[-1][3] == 'E:') or s and s[-1][0] == 'flex' and s[-1][1] == 'E:':
            continue
        out.append(s)
    return out


def variants(segs):
    """other spellings of the same path"""
    yield text(segs)
    alt = []
    for s in segs:
        if s[0] == 'role':
            s = ('role', not s[1], s[2])
        if s[0] == 'pm' and s[1] is not None:
            s = ('pm', s[1], None, s[3])
        alt.append(s)
    t = text(alt)
    if t != text(segs):
        yield t


def parse_decorated(r, key, s, base, want):
    """s must be read as base decorated with want {path text: value}"""
    r.count('traces')
    g = guard(parser().parse, s)
    if g[0] != 'ok':
        r.violate(key, 'raised %s' % g[1], s)
        return None
    o = g[1]
    got = guard(lambda: (str(o), [(str(d.path), d.value) for d in getattr(o, 'decorations', [])], str(getattr(o, 'usl', o))))
    if got[0] != 'ok':
        r.violate(key, 'raised %s' % got[1], s)
        return None
    st, ds, b = got[1]
    exp = ' '.join([base] + [deco(p, v) for p, v in ds])
    if not r.require(sorted(ds) == sorted(want.items()) and b == base and st == exp, key, 'is read as %s' % st, [s, st]):
        return None
    return o


def clean(r, key, u, s):
    """the undecorated USL and its morphemes are as before"""
    exp = M.to_str(u)
    if exp and not (u[0] == 'pm' and len(u[1]) == 1 and not u[2]):
        o = guard(parser().parse, exp)
        r.require(o[0] == 'ok' and str(o[1]) == exp, key, 'the undecorated USL is then read as %s' % (o[1],), s)
    for m in M.morphemes(u):
        r.require(S(m).get_literal() is None, key, 'the morpheme %s keeps the decoration %r' % (m, S(m).get_literal()), s)


def do(chunk, r):
    for u in chunk:
        r.count('states')
        exp = M.to_str(u)
        D = decorable(u)
        spelled = exp
        sets = [(d,) for d in D] + list(itertools.permutations(D, 2))[:400] + list(itertools.combinations(D, 3))[:60 if THOROUGH else 20]
        if len(D) > 3:
            sets.append(tuple(D))
            sets.append(tuple(reversed(D)))
        canon = {}
        for n, ds in enumerate(sets):
            r.count('transitions')
            # values depend on the part, not on the position, so that all orders of one set must print alike
            vals = {text(d): VALUES[(D.index(d) + len(ds)) % len(VALUES)] for d in ds}
            forms = [[list(variants(d))[-1 if (i + n) % 2 else 0] for i, d in enumerate(ds)]]
            for f in forms:
                s = spelled + ' ' + ' '.join(deco(t, vals[text(d)]) for t, d in zip(f, ds))
                key = 'decorate ' + s
                o = parse_decorated(r, key, s, exp, vals)
                if o is None:
                    continue
                st = str(o)
                fs = frozenset(vals.items())
                r.require(canon.setdefault(fs, st) == st, key, 'the order of the decorations changes the result: %s' % st, [canon[fs], st])
                b = parse_decorated(r, 'reparse ' + st, st, exp, vals)
                if b is not None:
                    r.require(str(b) == st and b == o and hash(b) == hash(o), 'reparse ' + st, 'is read back as %s' % b, st)
                r.require(not (o == build(u)), key, 'equals the undecorated USL', s)
            if len(ds) <= 2 or n % 5 == 0:
                singular(r, u, o, ds, vals)
            if n % 7 == 0:
                clean(r, 'leak ' + s, u, s)
        # decorations that no part keeps: the result is the undecorated USL, for comparisons as well
        for t in ['>'] + [text(x) for x, _ in paths(u) if x and x not in D]:
            g = guard(parser().parse, '%s [%s "x"]' % (exp, t))
            if g[0] == 'ok' and str(g[1]) == exp:
                b = build(u)
                r.count('dropped')
                r.require(g[1] == b and b == g[1] and hash(g[1]) == hash(b) and len({g[1], b}) == 1, 'dropped %s [%s]' % (exp, t), 'is equal to the undecorated USL but not the same in a set', exp)
        built(r, u, D)
        # a later decoration of one part replaces the earlier
        for d in D[:6]:
            s = '%s %s %s' % (spelled, deco(text(d), 'one'), deco(text(d), 'two'))
            parse_decorated(r, 'replace ' + s, s, exp, {text(d): 'two'})
        if u[0] == 'pm':
            F = [x for x, _ in flex_paths(u) if x[0][1] != 'E:']
            for ds in [(d,) for d in F] + list(itertools.permutations(F, 2))[:12]:
                vals = {text(d): VALUES[F.index(d) % len(VALUES)] for d in ds}
                s = exp + ' ' + ' '.join(deco(text(d), vals[text(d)]) for d in ds)
                o = parse_decorated(r, 'decorate ' + s, s, exp, vals)
                if o is not None:
                    singular(r, u, o, ds, vals)
        clean(r, 'leak ' + exp, u, exp)
        r.sample([exp, len(sets)])


def built(r, u, D):
    """the same decorated USL made from its parts"""
    from ieml.usl.decoration.instance import InstancedUSL, Decoration
    from ieml.usl.decoration.path import path
    for ds in [(d,) for d in D[:8]] + list(itertools.permutations(D, 2))[:30]:
        s = M.to_str(u) + ' ' + ' '.join(deco(text(d), VALUES[i]) for i, d in enumerate(ds))
        r.count('transitions')
        a = guard(parser().parse, s)
        b = guard(lambda: InstancedUSL(build(u), [Decoration(path(text(d)), VALUES[i]) for i, d in enumerate(ds)]))
        ok = a[0] == b[0] == 'ok' and str(a[1]) == str(b[1]) and a[1] == b[1] and hash(a[1]) == hash(b[1]) and not a[1] < b[1] and not b[1] < a[1]
        r.require(ok, 'built ' + s, 'parsed %s, built %s' % (a[1], b[1]), s)
        if ok:
            c = guard(lambda: InstancedUSL.from_usl(build(u)))
            r.require(c[0] == 'ok' and str(c[1]) == M.to_str(u), 'from_usl ' + s, 'a USL without literal gives %s' % (c[1],), s)
        clean(r, 'leak ' + s, u, s)


def singular(r, u, o, ds, vals):
    if o is None:
        return
    sss = M.ss(u)
    if len(sss) > 12:
        return
    key = 'ss ' + str(o)
    g = guard(lambda: list(o.singular_sequences))
    if g[0] != 'ok':
        r.violate(key, 'singular_sequences raised %s' % g[1], str(o))
        return
    got = {}
    for x in g[1]:
        got[str(getattr(x, 'usl', x))] = ({(str(d.path), d.value) for d in getattr(x, 'decorations', [])}, str(x))
    want = {}
    for x in sss:
        want[M.to_str(x)] = {(text(d), vals[text(d)]) for d in ds if resolve(d, x) not in (None, 'skip')}
    r.require(set(got) == set(want), key, 'the singular sequences are %s' % sorted(got), str(o))
    for x, w in want.items():
        if x in got:
            r.require(got[x][0] == w, key, 'singular sequence %s' % got[x][1], [str(o), got[x][1]])


def values(chunk, r):
    bases = [PM(['S:', 'wa.']), M.word([(('E:A:.',), M.lex(PM(['S:']), PM(['T:'])))], ('E:A:.',))]
    for v in chunk:
        for u in bases:
            d = decorable(u)[-1]
            r.count('transitions')
            s = M.to_str(u) + ' ' + deco(text(d), v)
            o = parse_decorated(r, 'value %r' % v, s, M.to_str(u), {text(d): v})
            if o is not None:
                parse_decorated(r, 'value %r' % v, str(o), M.to_str(u), {text(d): v})


def invalid(chunk, r):
    for u in chunk:
        exp = M.to_str(u)
        D = decorable(u)
        for segs in POOLP:
            if not segs or resolve(segs, u) is not None:
                continue
            r.count('transitions')
            bad = deco(text(segs), 'b')
            for s in ([exp + ' ' + bad] + ([exp + ' ' + deco(text(D[0]), 'a') + ' ' + bad, exp + ' ' + bad + ' ' + deco(text(D[-1]), 'a')] if D else [])):
                g = guard(parser().parse, s)
                r.require(g == ('err', 'CannotParse'), 'invalid ' + s, 'a decoration whose path is not in the USL gives %s' % (g[1],), s)
                clean(r, 'leak after ' + s, u, s)


SYNTAX = ['S: T: [>constant>S: x]', 'S: T: [>constant>S:]', 'S: T: ["x"]', 'S: T: [>constant>S: "x"', 'S: T: >constant>S: "x"]', '[>constant>S: "x"] S: T:', '[>constant>S: "x"]',
          'S: T: [[>constant>S: "x"]]', 'S: T: [>constant>S: "x" "y"]', 'S: T: [>constant>S: >constant>T: "y"]', 'S: T: ([>constant>S: "x"])', '(S:)(T: [>constant>T: "x"])',
          '[! E:A:. (S:)(T:) [>content>constant>T: "x"]]', 'S: T: [>constant>S: "x"] S:', 'S: T: "x"', 'S: T: [constant>S: "x"]', 'S: T: [>nothing>S: "x"]', 'S: T: [>constant>Z: "x"]']

HIST = ['S: wa. [>constant>S: "1"]', 'S: wa.', 'S: wa. [>constant>wa. "2"] [>constant>T: "3"]', '(S:)(wa.) [>flexion>S: "4"]', '(S:)(wa.)',
        '[! E:A:.  (S:)(wa.)] [>role>! E:A:.>content>constant>wa. "5"]', '[! E:A:.  (S:)(wa.)]', 'S: wa. [>S: "6"]', 'S: m1(wa. k.) [>group_0>k. "7"]', 'S: m1(wa. k.)']


def histories(chunk, r):
    from ieml.usl.parser import IEMLParser
    ps = [parser(), IEMLParser()]
    for h in chunk:
        r.count('transitions')
        keep = []
        for k, i in enumerate(h):
            g = guard(lambda: ps[k % 2].parse(HIST[i]))
            g2 = guard(lambda: (str(g[1]), sorted(str(x) for x in g[1].singular_sequences))) if g[0] == 'ok' else g
            r.require(g2 == EXPECT[i], 'history %s' % (h[:k + 1],), '%s gives %s instead of %s' % (HIST[i], g2, EXPECT[i]), [HIST[j] for j in h])
            keep.append((i, g[1]))
        for i, o in keep:
            if not isinstance(o, str):
                g2 = guard(lambda: (str(o), sorted(str(x) for x in o.singular_sequences)))
                r.require(g2 == EXPECT[i], 'history %s' % (h,), '%s becomes %s' % (HIST[i], g2), [HIST[j] for j in h])


EXPECT = {0: ('ok', ('S: wa. [>constant>S: "1"]', ['S: wa. [>constant>S: "1"]'])), 1: ('ok', ('S: wa.', ['S: wa.'])), 2: ('err', 'CannotParse'),
          3: ('ok', ('(S:)(wa.) [>flexion>S: "4"]', ['(S:)(wa.) [>flexion>S: "4"]'])), 4: ('ok', ('(S:)(wa.)', ['(S:)(wa.)'])),
          5: ('ok', ('[! E:A:.  (S:)(wa.)] [>role>! E:A:.>content>constant>wa. "5"]',) * 1 + (['[! E:A:.  (S:)(wa.)] [>role>! E:A:.>content>constant>wa. "5"]'],)),
          6: ('ok', ('[! E:A:.  (S:)(wa.)]', ['[! E:A:.  (S:)(wa.)]'])), 7: ('ok', ('S: wa. [>S: "6"]', ['S: wa. [>S: "6"]'])),
          8: ('ok', ('S: m1(wa. k.) [>group_0 1>k. "7"]', ['S:', 'S: k.', 'S: wa.'])), 9: ('ok', ('S: m1(wa. k.)', ['S:', 'S: k.', 'S: wa.']))}
POOLP = []


def universe():
    L = M.lex
    pms = [PM(['S:', 'wa.']), PM(['S:'], [(('A:', 'B:'), 1)]), PM(['wa.', 'b.', "k.a.-k.a.-'"], [(('A:', 'T:'), 2)]), PM([], [(('S:', 'T:'), 1), (('A:', 'k.'), 1)]),
           PM(['U:'], [(('S:', 'T:'), 1), (('A:', 'k.', 'b.'), 3), (('wo.', 'wa.'), 1)]), PM(['S:']), PM([], [(('wa.',), 1)])]
    lexs = [L(PM(['S:']), PM(['T:'])), L(PM(), PM(['wa.'], [(('A:', 'B:'), 1)])), L(PM(['b.'], [(('S:', 'T:'), 1)]), PM()), L(PM(['E:.wo.-']), PM([], [(('S:', 'T:'), 2), (('A:', 'k.'), 1)])),
            L(PM(["E:S:.-d.u.-'"]), PM(['U:', 'A:', 'S:', "m.-B:.A:.-'"]))]
    # lexemes without a common morpheme
    X = [L(PM(['S:']), PM(['T:'])), L(PM(), PM(['wa.'], [(('A:', 'B:'), 1)])), L(PM(["E:S:.-d.u.-'"]), PM(['b.'])), L(PM([], [(('U:', 'k.'), 1)]), PM(["k.a.-k.a.-'"])),
         L(PM(['E:.wo.-']), PM(["m.-B:.A:.-'"])), L(PM(), PM(['s.'])), L(PM(['t.']), PM()), L(PM(), PM(["b.a.-"]))]
    words = []
    shapes = G.valid_shapes(3) + [s for s in G.EXTRA_SHAPES if len(s) <= len(X)]
    for k, s in enumerate(shapes if THOROUGH else shapes[::2] + shapes[-5:]):
        words.append(M.word([(a, X[(i + k) % len(X)]) for i, a in enumerate(s)], s[k % len(s)]))
    return pms, lexs, list(dict.fromkeys(words))


def run(ctx):
    parser()
    from ieml.usl.decoration.instance import InstancedUSL  # noqa
    pms, lexs, words = universe()
    us = pms + lexs + words
    parallel(ctx, do, us, chunk=1)
    alpha = ['a', '"', '\\', ']', '[', '>', ' ', '\n', 'é', '{', "'"]
    vs = [''.join(c) for k in range(4 if THOROUGH else 3) for c in itertools.product(alpha, repeat=k)] + ['"' * 5, '\\' * 5, '\\"' * 3]
    parallel(ctx, values, vs)
    seen = {}
    for u in pms + lexs + words[::4]:
        for s, _ in paths(u):
            seen.setdefault(text(s), s)
    POOLP.extend(list(seen.values())[::1 if THOROUGH else 3])
    parallel(ctx, invalid, us[::1 if THOROUGH else 3], chunk=1)
    for s in SYNTAX:
        g = guard(parser().parse, s)
        ctx.require(g == ('err', 'CannotParse'), 'syntax ' + s, 'gives %s' % (g[1],), s)
    depth = 4 if THOROUGH else 3
    parallel(ctx, histories, [h for k in range(1, depth + 1) for h in itertools.product(range(len(HIST)), repeat=k)], chunk=40)
    ctx.bounds = {'USLs': len(us), 'decorated parts at once': 3, 'values': len(vs), 'paths not in the USL': len(POOLP), 'history depth': depth, 'history operations': len(HIST)}
