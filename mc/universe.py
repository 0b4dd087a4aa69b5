"""Bounded universes of script expressions (model ASTs), deterministic."""
import itertools
from mc.model import script as M

P = {c: ('p', c) for c in M.PRIMS}


def term0(chars):
    chars = [c for c in M.PRIMS if c in chars]
    return P[chars[0]] if len(chars) == 1 else ('+', tuple(P[c] for c in chars))


def layer0():
    """the 63 non-empty sums of primitives"""
    return [term0(c) for k in range(1, 7) for c in itertools.combinations(M.PRIMS, k)]


def layer1_products(ops=None):
    """every product of three layer-0 terms"""
    ops = ops or layer0()
    return [('m', a, b, c) for a in ops for b in ops for c in ops]


def pick1():
    """hand-spread layer-1 terms: empty, verbs, nouns, remarkable, padded, paradigms"""
    L = []
    for s in ('E:.', 'U:.', 'S:.', 'wa.', 'y.', 'b.', 'S:E:B:.', 'E:U:.', 'E:S:T:.',
              'O:.', 'M:.', 'I:.', 'O:M:.', 'S:+B:.', 'S:U:+A:.', 'T:T:T:.', 'E:+S:.', 'U:A:T:.'):
        L.append(M.parse(s))
    return L


def sums(terms, k):
    return [('+', c) for c in itertools.combinations(terms, k)]


def products(terms):
    return [('m', a, b, c) for a in terms for b in terms for c in terms]


def size_ok(e, limit=360):
    return est(e) <= limit and len(M.den(e)) <= limit


def est(e):
    if e[0] in 'pn':
        return 1
    if e[0] == 'm':
        return est(e[1]) * est(e[2]) * est(e[3])
    return sum(map(est, e[1]))


def null(l):
    return P['E'] if l == 0 else ('n', l)


def lift(e):
    return ('m', e, null(M.layer(e)), null(M.layer(e)))


def deep(base, maxlayer):
    """towers of the base terms up to maxlayer: in every position, with a companion"""
    cur = list(base)
    out = []
    while cur and M.layer(cur[0]) < maxlayer:
        l = M.layer(cur[0])
        z = null(l)
        nxt = []
        for i, e in enumerate(cur):
            o = cur[(i + 1) % len(cur)]
            for t in (('m', e, z, z), ('m', z, e, z), ('m', e, o, z), ('m', z, z, e), ('m', e, z, o)):
                if est(t) <= 360:
                    nxt.append(t)
        seen = {}
        for t in nxt:
            seen.setdefault(M.den(t), t)
        nxt = list(seen.values())
        # keep a spread of constant size, deterministic
        step = max(1, len(nxt) // 24)
        nxt = nxt[::step]
        out.extend(nxt)
        for a, b in zip(nxt, nxt[1:]):
            if est(('+', (a, b))) <= 360:
                out.append(('+', (a, b)))
        cur = nxt
    return out


def leaves(e):
    """the operands from left to right, whatever the operation that joins them"""
    if e[0] == '+':
        return tuple(x for t in e[1] for x in leaves(t))
    if e[0] == 'm' and M.layer(e) > 1:
        return leaves(e[1]) + leaves(e[2]) + leaves(e[3])
    return (M.spell(e),)


def twins(names=('S:.', 'B:.', 'T:.')):
    """groups of layer-2 products of the same operands split differently between substance, attribute and mode"""
    ts = [M.parse(s) for s in names]
    ops = [null(1)] + [('+', c) if len(c) > 1 else c[0] for k in (1, 2, 3) for c in itertools.combinations(ts, k)]
    by = {}
    for e in products(ops):
        by.setdefault(leaves(e), {}).setdefault(M.den(e), e)
    return [list(g.values()) for g in by.values() if len(g) > 1]


def nested_twins(names=('S:.', 'B:.', 'T:.'), depth=2):
    """the twins, and each below the same operand of the same product or sum, up to depth times"""
    cur = [g for g in twins(names) if max(map(est, g)) <= 120]
    out = [e for g in cur for e in g]
    for _ in range(depth):
        nxt = []
        for g in cur:
            z, o = null(M.layer(g[0])), cur[0][0]
            for f in (lambda e: ('m', e, z, z), lambda e: ('m', z, e, z), lambda e: ('m', o, z, e), lambda e: ('m', z, e, e)):
                nxt.append([f(e) for e in g])
        nxt = [g for g in nxt if max(map(est, g)) <= 120][:160]
        out.extend(e for g in nxt for e in g)
        cur = nxt[::5]
    return out


def colliding(names=('S:.', 'B:.', 'T:.')):
    """sums of two layer-2 products of the same operands split differently between substance, attribute and mode"""
    out = []
    for g in twins(names):
        for a, b in itertools.combinations(g, 2):
            t = ('+', (a, b))
            if est(t) <= 360:
                out.append(t)
    return out
