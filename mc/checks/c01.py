"""C01 canonical form of scripts: every spelling of an expression is the same script."""
import itertools
import pickle
from mc.core import parallel, guard, THOROUGH
from mc.model import script as M
from mc import universe as U

CAP = 400 if THOROUGH else 120


def build(e):
    """the same expression through the programming interface"""
    from ieml.dictionary.script.operator import script, m, add
    if e[0] == 'p':
        return script(e[1] + ':')
    if e[0] == 'n':
        return script(M.spell(e))
    if e[0] == 'm':
        return m(*[build(x) for x in e[1:]])
    return add([build(x) for x in e[1]])


def build_nested(e):
    from ieml.dictionary.script.operator import add
    k = [build(x) for x in e[1]]
    r = k[0]
    for x in k[1:]:
        r = add([x, r])
    return r


def build_plus(e):
    k = [build(x) for x in e[1]]
    r = k[0]
    for x in k[1:]:
        r = r + x
    return r


def check_expr(e, r, full=True):
    from ieml.dictionary.script.operator import script
    plain = M.spell(e)
    key = 'expr ' + plain
    st, x = guard(script, plain)
    if st != 'ok':
        r.violate(key, 'valid script rejected: %s' % x, plain)
        return
    s = str(x)
    r.count('states')
    try:
        back = M.parse(s)
    except M.SyntaxErr as err:
        r.violate(key, 'canonical string %r is not a script (%s)' % (s, err), plain)
        return
    r.require(M.den(back) == M.den(e), key, 'canonical string %r denotes another set' % s, plain)
    r.require(M.layer(back) == M.layer(e) == x.layer, key, 'layer of %r' % s, plain)
    st, y = guard(script, s)
    r.require(st == 'ok' and str(y) == s and y == x and hash(y) == hash(x) and not (y != x), key,
              'canonical string %r parses to %s' % (s, y), plain)
    r.count('transitions', 2)
    if not full:
        return
    r.count('traces')
    sp = M.spellings(e, CAP)
    sp += [sp[-1].replace("'", '’'), ' ' + ' '.join(sp[0]).replace('w a', 'wa').replace('w o', 'wo')
           .replace('w u', 'wu').replace('w e', 'we') + '\n']
    for t in sp:
        st, y = guard(script, t)
        r.count('transitions')
        r.require(st == 'ok' and str(y) == s and y == x and hash(y) == hash(x), 'spelling ' + t,
                  '%r parses to %s, %r parses to %s' % (t, y, plain, s), [plain, t])
    builds = [build]
    if e[0] == '+':
        builds += [build_nested, build_plus]
    for b in builds:
        st, y = guard(b, e)
        r.count('transitions')
        r.require(st == 'ok' and str(y) == s and y == x and hash(y) == hash(x), key,
                  '%s: built object prints %s instead of %s' % (b.__name__, y, s), plain)
    st, y = guard(lambda: pickle.loads(pickle.dumps(x)))
    r.require(st == 'ok' and y == x and str(y) == s and hash(y) == hash(x)
              and [str(q) for q in y.singular_sequences] == [str(q) for q in x.singular_sequences],
              key, 'pickle round trip gives %s' % (y,), plain)
    r.sample({'plain': plain, 'canonical': s, 'spellings_tried': len(sp)})


def full(chunk, r):
    for e in chunk:
        check_expr(e, r)


def light(chunk, r):
    for e in chunk:
        check_expr(e, r, full=False)


def exprs():
    l0 = U.layer0()
    # sums written with every multiset of <= 3 abbreviations/primitives
    names = [(c, ('p', c)) for c in M.PRIMS] + [(c, ('+', tuple(('p', q) for q in M.RADD[c]))) for c in M.RADD]
    mixed0 = [('+', tuple(e for _, e in c)) for k in (2, 3) for c in itertools.combinations(names, k)]
    p1 = U.pick1()
    s1 = [t for k in ((2, 3, 4) if THOROUGH else (2, 3)) for t in U.sums(p1, k)]
    few1 = [p1[i] for i in (0, 1, 3, 5, 6, 9, 13)]
    few1 += [('+', (p1[1], p1[2])), ('+', (p1[3], p1[0])), ('+', (p1[13], p1[5], p1[8]))]
    l2 = [e for e in U.products(few1) if U.est(e) <= 360]
    few2 = l2[::max(1, len(l2) // 14)]
    s2 = [e for e in U.sums(few2, 2) if U.est(e) <= 360]
    few3 = few2[::4] + s2[::20]
    l3 = [e for e in U.products(few3) if U.est(e) <= 360]
    dp = U.deep([p1[i] for i in (1, 3, 5, 6, 9)], 6)
    if not THOROUGH:
        l3 = l3[::max(1, len(l3) // 250)]
    return l0 + mixed0, s1, l2, s2 + l3 + U.colliding(), dp


def run(ctx):
    import ieml.dictionary.script.operator  # imported before the workers fork
    ieml.dictionary.script.operator.script('S:')
    groups = exprs()
    for g in groups:
        parallel(ctx, full, g)
    l1 = U.layer1_products()
    small = [e for e in l1 if all(x[0] == 'p' for x in e[1:])]
    parallel(ctx, full, small)
    parallel(ctx, light, l1 if THOROUGH else [e for i, e in enumerate(l1) if i % 5 == 0])
    ctx.bounds = {'layer0': 'all 63 sums, all spellings', 'layer1': 'all 216 singular products in all spellings; '
                  + ('all 250047' if THOROUGH else '50010 of the 250047') + ' products of sums',
                  'sums of layer-1 terms': len(groups[1]), 'layer2': len(groups[2]), 'layer3': len(groups[3]),
                  'layers 2-6 towers': len(groups[4]), 'spellings per expression': CAP}
    ctx.assumptions = ['the spelling/denotation model in mc/model/script.py is the intended reading of the notation']
