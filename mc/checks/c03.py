"""C03 singular sequences: a script denotes exactly the set given by its expression."""
from mc.core import parallel, guard, THOROUGH
from mc.model import script as M
from mc import universe as U

POOL = []


def one(e, r, deep=True):
    from ieml.dictionary.script.operator import script
    plain = M.spell(e)
    key = 'expr ' + plain
    st, x = guard(script, plain)
    if st != 'ok':
        r.violate(key, 'valid script rejected: %s' % x, plain)
        return
    r.count('states')
    want = M.den_strs(e)
    st, ss = guard(lambda: list(x.singular_sequences))
    if st != 'ok':
        r.violate(key, 'singular sequences raise %s' % ss, plain)
        return
    r.count('transitions', len(ss))
    got = [str(s) for s in ss]
    r.require(len(got) == len(set(got)), key, 'duplicated singular sequences', plain)
    r.require(set(got) == want, key, 'singular sequences differ: missing %s extra %s'
              % (sorted(want - set(got))[:4], sorted(set(got) - want)[:4]), plain)
    r.require(all(a < b for a, b in zip(ss, ss[1:])), key, 'singular sequences not in increasing order', plain)
    r.require(x.cardinal == len(want) and len(x) == len(want), key,
              'cardinal %s for %d singular sequences' % (x.cardinal, len(want)), plain)
    r.require(x.is_singular == (len(want) == 1), key, 'is_singular', plain)
    r.require({str(s) for s in x.singular_sequences_set} == want, key, 'singular sequence set', plain)
    r.require(x.script_class == M.script_class(e) and x.grammatical_class == M.script_class(e), key,
              'class %s instead of %s' % (x.script_class, M.script_class(e)), plain)
    r.require(x.layer == M.layer(e), key, 'layer', plain)
    r.require(bool(x.empty) == M.is_empty(e), key, 'empty', plain)
    if deep:
        r.count('traces')
        for s in ss:
            r.require(s.cardinal == 1 and s.is_singular and [str(q) for q in s.singular_sequences] == [str(s)]
                      and s.layer == x.layer and s in x and ((x in s) == (len(ss) == 1)),
                      key, 'singular sequence %s is not a singular member' % s, plain)
            st, t = guard(script, str(s))
            r.require(st == 'ok' and t == s and str(t) == str(s), key, 'singular sequence %s does not parse back' % s, plain)
    if len(got) > 1:
        r.sample({'script': str(x), 'singular': got[:6], 'cardinal': x.cardinal})


def full(chunk, r):
    for e in chunk:
        one(e, r)


def light(chunk, r):
    for e in chunk:
        one(e, r, False)


def contain(chunk, r):
    for i in chunk:
        e, x = POOL[i]
        d = M.den(e)
        for f, y in POOL:
            r.count('transitions')
            want = M.layer(e) == M.layer(f) and d <= M.den(f)
            if (x in y) != want:
                r.violate('contains %s %s' % (y, x), '%s in %s should be %s' % (x, y, want), [M.spell(e), M.spell(f)])
        for o in (None, str(x), 3, object()):
            r.require(guard(lambda: o in x) == ('ok', False), 'contains other', 'non-script contained in %s' % x, str(x))


def exprs():
    p1 = U.pick1()
    l0 = U.layer0()
    s1 = U.sums(p1, 2) + U.sums(p1, 3)
    few1 = [p1[i] for i in (0, 1, 2, 3, 5, 9, 10)]
    few1 += [('+', (p1[1], p1[2])), ('+', (p1[9], p1[1])), ('+', (p1[12], p1[3], p1[0]))]
    l2 = [e for e in U.products(few1) if U.est(e) <= 360]
    few2 = l2[::max(1, len(l2) // 20)]
    s2 = [e for e in U.sums(few2, 2) + U.sums(few2[:10], 3) if U.est(e) <= 360]
    few3 = few2[::4] + s2[::24]
    l3 = [e for e in U.products(few3) if U.est(e) <= 360]
    dp = U.deep([p1[i] for i in (1, 3, 5, 6, 9)], 6)
    s2 += U.colliding() + U.colliding(('U:.', 'wa.', 'b.'))
    return l0, s1, l2, s2, l3, dp


def run(ctx):
    from ieml.dictionary.script.operator import script
    script('S:')
    l0, s1, l2, s2, l3, dp = exprs()
    if not THOROUGH:
        l3 = l3[::max(1, len(l3) // 200)]
        pass
    parallel(ctx, full, l0 + s1 + l2 + s2 + l3 + dp)
    ops = [o for o in l0 if len(M.den(o)) <= 3] + [l0[-1], l0[-2]]
    l1 = U.layer1_products(ops if not THOROUGH else None)
    if not THOROUGH:
        l1 = [e for i, e in enumerate(l1) if i % 4 == 0]
    parallel(ctx, light, l1)
    pool = l0 + s1[::9] + l2[::12] + s2[::12] + l3[::40] + dp[::8]
    POOL.extend((e, script(M.spell(e))) for e in pool)
    parallel(ctx, contain, range(len(POOL)), chunk=10)
    ctx.bounds = {'layer0': len(l0), 'layer1 products': len(l1), 'layer1 sums': len(s1), 'layer2': len(l2) + len(s2),
                  'layer3': len(l3), 'layers 2-6 towers': len(dp), 'containment pairs': len(POOL) ** 2}
    ctx.assumptions = ['the set semantics in mc/model/script.py is the intended one']
