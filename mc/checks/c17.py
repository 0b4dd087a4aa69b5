"""C17 the relations between the scripts of a dictionary are exactly those their structure and the inhibitions say."""
import itertools
from mc.core import parallel, guard, THOROUGH
from mc.checks.c16 import S, den, make, expected, families, canon
from mc.model.rel import relations

SYMMETRIC = ['opposed', 'associated', 'crossed', 'twin', 'identity'] + ['table_%d' % i for i in range(6)]
INVERSE = [('contains', 'contained')] + [('father_' + x, 'child_' + x) for x in ('substance', 'attribute', 'mode')]
INHIB = ['father_substance', 'father_attribute', 'father_mode', 'opposed', 'associated', 'crossed', 'twin']


def configs():
    out = []
    for root, pool in families():
        n = len(pool)
        for k in (range(n + 1) if THOROUGH else (0, 1, 2, n - 1, n)):
            for sub in itertools.combinations(pool, k):
                out.append(((root,) + sub, ((root, 'is_root', 'True'),)))
    # roots of several layers: fathers and children across roots, near and far, every subset of the roots
    for pool in [('O:', 'M:', 'O:M:.', 'M:O:.', 'O:M:.M:O:.-'), ('F:', 'O:O:.', 'M:M:.', 'O:O:.M:M:.-+M:M:.O:O:.-', "O:O:.-O:.M:.-'"),
                 ('M:', 'M:M:.', 'M:M:.S:.O:.-', "M:M:.-O:.-'"), ('O:', 'M:', 'O:M:.', 'M:O:.+M:M:.', 'O:O:.')]:
        pool = [canon(p) for p in pool]
        for k in range(1, len(pool) + 1):
            for sub in itertools.combinations(pool, k):
                if len({x for p in sub for x in den(S(p))}) != sum(len(den(S(p))) for p in sub):
                    continue
                out.append((sub, tuple((p, 'is_root', 'True') for p in sub)))
    # opposed, associated, crossed, twin
    for root, parts in [('O:O:M:.', ('O:O:S:.', 'O:O:B:.', 'U:O:M:.', 'O:U:M:.', 'wa.+wo.')), ('O:M:.M:O:.O:.-' if THOROUGH else 'O:S:.S:O:.O:.-', ()),
                        ('M:M:.M:M:.-', ('M:M:.S:M:.-', 'S:M:.M:M:.-', 'S:M:.S:M:.-', 'B:M:.B:M:.-', 'M:S:.M:S:.-', 's.M:M:.-', 'S:M:.M:S:.-', 'M:S:.S:M:.-'))]:
        root = canon(root)
        parts = [canon(p) for p in parts]
        parts = [p for p in parts if den(S(p)) <= den(S(root))]
        for k in (range(len(parts) + 1) if THOROUGH else {0, 1, len(parts)}):
            for sub in itertools.combinations(parts, k):
                out.append(((root,) + sub, ((root, 'is_root', 'True'),)))
    # modes: crossed and associated between scripts of several sizes, with and without inhibitions
    for root, parts in [('wa.+wu.wa.+wu.wo.+wa.-', ('wa.wa.wo.+wa.-', 'wu.wu.wo.+wa.-', 'wa.wu.wo.+wa.-', 'wa.wa.+wu.wo.-', 'wa.+wu.wu.wa.-', 'wa.+wu.wu.wo.-')),
                        ('wa.wa.wo.+wa.-+wu.wu.wo.-', ('wa.wa.wo.+wa.-',)), ('wa.+wu.wa.wo.+wa.-+wu.wu.wo.-', ('wa.wa.wo.+wa.-', 'wa.+wu.wa.wo.-', 'wa.+wu.wa.wa.-')),
                        ('U:A:S:+B:.+U:A:T:.', ('U:A:S:+B:.',)), ('U:A:S:+B:.+A:U:T:.', ('U:A:S:+B:.',)), ('U:U:S:+B:.+A:A:T:.', ('U:U:S:+B:.',)),
                        ('S:O:M:.', ('S:O:S:.', 'S:U:M:.', 'S:A:M:.', 'S:O:B:.'))]:
        root, parts = canon(root), [canon(p) for p in parts]
        for k in range(len(parts) + 1 if THOROUGH else 4):
            for sub in itertools.combinations(parts, k):
                out.append(((root,) + sub, ((root, 'is_root', 'True'),)))
        for k in range(len(INHIB) + 1):
            for inh in itertools.combinations(INHIB, k):
                if THOROUGH or k < 3 or k > 5:
                    out.append(((root,) + tuple(parts), ((root, 'is_root', 'True'),) + tuple((root, 'inhibition', x) for x in inh)))
    # every set of inhibitions of a root beside another root without
    two = ('O:M:.', 'M:O:.', 'O:O:.O:O:.-', 'O:O:.wa.-', 'wa.O:O:.-', 'O:', 'M:')
    two = tuple(canon(p) for p in two)
    rows = tuple((two[i], 'is_root', 'True') for i in (0, 1, 2, 5, 6))
    for k in range(len(INHIB) + 1):
        for inh in itertools.combinations(INHIB, k):
            if not THOROUGH and 2 < k < 6:
                continue
            out.append((two, rows + tuple((two[2], 'inhibition', x) for x in inh)))
            out.append((two, rows + tuple((two[0], 'inhibition', x) for x in inh)))
    # an inhibition of what is not a root is of no effect
    for x in INHIB:
        out.append((two, rows + ((two[3], 'inhibition', x),)))
        out.append((two, rows + ((two[2], 'inhibition', x), (two[2], 'inhibition', x))))
    return out


def do(chunk, r):
    import numpy
    from ieml.constants import RELATIONS
    for ps, rows in chunk:
        r.count('states')
        key = 'relations %s %s' % (' '.join(ps), ' '.join('/'.join(x) for x in rows))
        g = guard(make, ps, rows)
        if g[0] != 'ok':
            r.violate(key, 'raised %s' % g[1], key)
            continue
        d = g[1]
        m = expected(ps, rows)
        want = relations(*m)
        r.count('traces')

        def read():
            res = {}
            for rel in want:
                res[rel] = set()
                for s in d.scripts:
                    objs = list(d.relations.object(s, rel))
                    assert objs == sorted(set(objs)), '%s of %s not in increasing order or repeated' % (rel, s)
                    res[rel] |= {(str(s), str(o)) for o in objs}
            return res
        try:
            got = read()
        except AssertionError as e:
            r.violate(key, str(e), key)
            continue
        except Exception as e:
            r.violate(key, 'raised %s' % type(e).__name__, key)
            continue
        ok = True
        for rel in want:
            r.count('transitions', len(want[rel]))
            if got[rel] != want[rel]:
                ok = False
                r.violate(key, '%s: missing %s, in excess %s' % (rel, sorted(want[rel] - got[rel])[:3], sorted(got[rel] - want[rel])[:3]), key)
        if not ok:
            continue
        for a, b in INVERSE + [(x, x) for x in SYMMETRIC]:
            r.require({(y, x) for x, y in got[a]} == got[b], key, '%s is not the inverse of %s' % (a, b), key)

        def others():
            assert set(RELATIONS) == set(want), 'relation names'
            names = [str(s) for s in d.scripts]
            mat = {(names[i], names[j]) for i, j in zip(*numpy.nonzero(numpy.asarray(d.relations.boolean_matrix)))}
            assert mat == set().union(*want.values()), 'matrix'
            df = d.relations.pandas()
            assert sorted(zip(df['mode'], df['substance'], df['attribute'])) == sorted((k, a, b) for k in want for a, b in want[k]), 'pandas'
            pick = list(d.scripts)[::max(1, len(d.scripts) // 6)]
            for a in pick:
                ro = d.relations.relation_object(a)
                assert {(k, str(o)) for k in ro for o in ro[k]} == {(k, y) for k in want for x, y in want[k] if x == str(a)}, 'relation_object'
                for b in pick:
                    assert d.relations.relation(a, b) == [k for k in RELATIONS if (str(a), str(b)) in want[k]], 'relation'
        try:
            others()
        except Exception as e:
            r.violate(key, '%s: %s' % (type(e).__name__, e), key)
        r.sample([key, {k: len(v) for k, v in want.items() if v}])


def run(ctx):
    import os
    import sys
    S('M:')
    sys.stderr = open(os.devnull, 'w')
    cs = configs()
    parallel(ctx, do, cs, chunk=4)
    ctx.bounds = {'dictionaries': len(cs), 'inhibitions': 'all sets' if THOROUGH else 'all sets of up to 2, 6 and 7'}
    ctx.assumptions = ['parents and ranks (decided by C16), operands, equality and order of scripts (C01-C03)']
