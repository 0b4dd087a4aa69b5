"""Reference model of the relations of a dictionary."""
from mc.checks.c16 import S, den


def terms(o):
    from ieml.dictionary.script import AdditiveScript
    return list(o.children) if isinstance(o, AdditiveScript) else [o]


def nearest(o, info):
    from ieml.dictionary.script import NullScript
    out = set()
    for t in terms(o):
        if isinstance(t, NullScript):
            continue
        if str(t) in info:
            out.add(str(t))
        elif t.layer > 0:
            for c in t.children:
                out |= nearest(c, info)
    return out


def relations(roots, inh, info):
    """{relation: set of (subject, object)}"""
    from ieml.dictionary.script import MultiplicativeScript, NullScript
    R = {}
    names = list(info)
    of_root = {r: [s for s in names if info[s][2] == r] for r in roots}
    R['identity'] = {(s, s) for s in names}
    R['contains'] = {(a, b) for r in roots for a in of_root[r] for b in of_root[r] if den(S(b)) <= den(S(a))}
    for i, n in enumerate(('substance', 'attribute', 'mode')):
        R['father_' + n] = {(s, f) for s in names if 'father_' + n not in inh[info[s][2]] for t in terms(S(s))
                            if t.children and not isinstance(t, NullScript) for f in nearest(t.children[i], info)}
    sib = {k: set() for k in ('opposed', 'associated', 'crossed', 'twin')}

    def opposed(a, b):
        return not a.empty and not b.empty and a.cardinal == b.cardinal and a.children[0] == b.children[1] and a.children[1] == b.children[0]
    for r in roots:
        ms = [s for s in of_root[r] if isinstance(S(s), MultiplicativeScript) and S(s).layer > 0]
        for a in ms:
            for b in ms:
                x, y = S(a), S(b)
                if a == b or x.cardinal != y.cardinal:
                    continue
                if 'opposed' not in inh[r] and opposed(x, y):
                    sib['opposed'].add((a, b))
                if 'associated' not in inh[r] and x.children[:2] == y.children[:2] and x.children[2] != y.children[2]:
                    sib['associated'].add((a, b))
                if 'crossed' not in inh[r] and x.layer >= 2 and opposed(x.children[0], y.children[0]) and opposed(x.children[1], y.children[1]):
                    sib['crossed'].add((a, b))
                if 'twin' not in inh[r] and x.children[0] == x.children[1] and y.children[0] == y.children[1]:
                    sib['twin'].add((a, b))
    R.update(sib)
    for k in range(6):
        R['table_%d' % k] = {(a, b) for r in roots for p in of_root[r] if info[p][1] == k
                             for a in of_root[r] if den(S(a)) <= den(S(p)) for b in of_root[r] if den(S(b)) <= den(S(p))}
    for n in ('substance', 'attribute', 'mode'):
        R['child_' + n] = {(b, a) for a, b in R['father_' + n]}
    R['contained'] = {(b, a) for a, b in R['contains']}
    return R
