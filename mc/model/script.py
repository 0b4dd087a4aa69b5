"""Reference model of scripts, independent of the code under test.

A model expression (AST) is
    ('p', c)              layer 0 primitive, c in EUASBT
    ('n', l)              the empty script of layer l >= 1
    ('m', a, b, c)        product of three expressions of the same layer
    ('+', (e1, ..., en))  sum of expressions of the same layer
Its meaning is a frozenset of singular sequences; a singular sequence is a
primitive character (layer 0) or a triple of singular sequences."""
import itertools
from functools import lru_cache

MARKS = ":.-',_;"
PRIMS = 'EUASBT'
RADD = {'O': 'UA', 'M': 'SBT', 'F': 'UASBT', 'I': 'EUASBT'}
RMUL = {}
for _r, _row in zip('UASBT', ('wo wa y o e', 'wu we u a i', 'j g s b t', 'h c k m n', 'p x d f l')):
    for _c, _n in zip('UASBT', _row.split()):
        RMUL[(_r, _c)] = _n
RMUL_INV = {v: k for k, v in RMUL.items()}


@lru_cache(None)
def null(l):
    return 'E' if l == 0 else (null(l - 1),) * 3


@lru_cache(None)
def seq_layer(s):
    return 0 if isinstance(s, str) else 1 + seq_layer(s[0])


@lru_cache(None)
def seq_str(s):
    """canonical string of a singular sequence"""
    l = seq_layer(s)
    if l == 0:
        return s + ':'
    if s == null(l):
        return 'E' + MARKS[:l + 1]
    if l == 1 and s[2] == 'E' and (s[0], s[1]) in RMUL:
        return RMUL[(s[0], s[1])] + '.'
    k = list(s)
    while len(k) > 1 and k[-1] == null(l - 1):
        k.pop()
    return ''.join(map(seq_str, k)) + MARKS[l]


@lru_cache(None)
def layer(e):
    if e[0] == 'p':
        return 0
    if e[0] == 'n':
        return e[1]
    if e[0] == 'm':
        return 1 + layer(e[1])
    return layer(e[1][0])


@lru_cache(200000)
def den(e):
    if e[0] == 'p':
        return frozenset((e[1],))
    if e[0] == 'n':
        return frozenset((null(e[1]),))
    if e[0] == 'm':
        return frozenset(itertools.product(den(e[1]), den(e[2]), den(e[3])))
    return frozenset(itertools.chain.from_iterable(map(den, e[1])))


def den_strs(e):
    return frozenset(map(seq_str, den(e)))


def mk(a, b=None, c=None):
    l = layer(a)
    z = ('p', 'E') if l == 0 else ('n', l)
    return ('m', a, b if b is not None else z, c if c is not None else z)


def add(*es):
    return ('+', tuple(es))


AUX, VERB, NOUN = 0, 1, 2


@lru_cache(None)
def script_class(e):
    """class of a script: the one of the primitive for layer 0, of its substance for
    a product, the greatest one for a sum"""
    if e[0] == 'p':
        return AUX if e[1] == 'E' else VERB if e[1] in 'UA' else NOUN
    if e[0] == 'n':
        return AUX
    if e[0] == 'm':
        return script_class(e[1])
    return max(map(script_class, e[1]))


def is_empty(e):
    return den(e) == frozenset((null(layer(e)),))


def spell(e):
    """one plain spelling: every product with its three operands, no abbreviation"""
    if e[0] == 'p':
        return e[1] + ':'
    if e[0] == 'n':
        return 'E' + MARKS[:e[1] + 1]
    if e[0] == 'm':
        return ''.join(map(spell, e[1:])) + MARKS[layer(e)]
    return '+'.join(map(spell, e[1]))


def spread(seq, cap):
    """all of seq when it is small, else cap evenly spaced ones including both ends"""
    seq = list(seq)
    n = len(seq)
    if n <= cap:
        return seq
    return [seq[i * (n - 1) // (cap - 1)] for i in range(cap)]


def _products(lists, cap):
    """the product of lists; when larger than cap, cap evenly spaced members of it"""
    n = 1
    for l in lists:
        n *= len(l)
    idx = range(n) if n <= cap else [i * (n - 1) // (cap - 1) for i in range(cap)]
    for i in idx:
        out = []
        for l in lists:
            i, k = divmod(i, len(l))
            out.append(l[k])
        yield out


def spellings(e, cap, sub=8):
    """the spellings of an expression: sums permuted and with doubled terms, remarkable
    abbreviations used or not, trailing empty operands kept or dropped.  All of them when
    there are at most cap, an evenly spaced selection otherwise."""
    if e[0] == 'p':
        return [e[1] + ':']
    out = []
    if e[0] == 'n':
        z = spell(('n', e[1] - 1) if e[1] > 1 else ('p', 'E'))
        return ['E' + MARKS[:e[1] + 1]] + [z * k + MARKS[e[1]] for k in (1, 2, 3)]
    l = layer(e)
    if e[0] == 'm':
        if l == 1 and e[1][0] == 'p' and e[2][0] == 'p' and e[3] == ('p', 'E') \
                and (e[1][1], e[2][1]) in RMUL:
            out.append(RMUL[(e[1][1], e[2][1])] + '.')
        n = 3
        subs = [spellings(x, sub, sub) for x in e[1:]]
        while True:
            out += [''.join(p) + MARKS[l] for p in _products(subs[:n], cap)]
            if n > 1 and is_empty(e[n]):
                n -= 1
            else:
                break
    else:
        if l == 0:
            s = set(''.join(den(e)))
            for k, v in RADD.items():
                if s == set(v):
                    out.append(k + ':')
        subs = {x: spellings(x, sub, sub) for x in e[1]}
        perms = list(itertools.permutations(e[1]))
        for perm in perms:
            per = max(2, cap // len(perms))
            for p in _products([subs[x] for x in perm], per):
                out.append('+'.join(p))
                out.append('+'.join(p + p[:1]))
    return spread(dict.fromkeys(out), cap)


# -- independent parser of script strings -----------------------------------

class SyntaxErr(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c in ' \t\n':
            i += 1
        elif c == 'w' and s[i:i + 2] in RMUL_INV:
            out.append(('r', s[i:i + 2]))
            i += 2
        elif c in PRIMS:
            out.append(('p', c))
            i += 1
        elif c in RADD:
            out.append(('a', c))
            i += 1
        elif c in RMUL_INV:
            out.append(('r', c))
            i += 1
        elif c == '+':
            out.append(('+', c))
            i += 1
        elif c == '’':
            out.append(('l', 3))
            i += 1
        elif c in MARKS:
            out.append(('l', MARKS.index(c)))
            i += 1
        else:
            raise SyntaxErr('illegal %r' % c)
    return out


def parse(s):
    """AST of a script string, or SyntaxErr.  Deterministic stack parser: the grammar
    is  sum_l := script_l ('+' script_l)* ;  script_l := sum_{l-1}{1,3} mark_l ."""
    toks = tokenize(s)
    # stack of ('S', ast) complete scripts, and '+'
    st = []
    i = 0

    def reduce_sums(items):
        """items: flat list of asts and '+' of one layer -> list of sums"""
        res = []
        cur = None
        expect = True
        for it in items:
            if it == '+':
                if cur is None or expect:
                    raise SyntaxErr('+')
                expect = True
            else:
                if cur is not None and expect:
                    cur.append(it)
                    expect = False
                else:
                    if cur is not None:
                        res.append(cur)
                    cur = [it]
                    expect = False
        if expect or cur is None:
            raise SyntaxErr('sum')
        res.append(cur)
        return [c[0] if len(c) == 1 else ('+', tuple(c)) for c in res]

    while i < len(toks):
        k, v = toks[i]
        if k in 'pa':
            if i + 1 >= len(toks) or toks[i + 1] != ('l', 0):
                raise SyntaxErr('mark')
            i += 2
            st.append(('p', v) if k == 'p' else ('+', tuple(('p', c) for c in RADD[v])))
            continue
        if k == 'r':
            if i + 1 >= len(toks) or toks[i + 1] != ('l', 1):
                raise SyntaxErr('mark')
            i += 2
            a, b = RMUL_INV[v]
            st.append(('m', ('p', a), ('p', b), ('p', 'E')))
            continue
        if k == '+':
            st.append('+')
            i += 1
            continue
        # layer mark v: pop the operands of layer v-1
        if v == 0:
            raise SyntaxErr('mark 0')
        j = len(st)
        while j > 0 and (st[j - 1] == '+' or layer(st[j - 1]) == v - 1):
            j -= 1
        # a '+' at position j would join with an expression of another layer
        items = st[j:]
        # leading '+' belongs to the enclosing sum
        while items and items[0] == '+':
            items = items[1:]
            j += 1
        if not items:
            raise SyntaxErr('no operand')
        ops = reduce_sums(items)
        if len(ops) > 3:
            # keep only the last three?  the grammar cannot split: reject
            raise SyntaxErr('too many operands')
        st[j:] = [mk(*ops)]
        i += 1
    if not st:
        raise SyntaxErr('empty')
    ls = {layer(x) for x in st if x != '+'}
    if len(ls) != 1:
        raise SyntaxErr('layers')
    ops = reduce_sums(st)
    if len(ops) != 1:
        raise SyntaxErr('juxtaposition')
    return ops[0]
