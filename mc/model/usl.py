"""Reference model of USLs (polymorphemes, lexemes, words), independent of the code
under test.  Morphemes are strings, ordered by their position in MORPHS.

    PM      ('pm', (constant strings), ((group strings), multiplicity), ...)
    LEX     ('lex', flexion PM, content PM)
    WORD    ('word', ((address tuple, LEX), ...), focus address)
"""
import itertools
from functools import lru_cache

# increasing in the order of scripts: layer, emptiness, number of sequences, then sequence
MORPHS = ['E:', 'U:', 'A:', 'S:', 'B:', 'T:', 'E:U:.', 'E:A:.', "wo.", "wa.", "s.", "b.", "t.", "k.", "E:.wo.-", "E:.wa.-", "S:.A:.B:.-", "b.a.-", "E:S:.-d.u.-'", "E:B:.-d.u.-'", "E:T:.-d.u.-'", "k.a.-k.a.-'",
          "m.-B:.A:.-'"]
RANK = {m: i for i, m in enumerate(MORPHS)}
SIZE_LIMIT = 5
MAX_MULT = 3

VALENCES = ('E:S:.', 'E:T:.', 'E:B:.')
ACTANTS = ('E:.n.-', 'E:.d.-', 'E:.k.-', 'E:.t.-', 'E:.l.-', 'E:.m.-', 'E:.f.-', 'E:.s.-')
DEP, IND = 'E:A:.', 'E:U:.'
LINKS = ("E:S:.-k.u.-'", "E:T:.-k.u.-'", "E:B:.-k.u.-'",
         "E:.-s.a.-k.u.-'", "E:.-b.a.-k.u.-'", "E:.-t.a.-k.u.-'", "E:.-k.a.-k.u.-'", "E:.-m.a.-k.u.-'", "E:.-n.a.-k.u.-'",
         "E:.-d.a.-k.u.-'", "E:.-f.a.-k.u.-'", "E:.-l.a.-k.u.-'",
         "E:.-y.-k.u.-'", "E:.-o.-k.u.-'", "E:.-e.-k.u.-'", "E:.-u.-k.u.-'", "E:.-a.-k.u.-'", "E:.-i.-k.u.-'",
         "E:.-wo.-k.u.-'", "E:.-wa.-k.u.-'", "E:.-we.-k.u.-'", "E:.-wu.-k.u.-'",
         "E:.-s.u.-k.u.-'", "E:.-b.u.-k.u.-'", "E:.-t.u.-k.u.-'", "E:.-k.u.-k.u.-'", "E:.-m.u.-k.u.-'", "E:.-n.u.-k.u.-'",
         "E:.-d.u.-k.u.-'", "E:.-f.u.-k.u.-'", "E:.-l.u.-k.u.-'")
INDEXES = tuple("%s.-%s:.-'d.o.-l.o.-'," % (c, v) for c in 'jghcpx' for v in 'UA')
ADDRESSES = VALENCES + ACTANTS + (DEP, IND) + LINKS + INDEXES
ADDR_RANK = {a: i for i, a in enumerate(ADDRESSES)}


def null(m):
    return m.startswith('E') and set(m[1:]) <= set(":.-',_;")


# -- polymorphemes ----------------------------------------------------------
def pm(constant=(), groups=()):
    c = tuple(sorted((m for m in constant if not null(m)), key=RANK.get))
    g = sorted(((tuple(sorted((m for m in g if not null(m)), key=RANK.get)), n) for g, n in groups),
               key=lambda e: (tuple(map(RANK.get, e[0])), e[1]))
    return ('pm', c, tuple(g))


EMPTY_PM = pm()


def pm_empty(p):
    return not p[1] and not p[2]


def pm_str(p):
    return ' '.join(list(p[1]) + ['m%d(%s)' % (n, ' '.join(g) or 'E:') for g, n in p[2]])


def pm_valid(p, singular=lambda m: True):
    """what check() must accept"""
    c = p[1] or ('E:',)
    allm = list(c) + [m for g, _ in p[2] for m in g]
    if len(set(allm)) != len(allm):
        return False
    for g, n in p[2]:
        if g and not (1 <= n <= MAX_MULT and n <= len(g)):
            return False
    return all(singular(m) for m in allm)


def pm_morphemes(p):
    return sorted(set(p[1] or ('E:',)) | {m for g, _ in p[2] for m in g}, key=RANK.get)


@lru_cache(maxsize=100000)
def pm_ss(p):
    """the set of singular sequences: a balanced choice (the numbers taken from the groups
    differ by at most one) of at most `multiplicity` morphemes of each group, joined to the constant;
    at most five morphemes, the implied empty constant counting for one"""
    if not p[2]:
        return frozenset([p])
    const = set(p[1]) or {'E:'}
    res = set()
    per = []
    for g, n in p[2]:
        # duplicated morphemes of a group are distinct positions
        per.append([c for k in range(0, min(n, len(g)) + 1) for c in itertools.combinations(g, k)])
    for choice in itertools.product(*per):
        ks = [len(c) for c in choice]
        if max(ks) - min(ks) > 1:
            continue
        s = const | {m for c in choice for m in c}
        if 1 <= len(s) <= SIZE_LIMIT:
            res.add(pm(s))
    return frozenset(res)


# -- lexemes -----------------------------------------------------------------
def lex(f=EMPTY_PM, c=EMPTY_PM):
    return ('lex', f, c)


def lex_empty(l):
    return pm_empty(l[1]) and pm_empty(l[2])


def lex_str(l):
    _, f, c = l
    if not pm_empty(c):
        return '(%s)(%s)' % (pm_str(f), pm_str(c))
    return '(%s)' % pm_str(f)


def lex_ss(l):
    return frozenset(lex(f, c) for f in pm_ss(l[1]) for c in pm_ss(l[2]))


def lex_morphemes(l):
    return sorted(set(pm_morphemes(l[1])) | set(pm_morphemes(l[2])), key=RANK.get)


# -- words --------------------------------------------------------------------
class Bad(Exception):
    pass


def _dep(entries):
    """entries of a dependant node: [(address, lex)] -> ok or Bad"""
    if any(a and a[0] in LINKS for a, _ in entries):
        return _junction(entries, _dep)
    here = [x for a, x in entries if not a]
    if len(here) != 1:
        raise Bad('lexeme of a role')
    for a, _ in entries:
        if a and a[0] not in (DEP, IND):
            raise Bad('role')
    dep = [(a[1:], x) for a, x in entries if a and a[0] == DEP]
    ind = [(a[1:], x) for a, x in entries if a and a[0] == IND]
    if dep:
        _dep(dep)
    if ind:
        _ind(ind)


def _ind(entries):
    if len(entries) == 1 and not entries[0][0]:
        return
    _junction(entries, _ind)


def _junction(entries, ctx):
    if any(len(a) < 2 for a, _ in entries):
        raise Bad('short junction')
    if len({a[0] for a, _ in entries}) != 1 or entries[0][0][0] not in LINKS:
        raise Bad('link')
    groups = {}
    for a, x in entries:
        if a[1] not in INDEXES:
            raise Bad('index')
        groups.setdefault(INDEXES.index(a[1]), []).append((a[2:], x))
    if sorted(groups) != list(range(len(groups))):
        raise Bad('indexing')
    for g in groups.values():
        ctx(g)


def word_kind(entries):
    """'process' | 'dependant' | 'independant'; raises Bad when the entries make no word"""
    entries = [(tuple(a), x) for a, x in entries]
    if not entries or any(not a for a, _ in entries):
        raise Bad('empty')
    if any(s not in ADDR_RANK for a, _ in entries for s in a):
        raise Bad('not a role')
    firsts = [a[0] for a, _ in entries]
    nv = sum(f in VALENCES for f in firsts)
    if nv > 1:
        raise Bad('several processes')
    if nv == 1:
        actants = {}
        for a, x in entries:
            if a[0] in VALENCES:
                if len(a) != 1:
                    raise Bad('process address')
            elif a[0] in ACTANTS:
                if sum(s in ACTANTS for s in a) != 1:
                    raise Bad('two actants')
                actants.setdefault(a[0], []).append((a[1:], x))
            else:
                raise Bad('role')
        for e in actants.values():
            _dep(e)
        return 'process'
    if len(set(firsts)) != 1:
        raise Bad('several roles')
    rest = [(a[1:], x) for a, x in entries]
    if firsts[0] == DEP:
        _dep(rest)
        return 'dependant'
    if firsts[0] == IND:
        _ind(rest)
        return 'independant'
    raise Bad('unknown function')


def addr_key(a):
    return [ADDR_RANK[s] for s in a]


def word(entries, focus):
    entries = tuple(sorted(((tuple(a), x) for a, x in entries), key=lambda e: addr_key(e[0])))
    return ('word', entries, tuple(focus))


def word_str(w):
    _, entries, focus = w
    kind = word_kind(entries)
    out = []
    for a, x in entries:
        if kind == 'process':
            s = ' '.join(a)
        else:
            s = a[0] + ' ' + ' '.join(a[1:])
        out.append(('! ' if a == focus else '') + s + ' ' + lex_str(x))
    return '[' + ' > '.join(out) + ']'


def word_ss(w):
    _, entries, focus = w
    return frozenset(word(zip([a for a, _ in entries], xs), focus)
                     for xs in itertools.product(*(sorted(lex_ss(x)) for _, x in entries)))


def word_morphemes(w):
    return sorted({m for _, x in w[1] for m in lex_morphemes(x)}, key=RANK.get)


def word_class(w):
    """IEML string of the grammatical class"""
    f = w[2]
    if any(s in VALENCES for s in f):
        return 'E:.b.E:S:.-'
    if IND in f:
        return 'E:.b.E:T:.-'
    return 'E:.b.E:B:.-'


def to_str(u):
    return {'pm': pm_str, 'lex': lex_str, 'word': word_str}[u[0]](u)


def ss(u):
    return {'pm': pm_ss, 'lex': lex_ss, 'word': word_ss}[u[0]](u)


def morphemes(u):
    return {'pm': pm_morphemes, 'lex': lex_morphemes, 'word': word_morphemes}[u[0]](u)


# -- notation ------------------------------------------------------------------
class Stop(Exception):
    pass


def parse_tokens(toks):
    """reference recogniser of the notation on a token list ('(' ')' '[' ']' '!' '>' 'm<n>' 'OLD' or morphemes);
    the value of the expression: ('script', m) | pm | lex | word, or Bad"""
    toks = list(toks)
    pos = [0]
    special = {'(', ')', '[', ']', '!', '>', 'OLD', None}

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take(t=None):
        x = peek()
        if x is None or (t is not None and x != t):
            raise Bad('syntax at %d' % pos[0])
        pos[0] += 1
        return x

    def is_mult(t):
        return t is not None and t[0] == 'm' and t[1:].isdigit()

    def morph():
        if peek() in special or is_mult(peek()):
            raise Bad('syntax')
        return take()

    def is_morph():
        return peek() not in special and not is_mult(peek())

    def pmor():
        c, g = [], []
        while is_morph():
            c.append(take())
        while is_mult(peek()):
            n = int(take()[1:])
            take('(')
            ms = [morph()]
            while is_morph():
                ms.append(take())
            take(')')
            g.append((ms, n))
        if not c and not g:
            raise Bad('empty polymorpheme')
        return c, g

    def part():
        take('(')
        if peek() == ')':
            take()
            return None
        x = pmor()
        take(')')
        return x

    def lexeme():
        parts = [part()]
        while peek() == '(' and len(parts) < 3:
            parts.append(part())
        shape = tuple(p is not None for p in parts)
        ok = {(True, True, True), (False, True, True), (False, False, True), (True, True), (False, True), (True,), (False,)}
        if shape not in ok:
            raise Bad('lexeme')
        mk = lambda p: pm(*p) if p is not None else EMPTY_PM
        if len(parts) == 3:
            a, b, c = parts
            fl = (a[0] + c[0], a[1] + c[1]) if a is not None else c
            return lex(pm(*fl), mk(b))
        if len(parts) == 2:
            return lex(mk(parts[0]), mk(parts[1]))
        return lex(mk(parts[0]), EMPTY_PM)

    def poslex():
        a = []
        while is_morph():
            a.append(take())
        return tuple(a), lexeme()

    t = peek()
    if t == '[':
        take()
        if peek() == 'OLD':
            take()
        entries, focus = [], None
        while True:
            f = False
            if peek() == '!':
                take()
                f = True
            entries.append(poslex())
            if f:
                focus = entries[-1][0]
            if peek() == '>':
                take()
                continue
            break
        take(']')
        res = ('w', entries, focus)
    elif t == '(':
        res = lexeme()
    else:
        c, g = pmor()
        res = ('script', c[0]) if len(c) == 1 and not g else pm(c, g)
    if pos[0] != len(toks):
        raise Bad('trailing')
    if res[0] == 'w':
        if not res[2]:
            raise Bad('no focus')
        word_kind(res[1])
        return word(res[1], res[2])
    return res
