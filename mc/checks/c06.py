"""C06 acceptance: exactly the well-formed scripts are accepted, the limits hold, and no
history of calls (accepted, rejected or computing) changes what later calls return."""
import itertools
import os
from mc.core import parallel, guard, THOROUGH, Violation
from mc.model import script as M
from mc import universe as U

ALPHABETS = [
    # (tokens, max length quick, max length thorough)
    (['S:', 'E:', 'O:', 'wa', '.', '-', '+', 'y'], 6, 7),
    (['s.', 'E:.', 'M:.', '-', "'", '+', ','], 6, 7),
    (["s.-", "E:.-'", "'", ',', '_', '+'], 6, 8),
    (["s.-',", "s.-',_", '_', ';', ',', '+'], 6, 7),
    (['U', 'F', 'we', 'l', 'E', ':', '.', '+'], 6, 7),
]


def strings(chunk, r):
    from ieml.dictionary.script.operator import script
    from ieml.exceptions import CannotParse
    for s in chunk:
        r.count('transitions')
        try:
            e = M.parse(s)
        except M.SyntaxErr:
            e = None
        except OverflowError:
            continue
        try:
            x = script(s)
            ok = True
        except CannotParse:
            ok = False
        except Exception as err:
            r.violate('string ' + s, 'raises %s instead of a parse error' % type(err).__name__, s)
            continue
        if e is None:
            r.require(not ok, 'string ' + s, 'ill-formed script accepted as %s' % (x if ok else ''), s)
        else:
            r.count('accepted')
            if r.require(ok and x is not None, 'string ' + s, 'well-formed script rejected', s):
                r.require({str(q) for q in x.singular_sequences} == M.den_strs(e), 'string ' + s, 'parsed as %s' % x, s)


def expand(task, r):
    ai, prefix, rest = task[0]
    toks = ALPHABETS[ai][0]
    strings([''.join(prefix + c) for c in itertools.product(toks, repeat=rest)], r)


def limits(ctx):
    from ieml.dictionary.script.operator import script, m, add
    from ieml.exceptions import TooManySingularSequences
    x = {n: script(s) for n, s in (('1', 'S:.'), ('6', 'O:M:.'), ('36', 'I:I:.'), ('216', 'I:I:I:.'), ('60', 'O:F:I:.'),
                                   ('10', 'O:F:.'), ('5', 'F:.'), ('2', 'O:.'), ('12', 'O:I:.'), ('3', 'M:.'), ('30', 'F:I:.'))}
    names = sorted(x)
    for a, b, c in itertools.product(names, repeat=3):
        n = int(a) * int(b) * int(c)
        sp = '%s%s%s-' % (x[a], x[b], x[c])
        for how, f in (('m', lambda: m(x[a], x[b], x[c])), ('parse', lambda: script(sp))):
            st, v = guard(f)
            ctx.count('transitions')
            if n > 360:
                ctx.require(st == 'err', 'limit %s %s' % (how, sp), 'a script of %d singular sequences is accepted' % n, sp)
                ctx.require(st == 'ok' or v == 'TooManySingularSequences', 'limit %s %s' % (how, sp), 'raises %s' % v, sp)
            else:
                ctx.require(st == 'ok' and v.cardinal == n, 'limit %s %s' % (how, sp),
                            'a script of %d singular sequences gives %s' % (n, v), sp)
    # additions
    base = [M.parse('%sE:.%s-' % (p, q)) for p in ('I:I:I:.', 'I:I:.', 'F:F:F:.', 'F:O:I:.') for q in ('S:.', 'B:.')]
    for k in (1, 2, 3):
        for c in itertools.combinations(base, k):
            want = len(M.den(('+', c)))
            sp = M.spell(('+', c))
            for how, f in (('add', lambda: add([script(M.spell(e)) for e in c])), ('parse', lambda: script(sp))):
                st, v = guard(f)
                ctx.count('transitions')
                if want > 360:
                    ctx.require(st == 'err', 'limit %s %s' % (how, sp), '%d singular sequences accepted' % want, sp)
                else:
                    ctx.require(st == 'ok' and v.cardinal == want, 'limit %s %s' % (how, sp), 'gives %s' % (v,), sp)
    # layers: products need operands of one layer, sums of one layer, none beyond layer six
    per = [script('E' + M.MARKS[:l + 1]) for l in range(7)]
    nn = [script('S' + M.MARKS[:l + 1]) for l in range(7)]
    pool = [(l, s) for l in range(7) for s in (per[l], nn[l])]
    for (la, a), (lb, b), (lc, c) in itertools.product(pool, repeat=3):
        st, v = guard(m, a, b, c)
        ctx.count('transitions')
        good = la == lb == lc and la < 6
        ctx.require((st == 'ok') == good, 'layers %s %s %s' % (a, b, c), 'm() gives %s' % (v,), [str(a), str(b), str(c)])
        if st == 'ok':
            ctx.require(v.layer == la + 1, 'layers %s %s %s' % (a, b, c), 'layer %s' % v.layer, None)
    for (la, a), (lb, b) in itertools.product(pool, repeat=2):
        ctx.count('transitions')
        st, v = guard(lambda: a + b)
        ctx.require((st == 'ok') == (la == lb), 'layers %s+%s' % (a, b), '+ gives %s' % (v,), [str(a), str(b)])
    for bad in (None, 3, 3.5, [], object(), b'S:'):
        ctx.require(guard(script, bad)[0] == 'err', 'type %r' % (bad,), 'accepted as a script', repr(bad))


# -- histories ---------------------------------------------------------------

PROBES = ['S:.', 'O:M:.', "wa.b.-", 'E:.', 'I:', 's.+b.+S:S:S:.', "O:M:.E:.S:+B:.-", "E:.-'O:O:.-M:.-'t.o.-',", 'M:.+S:.', "E:S:.j.-'M:O:.-O:.-',"]
BADS = ['S:+', 'S:.B:', '', 'S', '+S:.', 'O:M:.s.']


def probe():
    from ieml.dictionary.script.operator import script
    out = []
    for s in PROBES:
        x = script(s)
        out.append((str(x), x.cardinal, x.layer, x.script_class, tuple(map(str, x.singular_sequences)),
                    tuple(tuple(map(str, c.flat)) for c in x.cells), tuple(map(str, x.tables_script)),
                    tuple(str(h) for t in x.headers for d in t for h in d), tuple(map(str, x))))
    for s in BADS:
        out.append(guard(script, s))
    return out


def op_list():
    from ieml.dictionary.script.operator import script, m, add
    from ieml.dictionary.script.tools import factorize, promote
    import pickle
    S = script
    return [
        ('parse ok', lambda: S('O:M:.')),
        ('parse bad', lambda: guard(S, 'O:M:.+')),
        ('parse bad 2', lambda: guard(S, "wa.b.-'+S:.")),
        ('too many', lambda: guard(S, 'I:I:I:.I:.-')),
        ('mixed layers', lambda: guard(m, S('S:'), S('S:.'))),
        ('sequences', lambda: [q.singular_sequences for q in S('O:M:.').singular_sequences]),
        ('tables', lambda: (S('O:M:.').cells, S("O:M:.E:.S:+B:.-").headers)),
        ('add', lambda: add([S('O:M:.'), S('s.'), S('M:.')])),
        ('add nested', lambda: add([add([S('s.'), S('b.')]), S('S:S:S:.'), S('s.')])),
        ('multiply', lambda: m(S('O:M:.'), S('E:.'), add([S('S:.'), S('B:.')]))),
        ('multiply sum', lambda: m(add([S('S:.')]), add([S('s.'), S('b.')]))),
        ('factorize', lambda: factorize([S('s.'), S('b.'), S('O:M:.')])),
        ('factorize script', lambda: S('M:.+S:.', factorize=True)),
        ('promote', lambda: promote(S('S:.'), 4)),
        ('plus', lambda: S('I:') + S('S:')),
        ('plus sum', lambda: S('s.+b.+S:S:S:.') + S('S:.')),
        ('pickle', lambda: pickle.loads(pickle.dumps(S("wa.b.-")))),
        ('contains', lambda: S('s.') in S('O:M:.')),
        ('sort', lambda: sorted(S(p) for p in PROBES)),
        ('fill cache', lambda: [guard(S, a + b + c + '.') for a in U_ for b in U_ for c in U_]),
    ]


U_ = [c + ':' for c in 'EUASBT']
BASE = []


def histories(chunk, r):
    ops = op_list()
    for h in chunk:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                for i in h:
                    ops[i][1]()
                code = 0 if probe() == BASE[0] else 1
            except BaseException:
                code = 2
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        r.count('traces')
        r.count('transitions', len(h))
        names = [ops[i][0] for i in h]
        r.require(os.waitstatus_to_exitcode(st) == 0, 'history ' + ' / '.join(names),
                  'after this history the observations differ from those of a fresh process', names)
        r.sample({'history': names})


def in_child(f):
    """result of f in a process of its own: the caller's caches stay as they are"""
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            with os.fdopen(wr, 'wb') as fp:
                pickle.dump(guard(f), fp)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as fp:
        st, v = pickle.load(fp)
    os.waitpid(pid, 0)
    if st != 'ok':
        raise Violation('probe', 'the probes raise %s' % v)
    return v


def run(ctx):
    from ieml.dictionary.script.operator import script
    script('S:')
    BASE.append(in_child(probe))
    n = len(op_list())
    depth = 3
    hs = [h for k in range(1, depth + 1) for h in itertools.product(range(n), repeat=k)]
    if THOROUGH:
        hs += list(itertools.product(range(0, n, 2), repeat=4))
    parallel(ctx, histories, hs, chunk=10)
    tasks = []
    for ai, (toks, nq, nt) in enumerate(ALPHABETS):
        n = nt if THOROUGH else nq
        for k in range(1, n + 1):
            p = max(0, k - 4)
            for prefix in itertools.product(toks, repeat=p):
                tasks.append((ai, prefix, k - p))
    parallel(ctx, expand, tasks, chunk=1)
    limits(ctx)
    ctx.count('states', ctx.counts['accepted'])
    ctx.bounds = {'token alphabets': [(a[0], a[2] if THOROUGH else a[1]) for a in ALPHABETS], 'history depth': depth, 'operations': n}
