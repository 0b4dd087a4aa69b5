"""C07 concurrent parsing: every interleaving (within a preemption bound) of threads that
parse and compute gives each thread the result it gets alone."""
import itertools
import os
import time
import ieml
import ply
from mc import sched
from mc.core import parallel, guard, THOROUGH

LEVEL = 'model_checking'

REPO = os.path.dirname(os.path.abspath(ieml.__file__)) + '/'
PLY = os.path.dirname(os.path.abspath(ply.__file__)) + '/'


def show(x):
    if isinstance(x, (list, tuple)):
        return [show(y) for y in x]
    return str(x)


def facts(x):
    return [str(x), x.cardinal, show(x.singular_sequences)]


def script_(s):
    def f():
        from ieml.dictionary.script.operator import script
        return facts(script(s))
    return f


def compute(s, how):
    def f():
        from ieml.dictionary.script.operator import script
        x = script(s)
        if how == 'cells':
            return [[show(list(c.flat)) for c in x.cells], show(x.tables_script), show([h for t in x.headers for d in t for h in d])]
        return facts(x)
    return f


def setup_plain():
    from ieml.dictionary.script.operator import script
    script('S:')


SHARED = {}


def setup_usl():
    from ieml.usl.parser import IEMLParser
    from ieml.usl.decoration.parser.parser import PathParser
    setup_plain()
    if 'P' not in SHARED:
        SHARED['P'] = IEMLParser()
        SHARED['Q'] = PathParser()


def usl_shared(s, **k):
    def f():
        x = SHARED['P'].parse(s, **k)
        return [str(x), type(x).__name__, show(x.singular_sequences)]
    return f


def path_shared(s):
    def f():
        return str(SHARED['Q'].parse(s))
    return f


def usl_fresh(s):
    def f():
        from ieml.usl.usl import usl
        x = usl(s)
        return [str(x), type(x).__name__]
    return f


WORD = "[! E:S:. (E:.wa.-)(b.-) > E:.n.- (s.)]"
# name, setup, bodies, traced files, events, preemption bound quick/thorough
PARS = (REPO + 'dictionary/script/parser/', REPO + 'dictionary/script/operator.py', REPO + 'commons.py')
UPARS = (REPO + 'usl/parser/', REPO + 'usl/decoration/parser/', REPO + 'usl/usl.py')
SCENARIOS = [
    ('two scripts', setup_plain, [script_('s.'), script_("b.")], (REPO, PLY), ('line',), 1, 1),
    ('two scripts, parser points', setup_plain, [script_("wa.b.-"), script_('O:S:.')], PARS, ('call',), 2, 3),
    ('two scripts, all library lines', setup_plain, [script_("s.+b."), script_('O:S:.')], (REPO,), ('line',), 1, 1),
    ('same script twice', setup_plain, [script_("O:S:."), script_("O:S:.")], PARS, ('call',), 2, 3),
    ('script against an ill-formed one', setup_plain, [script_("b."), script_('S:.+')], (REPO, PLY), ('line',), 1, 1),
    ('script against one over the limit', setup_plain, [script_("b."), script_('I:I:I:.I:.-')], (REPO,), ('call',), 1, 2),
    ('lazy computations on one object', setup_plain, [compute('O:S:+B:.', 'cells'), compute('O:S:+B:.', 'seq')], (REPO,), ('call',), 1, 2),
    ('three scripts', setup_plain, [script_('s.'), script_('b.'), script_('S:+')], PARS, ('call',), 2, 3),
    ('one parser, two expressions', setup_usl, [usl_shared("s. m1(b. k.)"), usl_shared("(E:.wa.-)(b.-)")], UPARS, ('line',), 1, 2),
    ('one parser, word against an ill-formed one', setup_usl, [usl_shared(WORD), usl_shared("(s.")], UPARS, ('line',), 1, 2),
    ('one parser, factorised and not', setup_usl, [usl_shared("s.+b.", factorize_script=True), usl_shared("s.+k.+t.+b.")], UPARS, ('line',), 2, 2),
    ('path parser', setup_usl, [path_shared(">constant>s."), path_shared(">role>E:S:.>content>constant>b.")], (REPO, PLY), ('line',), 1, 1),
    ('path parser, library points', setup_usl, [path_shared(">constant>s."), path_shared(">role>E:S:.>content>constant>b.")], UPARS, ('line',), 2, 2),
    ('independent parsers', setup_usl, [usl_fresh("s. m1(b. k.)"), usl_fresh(WORD)], UPARS, ('call',), 1, 2),
]


def make(sc):
    name, setup, bodies, files, events, bq, bt = sc

    def mk():
        return list(bodies), (lambda: [guard(b) for b in bodies])
    return mk


def explore(chunk, r):
    """one first preemption: all its extensions up to the bound, depth first"""
    for si, first, prefix, bound, base in chunk:
        sc = SCENARIOS[si]
        stack = [prefix]
        while stack:
            plan = stack.pop()
            st, out = sched.run_schedule(make(sc), plan, first, sc[3], sc[4])
            r.count('traces')
            key = '%s first=%d plan=%s' % (sc[0], first, sorted(plan.items()))
            if st != 'ok':
                r.violate(key, 'the run ends with %s' % out, [sc[0], first, sorted(plan.items())])
                continue
            res, err, steps, after, trace = out
            r.count('transitions', steps)
            if err:
                r.violate(key, err, [sc[0], first, sorted(plan.items())])
                continue
            for i, (got, want) in enumerate(zip(res, base)):
                r.require(got == want, key, 'thread %d gets %s instead of %s' % (i, got, want), [sc[0], first, sorted(plan.items())])
            r.require(after == base, key, 'parsing again afterwards gives other results', [sc[0], first, sorted(plan.items())])
            if len(plan) < bound:
                last = max(plan) if plan else -1
                for k in range(last + 1, steps):
                    for t in range(len(base)):
                        if t != trace[k]:
                            stack.append({**plan, k: t})


def run(ctx):
    # third-party modules first: only the locks of the code under test are replaced
    import numpy, pandas, scipy.sparse, scipy.sparse.csgraph, pygit2, tqdm, bidict, concurrent.futures.thread, ply.yacc, ply.lex
    sched.install()
    setup_usl()
    sched.uninstall()
    for si, sc in enumerate(SCENARIOS):
        sc[1]()
        base = [sched.forked(lambda b=b: guard(b)) for b in sc[2]]
        base = [b[1] for b in base]
        bound = sc[6] if THOROUGH else sc[5]
        tasks = []
        for first in range(len(base)):
            st, out = sched.run_schedule(make(sc), {}, first, sc[3], sc[4])
            if st != 'ok':
                ctx.violate(sc[0], 'sequential run fails: %s' % out, sc[0])
                continue
            res, err, steps, after, trace = out
            ctx.count('traces')
            ctx.count('transitions', steps)
            ctx.require(not err and res == base and after == base, sc[0], 'sequential composition differs: %s' % (res,), sc[0])
            for k in range(steps):
                for t in range(len(base)):
                    if t != trace[k]:
                        tasks.append((si, first, {k: t}, bound, base))
        n0 = ctx.counts['traces']
        t0 = time.time()
        parallel(ctx, explore, tasks, chunk=4)
        ctx.count('states', len(tasks))
        ctx.extra.setdefault('schedules', {})[sc[0]] = {'preemption bound': bound, 'schedules': ctx.counts['traces'] - n0,
                                                      'yield points': len(tasks), 'seconds': round(time.time() - t0, 1)}
    ctx.sample({'scenarios': [s[0] for s in SCENARIOS]})
    ctx.bounds = {'threads': '2-3', 'preemptions': 'see schedules', 'yield points': 'lines or calls of the traced files, lock operations'}
    ctx.assumptions = ['switches happen at line/call events of the traced files and at lock operations; C code runs atomically (GIL)']
