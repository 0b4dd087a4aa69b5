"""C24 an answer depends only on the object that is asked, not on what was or is being asked of it or of others."""
import os
import ieml
from mc.core import parallel, guard, THOROUGH
from mc import sched

REPO = os.path.dirname(os.path.abspath(ieml.__file__)) + '/'


def show(x, depth=0):
    """the content of an answer, whatever the objects that hold it"""
    import numpy
    import pandas
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, pandas.DataFrame):
        return [list(map(str, x.columns)), show(x.values.tolist())]
    if isinstance(x, numpy.ndarray):
        return ['array', list(x.shape), [show(y) for y in x.flat]]
    if isinstance(x, (list, tuple)):
        return [show(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted(map(str, map(show, x)))
    if isinstance(x, dict):
        return ['dict'] + sorted(str((show(k), show(v))) for k, v in x.items())
    from ieml.dictionary.table.table import Table
    if isinstance(x, Table):
        return ['table', str(x.script), x.rank, x.parent and str(x.parent.script)]
    return [type(x).__name__, str(x)]


# -- families: objects that share parts, and the questions --------------------------------------
def pickled(x):
    import pickle
    return pickle.loads(pickle.dumps(x, protocol=4))


SCRIPT_Q = {
    'len': len, 'singular_sequences': lambda x: list(x.singular_sequences), 'set': lambda x: set(x.singular_sequences_set),
    'cells': lambda x: list(x.cells), 'headers': lambda x: [[list(d) for d in h] for h in x.headers], 'tables_script': lambda x: list(x.tables_script),
    'pickle': lambda x: (lambda p: [p, p == x, hash(p) == hash(x), list(p.singular_sequences)])(pickled(x)),
    'literals': lambda x: [y.get_literal() for y in x.singular_sequences],
    'class': lambda x: [int(x.script_class), str(x.grammatical_class), x.layer, x.cardinal, x.empty, x.is_singular, x.paradigm],
}


def scripts(names):
    def setup():
        from ieml.dictionary.script import script
        return {n: script(n) for n in names}

    few = ('singular_sequences', 'cells', 'pickle')
    ops = [('%s %s' % (q, n), lambda e, n=n, f=f: f(e[n])) for n in names for q, f in SCRIPT_Q.items() if n in names[:1 + THOROUGH] or q in few]

    def two(label, f):
        for a in names:
            for b in names:
                if a != b and (THOROUGH or names[0] in (a, b)):
                    ops.append(('%s %s %s' % (label, a, b), lambda e, a=a, b=b: f(e[a], e[b])))
    two('in', lambda x, y: [x in y, x < y, x == y])

    def fact(e):
        from ieml.dictionary.script.tools import factorize
        return factorize([s for n in names[:2] for s in e[n].singular_sequences])
    ops.append(('factorize', fact))
    ops.append(('sorted', lambda e: sorted([s for n in names for s in e[n].singular_sequences] + list(e.values()))))

    def built(e):
        from ieml.dictionary.script import script, m
        from ieml.dictionary.script.operator import add
        a, b = [e[n] for n in names[:2]]
        return [m(a, b) if a.layer == b.layer else None, add([a, b]) if a.layer == b.layer else None, script(str(a)), script(names[0] if names[0][-1] != '+' else 'a.')]
    ops.append(('built', built))
    ops.append(('refused', lambda e: guard(__import__('ieml.dictionary.script', fromlist=['script']).script, 'S:+')))
    return setup, ops


USL_Q = {
    'str': str, 'len': len, 'singular_sequences': lambda x: list(x.singular_sequences), 'set': lambda x: sorted(map(str, x.singular_sequences_set)),
    'morphemes': lambda x: sorted(map(str, x.morphemes)),
    'paths': lambda x: [[str(p), str(v)] for p, v in x.iter_structure_path()],
    'flexion paths': lambda x: [[str(p), str(v)] for p, v in x.iter_structure_path(flexion=True)],
    'by script': lambda x: [[str(p), str(v)] for p, v in x.iter_structure_path_by_script_ss()],
    'check': lambda x: x.check(),
    'literals': lambda x: [[str(p), v.get_literal()] for p, v in x.iter_structure_path(flexion=True)],
    'class': lambda x: [str(x.grammatical_class), x.empty, x.is_singular],
    'pickle': lambda x: (lambda p: [str(p), p == x, hash(p) == hash(x), len(p)])(pickled(x)),
}


def usls(names, decorated, tables=()):
    """names and decorated ones: the latter are parsed again by each question"""
    def setup():
        from ieml.usl.usl import usl
        e = {n: usl(n) for n in names}
        for n in decorated:
            e[n] = usl(n)
        return e
    ops = [('%s %s' % (q, n), lambda e, n=n, f=f: f(e[n])) for n in list(names) + list(decorated) for q, f in USL_Q.items()
           if (n in names[:1 + THOROUGH] or q in ('singular_sequences', 'paths', 'pickle', 'check')) and (n in names or q not in ('literals', 'flexion paths', 'by script'))]

    def parse(n):
        def f(e):
            from ieml.usl.usl import usl
            u = usl(n)
            return [str(u), type(u).__name__, [str(s) for s in u.singular_sequences]]
        return f
    ops += [('parse %s' % n, parse(n)) for n in list(names) + list(decorated) + ['a. [>constant>b. "x"]']]

    def rebuild(n):
        def f(e):
            from ieml.usl.decoration.path import usl_from_path_values
            return str(usl_from_path_values(list(e[n].iter_structure_path_by_script_ss())))
        return f
    ops += [('rebuild %s' % n, rebuild(n)) for n in names]

    def table(n, col):
        def f(e):
            from ieml.usl.decoration.path import path
            from ieml.usl.table import UslTable2D
            t = UslTable2D(e[n], columns=path(col))
            return [[str(x) for x in t.columns], [str(x) for x in t.rows], [[str(y) for y in x] for x in t.cells]]
        return f
    ops += [('table %s %s' % (n, c), table(n, c)) for n, c in tables]
    some = [n for n in names if ' ' in n or '(' in n]
    ops.append(('sorted', lambda e: [str(x) for x in sorted([s for n in some for s in e[n].singular_sequences] + [e[n] for n in some])]))
    ops.append(('in', lambda e: [[e[a] in e[b], e[a] == e[b], e[a] < e[b]] for a in some for b in some]))
    return setup, ops


def dictionary(rows, paradigms):
    def setup():
        from mc.checks.c16 import make
        from ieml.dictionary.script import script
        d = make(list(paradigms), rows)
        from ieml.dictionary.relation.relations import RelationsGraph
        return {'d': d, 's': [script(x) for x in list(paradigms) + [str(d.scripts[1])]]}
    ops = []

    def q(name, f):
        ops.append((name, f))
    q('scripts', lambda e: e['d'].scripts)
    q('len', lambda e: len(e['d']))
    q('roots', lambda e: {str(r): sorted(str(t.script) for t in v) for r, v in e['d'].tables.roots.items()})
    q('roots_idx', lambda e: list(map(bool, e['d'].roots_idx)))
    q('in', lambda e: ['l.l.-' in e['d'], [s in e['d'] for s in e['s']]])
    q('matrix', lambda e: e['d'].relations.boolean_matrix.tolist())
    q('pandas', lambda e: e['d'].relations.pandas())
    q('pickle', lambda e: (lambda p: [p.scripts, p.relations.pandas(), [p.tables[s] for s in p.scripts]])(pickled(e['d'])))
    for i in range(len(paradigms) + 1):
        q('table %d' % i, lambda e, i=i: e['d'].tables[e['s'][i]])
        q('children %d' % i, lambda e, i=i: sorted(str(t.script) for t in e['d'].tables.children(e['d'].tables[e['s'][i]])))
        q('root %d' % i, lambda e, i=i: e['d'].tables.root(e['s'][i]))
        q('relations %d' % i, lambda e, i=i: {k: list(map(str, v)) for k, v in e['d'].relations.relation_object(e['s'][i]).items()})
        q('cells %d' % i, lambda e, i=i: list(e['s'][i].cells))
        q('singular %d' % i, lambda e, i=i: list(e['s'][i].singular_sequences))
    q('relation', lambda e: [e['d'].relations.relation(a, b) for a in e['s'] for b in e['s']])
    return setup, ops


def builds(names, rows):
    """the scripts, and the dictionaries built from them"""
    def setup():
        from ieml.dictionary.script import script
        return {n: script(n, factorize=False) for n in names}

    ops = [('%s %s' % (q, n), lambda e, n=n, f=SCRIPT_Q[q]: f(e[n])) for n in names for q in ('singular_sequences', 'set', 'cells', 'class')]
    ops.append(('in', lambda e: [[e[a] in e[b], e[a] < e[b]] for a in names for b in names]))

    def build(roots, extra):
        def f(e):
            from mc.checks.c16 import make
            d = make(list(names), [(r, 'is_root', 'True') for r in roots] + list(extra))
            return [d.scripts, {str(r): sorted(str(t.script) for t in v) for r, v in d.tables.roots.items()}, d.relations.pandas(), [d.tables[s] for s in d.scripts]]
        return f
    ops += [('build %s' % ' '.join(map(str, r + x)), build(r, x)) for r, x in rows]
    return setup, ops


W1 = '[! E:A:. (E:.wa.-)(b. m1(S: T:)) > E:A:. E:A:. ()(a. m1(y. e.))]'
W2 = '[E:S:. (E:.wo.-)(a. m1(y. e.)) > ! E:.n.- ()(b. m1(S: T:))]'
FAMILIES = {
    'layer 1': scripts(['O:M:.', 'O:M:.+M:O:.', 'y.', 'U:M:.', 'I:']),
    'layer 2': scripts(['O:M:.O:S:+B:.-', 'O:M:.', 'O:M:.y.-', 'y.y.-', 'E:.-']),
    'overlapping sums': scripts(['M:.+S:.', 'S:.+B:.', 'O:S:+T:.+O:B:.', 'S:.']),
    'towers': scripts(["O:M:.-O:S:.-'", 'O:M:.-', "y.-a.-'", "E:.-'"]),
    'polymorphemes': usls(['a. m1(y. e.)', 'a.', 'y. e.', 'b. a. m1(y. e.) m2(S: T: wo.)'], ['a. m1(y. e.) [>constant>a. "x"]', 'a. [>constant>a. "z"]'],
                          [('b. a. m1(y. e.) m2(S: T: wo.)', '>group_0 1'), ('a. m1(y. e.)', '>group_0 1')]),
    'lexemes': usls(['(m1(E:.wo.- E:.wa.-))(a. m1(y. e.))', '()(a. m1(y. e.))', 'a. m1(y. e.)'], ['()(a. m1(y. e.)) [>content>constant>a. "x"]'],
                    [('(m1(E:.wo.- E:.wa.-))(a. m1(y. e.))', '>content')]),
    'words': usls([W1, W2, '()(a. m1(y. e.))'], [W2 + ' [>role>! E:.n.->content>constant>b. "x"]', '()(a.) [>content>constant>a. "z"]'], [(W1, '>role>E:A:. E:A:.>content')]),
    'dictionary': dictionary([('O:M:.', 'is_root', 'True'), ('O:O:.', 'is_root', 'True'), ('O:O:.', 'inhibition', 'twin')], ('O:M:.', 'O:S:.', 'U:M:.', 'O:O:.', 'O:S:+B:.')),
    'dictionaries of the same scripts': builds(('O:M:.', 'M:O:.', 'u.', 'A:M:.', 'O:O:.'), [
        (('O:M:.', 'M:O:.'), ()), (('M:O:.', 'O:O:.', 'O:M:.'), ()), (('A:M:.',), ()), (('A:M:.', 'O:M:.'), ()),
        (('O:M:.', 'M:O:.'), (('O:M:.', 'inhibition', 'twin'), ('O:M:.', 'is_ignored', 'True'))), (('O:O:.', 'O:M:.'), (('A:M:.', 'is_ignored', 'True'), ('O:O:.', 'inhibition', 'opposed')))]),
    'dictionary of sums': dictionary([('O:M:.+M:O:.', 'is_root', 'True')], ('O:M:.+M:O:.', 'O:M:.', 'M:O:.', 'O:S:.')),
}
# threads: (family, two questions)
PAIRS = [
    ('layer 1', 'cells O:M:.', 'singular_sequences O:M:.'), ('layer 1', 'cells O:M:.', 'headers O:M:.'), ('layer 1', 'cells O:M:.+M:O:.', 'singular_sequences O:M:.+M:O:.'),
    ('layer 1', 'factorize', 'in y. O:M:.'), ('layer 1', 'singular_sequences O:M:.', 'set O:M:.'),
    ('layer 2', 'cells O:M:.O:S:+B:.-', 'headers O:M:.O:S:+B:.-'), ('overlapping sums', 'singular_sequences M:.+S:.', 'set M:.+S:.'),
    ('towers', "cells O:M:.-O:S:.-'", 'singular_sequences O:M:.-'),
    ('polymorphemes', 'singular_sequences a. m1(y. e.)', 'set a. m1(y. e.)'), ('polymorphemes', 'parse a. [>constant>a. "z"]', 'parse a. m1(y. e.) [>constant>a. "x"]'),
    ('polymorphemes', 'parse a. [>constant>a. "z"]', 'literals a. m1(y. e.)'),
    ('polymorphemes', 'singular_sequences a. m1(y. e.) [>constant>a. "x"]', 'parse a. [>constant>a. "z"]'),
    ('lexemes', 'singular_sequences ()(a. m1(y. e.)) [>content>constant>a. "x"]', 'rebuild ()(a. m1(y. e.))'),
    ('dictionary', 'children 0', 'table 1'),
]
SLOW_PAIRS = [
    ('polymorphemes', 'table a. m1(y. e.) >group_0 1', 'parse a. m1(y. e.) [>constant>a. "x"]'),
    ('words', 'parse ()(a.) [>content>constant>a. "z"]', 'parse %s [>role>! E:.n.->content>constant>b. "x"]' % W2),
    ('words', 'singular_sequences ' + W1, 'sorted'), ('words', 'table %s >role>E:A:. E:A:.>content' % W1, 'paths ' + W1),
    ('dictionary', 'relations 0', 'pandas'), ('dictionary', 'relations 1', 'pickle'), ('dictionary', 'cells 0', 'relation'),
]


def answer(fam, env, i):
    """(rendered answer, the raw one)"""
    g = guard(FAMILIES[fam][1][i][1], env)
    return [g[0], show(g[1])], g[1]


def alone(fam, i):
    return answer(fam, FAMILIES[fam][0](), i)[0]


def grow(fam, env, hist, kept, base, alphabet, depth, out):
    """in the process that went through hist: every continuation, each in a child"""
    for i in alphabet:
        st, res = sched.forked(lambda: step(fam, env, hist + [i], kept, base, alphabet, depth))
        if st != 'ok':
            out['bad'].append((hist + [i], 'the process ended with %s' % res))
            continue
        for k in ('n', 't'):
            out[k] += res[k]
        out['bad'] += res['bad'][:20]


def step(fam, env, hist, kept, base, alphabet, depth):
    out = {'n': 1, 't': 1 + len(kept), 'bad': []}
    got, raw = answer(fam, env, hist[-1])
    if got != base[hist[-1]]:
        out['bad'].append((hist, 'answers %s instead of %s' % (str(got)[:300], str(base[hist[-1]])[:300])))
    for j, (r, s) in zip(hist, kept):
        if show(r) != s:
            out['bad'].append((hist, 'the answer given before to "%s" became %s' % (FAMILIES[fam][1][j][0], str(show(r))[:300])))
    if len(hist) < depth and not out['bad']:
        grow(fam, env, hist, kept + [(raw, got[1])], base, alphabet, depth, out)
    return out


def explore(chunk, r):
    for fam, first, alphabet, depth, base in chunk:
        r.count('states')
        st, res = sched.forked(lambda: step(fam, FAMILIES[fam][0](), [first], [], base, alphabet, depth))
        names = [o[0] for o in FAMILIES[fam][1]]
        if st != 'ok':
            r.violate('history %s: %s' % (fam, names[first]), 'the process ended with %s' % res, [fam, names[first]])
            continue
        r.count('traces', res['n'])
        r.count('transitions', res['t'])
        for h, msg in res['bad']:
            r.violate('history %s: %s' % (fam, ' ; '.join(names[i] for i in h)), msg, [fam, [names[i] for i in h]])


# -- schedules -----------------------------------------------------------------------
def make(fam, ops, after):
    def mk():
        env = FAMILIES[fam][0]()
        return [lambda i=i: answer(fam, env, i)[0] for i in ops], (lambda: [answer(fam, env, i)[0] for i in after])
    return mk


def schedules(chunk, r):
    for fam, ops, first, plan, events, bound, base in chunk:
        stack = [plan]
        names = [FAMILIES[fam][1][i][0] for i in ops]
        while stack:
            p = stack.pop()
            st, out = sched.run_schedule(make(fam, ops, ops), p, first, (REPO,), events)
            key = 'schedule %s: %s | %s first=%d %s' % (fam, names[0], names[1], first, sorted(p.items()))
            r.count('traces')
            if st != 'ok' or out[1]:
                r.violate(key, 'the run ends with %s' % (out if st != 'ok' else out[1]), [fam, names, first, sorted(p.items())])
                continue
            res, err, steps, after, trace = out
            r.count('transitions', steps)
            got = [x[1] if x[0] == 'ok' else x for x in res]
            for k in range(2):
                if got[k] != base[k]:
                    r.violate(key, 'thread %d is answered %s instead of %s' % (k, str(got[k])[:300], str(base[k])[:300]), [fam, names, first, sorted(p.items())])
                if after[k] != base[k]:
                    r.violate(key, 'asked again afterwards: %s instead of %s' % (str(after[k])[:300], str(base[k])[:300]), [fam, names, first, sorted(p.items())])
            if len(p) < bound:
                for k in range(max(p) + 1 if p else 0, steps):
                    if trace[k] in (0, 1):
                        stack.append({**p, k: 1 - trace[k]})


def run(ctx):
    import numpy, pandas, scipy.sparse, scipy.sparse.csgraph, pygit2, tqdm, bidict, concurrent.futures.thread, ply.yacc, ply.lex
    import sys
    sched.install()
    from ieml.usl.usl import usl
    from ieml.usl.decoration.path import path
    usl('U:')
    path('>constant')
    import ieml.usl.table, ieml.dictionary.dictionary, ieml.ieml_database.ieml_database
    sched.uninstall()
    sys.stderr = open(os.devnull, 'w')
    info = {}
    tasks, base_of = [], {}
    for fam, (setup, ops) in FAMILIES.items():
        base = []
        for i in range(len(ops)):
            st, b = sched.forked(lambda: alone(fam, i))
            if not ctx.require(st == 'ok', 'alone %s: %s' % (fam, ops[i][0]), 'fails: %s' % (b,), [fam, ops[i][0]]):
                b = None
            base.append(b)
        base_of[fam] = base
        if None in base:
            continue
        full = list(range(len(ops)))
        depth = 3 if THOROUGH or len(ops) <= 14 else 2
        info[fam] = {'questions': len(ops), 'depth': depth, 'refused questions': sum(b[0] == 'err' for b in base)}
        tasks += [(fam, i, full, depth, base) for i in full]
        if not THOROUGH:
            # deeper on the questions of the first object and those about several
            sub = full[1:6] + full[-4:]
            tasks += [(fam, i, sub, 3, base) for i in sub]
            info[fam]['depth 3 on'] = len(sub)
    parallel(ctx, explore, tasks, chunk=1)
    ctx.extra['histories'] = info
    tasks = []
    for fam, a, b in PAIRS + (SLOW_PAIRS if THOROUGH else []):
        names = [o[0] for o in FAMILIES[fam][1]]
        ops = (names.index(a), names.index(b))
        base = [base_of[fam][i] for i in ops]
        for first in (0, 1):
            events = ('line',) if THOROUGH and (fam, a, b) in PAIRS else ('call',)
            st, out = sched.run_schedule(make(fam, ops, ops), {}, first, (REPO,), events)
            key = 'schedule %s: %s | %s first=%d' % (fam, a, b, first)
            if not ctx.require(st == 'ok' and not out[1], key, 'sequential run fails: %s' % (out,), [fam, a, b]):
                continue
            res, err, steps, after, trace = out
            ctx.count('traces')
            ctx.require([x[1] if x[0] == 'ok' else x for x in res] == base and after == base, key, 'one after the other: %s' % str(res)[:300], [fam, a, b])
            info.setdefault('schedules', {})['%s | %s (%d)' % (a, b, first)] = steps
            for k in range(steps):
                if trace[k] in (0, 1):
                    tasks.append((fam, ops, first, {k: 1 - trace[k]}, events, 1, base))
    n = len(tasks)
    parallel(ctx, schedules, tasks, chunk=4)
    ctx.sample([f for f in FAMILIES])
    ctx.bounds = {'families': len(FAMILIES), 'histories': 'all sequences of 2 (3) questions of each family, of 3 questions of 9', 'pairs of threads': len(PAIRS) + THOROUGH * len(SLOW_PAIRS),
                  'schedules': n, 'preemptions': 1}
    ctx.assumptions = ['the answers to a question asked alone (decided by the other properties)', 'switches at calls (lines) of the library and at its locks']
