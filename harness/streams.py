"""Stream operators, through the API, on symbolic streams."""
import sys

import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from vcore import case, prop


def scalars(c, n, lo=None, hi=None, name='x'):
    return c.ints(name, n, lo, hi)


def pairs(c, n, lo=None, hi=None, name='p'):
    return [(c.int(f'{name}{i}a', lo, hi), c.int(f'{name}{i}b', lo, hi)) for i in range(n)]


def triples(c, n, lo=None, hi=None, name='t'):
    return [tuple(c.int(f'{name}{i}{s}', lo, hi) for s in 'abc') for i in range(n)]


def mixed(c, n, name='m', nested=True):
    """Items of any kind: integer, None, string, pair with None."""
    kinds = ['int', 'None', 'str'] + (['pair'] if nested else [])
    items = []
    for i in range(n):
        x = c.int(f'{name}{i}')
        kind = c.pick(f'{name}{i}k', kinds)
        items.append(x if kind == 'int' else None if kind == 'None' else 'ab' if kind == 'str' else (x, None))
    return items


def stream(c, n, kind):
    return scalars(c, n) if kind == 'scalar' else pairs(c, n) if kind == 'pair' else mixed(c, n)


def run(c, pipeline):
    return d.gather(pipeline)


def expect(c, actual, expected, what):
    c.check(len(actual) == len(expected), f'{what}: {len(expected)} outputs expected, got {actual}')
    c.check(same(actual, expected), f'{what}: expected {expected}, got {actual}')


# -- head, tail ----------------------------------------------------------------------------------------------------

def head_tail(c, op, n, kind):
    a = d.api()
    xs = stream(c, n, kind)
    k = c.int('k', -(n + 3), n + 3)
    if k == 0:
        c.reach('zero')
        try:
            run(c, d.source(xs) | getattr(a, op)(lambda: k))
        except d.Killed:
            return c.check(True, 'rejected')
        c.fail(f'{op} 0 was accepted')
    out = run(c, d.source(xs) | getattr(a, op)(lambda: k))
    # The decision on how many items qualify is an assertion, not a path: kk is what the solver allows k to be.
    kk = int(k)
    c.reach('positive' if kk > 0 else 'negative')
    if op == 'head':
        expected = xs[:kk] if kk > 0 else xs[-kk:]
    else:
        expected = xs[max(0, n - kk):] if kk > 0 else xs[:max(0, n + kk)]
    expect(c, out, expected, f'{op} {kk}')


@prop('P01', functions=['marcel.op.head', 'marcel.op.tail', 'marcel.core.Op', 'marcel.pipeline', 'marcel.argsparser'],
      bounds={'quick': 'streams of 0..9 items (unbounded integers / pairs; 0..2 of mixed kinds), |N| <= length + 3',
              'thorough': 'streams of 0..14 items, |N| <= length + 3'},
      assumptions=['items are integers, pairs of integers, None or strings', 'the integer N is passed as a function (evaluated at setup), '
                   'or as a literal'])
def p01(tier):
    cases = []
    for op in ('head', 'tail'):
        for n in range(10 if tier == 'quick' else 15):
            for kind in ('scalar', 'pair'):
                cases.append(case(f'{op}-{kind}-{n}', head_tail, op, n, kind,
                                  reach=('zero', 'positive', 'negative')))
        cases.append(case(f'{op}-mixed', head_tail, op, 2 if tier == 'quick' else 3, 'mixed'))
    return cases


# -- sort ----------------------------------------------------------------------------------------------------------

def permutation(c, out, xs):
    return conj(total(b2i(same(y, x)) for y in out) == total(b2i(same(y, x)) for y in xs) for x in xs)


def sort_plain(c, n):
    a = d.api()
    xs = scalars(c, n)
    out = run(c, d.source(xs) | a.sort())
    c.check(len(out) == n, f'sort: {n} in, {len(out)} out')
    c.check(conj(out[i] <= out[i + 1] for i in range(n - 1)), f'sort: output not ordered: {out}')
    c.check(permutation(c, out, xs), f'sort: output is not a permutation of input: {out}')


def sort_pairs(c, n):
    a = d.api()
    xs = pairs(c, n)
    out = run(c, d.source(xs) | a.sort())
    c.check(len(out) == n, f'sort: {n} in, {len(out)} out')
    c.check(conj(disj([out[i][0] < out[i + 1][0],
                       conj([out[i][0] == out[i + 1][0], out[i][1] <= out[i + 1][1]])]) for i in range(n - 1)),
            f'sort: output not ordered: {out}')
    c.check(permutation(c, out, xs), f'sort: output is not a permutation of input: {out}')


def stable(xs, key):
    """Insertion sort"""
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and bool(key(x) < key(out[i - 1])):
            i -= 1
        out.insert(i, x)
    return out


def sort_key(c, n, sign, kind):
    # What else is in an item does not matter
    a = d.api()
    ys = scalars(c, n, name='y') if kind == 'scalar' else mixed(c, n)
    xs = [(c.int(f'x{i}'), ys[i]) for i in range(n)]
    out = run(c, d.source(xs) | a.sort(lambda x, y: sign * x))
    expect(c, out, stable(xs, lambda t: sign * t[0]), 'sort key')


@prop('P02', functions=['marcel.op.sort', 'marcel.core.Op', 'marcel.pipeline'],
      bounds={'quick': 'streams of 0..6 unbounded integers, 0..4 pairs; keys with items of any kind (integers, None, strings, pairs)', 'thorough': 'streams of 0..7 integers, 0..5 pairs'})
def p02(tier):
    q = tier == 'quick'
    cases = [case(f'plain-{n}', sort_plain, n) for n in range(7 if q else 8)]
    cases += [case(f'pairs-{n}', sort_pairs, n) for n in range(5 if q else 6)]
    cases += [case(f'key{s}-{n}', sort_key, n, s, 'scalar') for n in range(5 if q else 7) for s in (1, -1)]
    cases += [case(f'key{s}-mixed-{n}', sort_key, n, s, 'mixed') for n in range(1, 4) for s in (1, -1)]
    return cases


# -- unique --------------------------------------------------------------------------------------------------------

def unique_spec(xs):
    out = []
    for x in xs:
        if not any(bool(same(x, y)) for y in out):
            out.append(x)
    return out


def unique(c, n, kind):
    a = d.api()
    xs = c.lift(stream(c, n, kind))
    out = run(c, d.source(xs) | a.unique())
    expected = unique_spec(xs)
    # The order of the output is not specified (unless --consecutive).
    c.check(len(out) == len(expected), f'unique: {len(expected)} distinct inputs, got {out}')
    c.check(conj(disj(same(x, y) for y in out) for x in expected), f'unique: an input is missing from {out}')
    if len(expected) < n:
        c.reach('duplicate')


def unique_consecutive(c, n, kind):
    a = d.api()
    xs = c.lift(stream(c, n, kind))
    out = run(c, d.source(xs) | a.unique(consecutive=True))
    expected = []
    for x in xs:
        if not expected or not bool(same(x, expected[-1])):
            expected.append(x)
    if len(expected) < n:
        c.reach('duplicate')
    expect(c, out, expected, 'unique --consecutive')


@prop('P03', functions=['marcel.op.unique', 'marcel.util.wrap_op_input', 'marcel.core.Op'],
      bounds={'quick': 'streams of 0..7 unbounded integers, 0..5 pairs, 0..3 items of any kind (integers, None, strings, pairs)', 'thorough': 'streams of 0..9 integers, 0..6 pairs, 0..4 of any kind'},
      assumptions=['hash() of symbolic items is constant, so that set membership is decided by equality alone'])
def p03(tier):
    q = tier == 'quick'
    cases = []
    for n in range(8 if q else 10):
        r = ('duplicate',) if n > 1 else ()
        cases.append(case(f'general-{n}', unique, n, 'scalar', reach=r))
        cases.append(case(f'consecutive-{n}', unique_consecutive, n, 'scalar', reach=r))
        if n <= (5 if q else 6):
            cases.append(case(f'general-pairs-{n}', unique, n, 'pair', reach=r))
            cases.append(case(f'consecutive-pairs-{n}', unique_consecutive, n, 'pair', reach=r))
        if n <= (3 if q else 4):
            cases.append(case(f'general-mixed-{n}', unique, n, 'mixed', reach=r))
            cases.append(case(f'consecutive-mixed-{n}', unique_consecutive, n, 'mixed', reach=r))
    return cases


# -- window --------------------------------------------------------------------------------------------------------

def one(w):
    # A 1-tuple is unwrapped by gather
    return w[0] if len(w) == 1 else tuple(w)


def window_overlap(c, n, kind):
    a = d.api()
    xs = stream(c, n, kind)
    k = c.int('k', 1, n + 2)
    out = d.gather(d.source(xs) | a.window(overlap=lambda: k), unwrap=False)
    k = int(k)
    padded = xs + [None] * k
    expected = [tuple(padded[i:i + k]) for i in range(n)]
    expect(c, out, expected, f'window --overlap {k}')


def window_disjoint(c, n, kind):
    a = d.api()
    xs = stream(c, n, kind)
    k = c.int('k', 1, n + 2)
    out = d.gather(d.source(xs) | a.window(disjoint=lambda: k), unwrap=False)
    k = int(k)
    padded = xs + [None] * k
    expected = [tuple(padded[i:i + k]) for i in range(0, n, k)]
    expect(c, out, expected, f'window --disjoint {k}')


def window_predicate(c, n, kind):
    a = d.api()
    xs = pairs(c, n) if kind == 'pair' else scalars(c, n)
    t = c.int('t')
    # The result of a predicate is not necessarily a bool
    predicate = (lambda x, y: x + y >= t) if kind == 'pair' else (lambda x: x - t) if kind == 'truthy' else (lambda x: x >= t)
    out = d.gather(d.source(xs) | a.window(predicate), unwrap=False)
    expected = []
    for i, x in enumerate(xs):
        starts = bool(predicate(*x) if kind == 'pair' else predicate(x))
        if i == 0 or starts:
            if i > 0:
                c.reach('split')
            expected.append((x,))
        else:
            c.reach('extend')
            expected[-1] += (x,)
    expect(c, out, expected, 'window predicate')


@prop('P04', functions=['marcel.op.window', 'marcel.util.unwrap_op_output', 'marcel.core.Op'],
      bounds={'quick': 'streams of 0..9 items (integers, pairs; 0..3 of any kind), window size 1..length+2, threshold predicates over all '
                       'integers', 'thorough': 'streams of 0..13 items'})
def p04(tier):
    cases = []
    for n in range(10 if tier == 'quick' else 14):
        for kind in ('scalar', 'pair'):
            cases.append(case(f'overlap-{kind}-{n}', window_overlap, n, kind))
            cases.append(case(f'disjoint-{kind}-{n}', window_disjoint, n, kind))
            cases.append(case(f'predicate-{kind}-{n}', window_predicate, n, kind,
                              reach=('split', 'extend') if n > 1 else ()))
        if n <= 3:
            cases.append(case(f'predicate-truthy-{n}', window_predicate, n, 'truthy',
                              reach=('split', 'extend') if n > 1 else ()))
            cases.append(case(f'overlap-mixed-{n}', window_overlap, n, 'mixed'))
            cases.append(case(f'disjoint-mixed-{n}', window_disjoint, n, 'mixed'))
    return cases


# -- red -----------------------------------------------------------------------------------------------------------

def fold(f, xs):
    acc = None
    for x in xs:
        acc = x if acc is None else f(acc, x)
    return acc


def smax(x, y):
    return ite(x >= y, x, y)


def smin(x, y):
    return ite(x <= y, x, y)


REDUCTIONS = {
    '+': (lambda x, y: x + y),
    'max': smax,
    'min': smin,
    'affine': (lambda x, y: x + x - y),      # neither associative nor commutative
}


def red_plain(c, n, incremental):
    a = d.api()
    xs = triples(c, n)
    f = REDUCTIONS['affine']
    out = d.gather(d.source(xs) | a.red(f, max, lambda acc, x: acc + x, incremental=incremental) if n == 0 else
                   d.source(xs) | a.red(lambda acc, x: x if acc is None else f(acc, x),
                                        lambda acc, x: x if acc is None else max(acc, x),
                                        lambda acc, x: x if acc is None else acc + x,
                                        incremental=incremental), unwrap=False)
    fs = [f, smax, REDUCTIONS['+']]
    columns = list(zip(*xs)) if n else [(), (), ()]
    if incremental:
        expected = [xs[i] + tuple(fold(g, col[:i + 1]) for g, col in zip(fs, columns)) for i in range(n)]
    else:
        expected = [tuple(fold(g, col) for g, col in zip(fs, columns))]
    expect(c, out, expected, 'red')


CLI_REDUCTIONS = {'+': REDUCTIONS['+'], 'max': smax, 'min': smin}
_cli = None


def cli():
    global _cli
    if _cli is None:
        _cli = d.Cli()
    return _cli


def bind(name, value):
    """Makes value available to functions on the command line, as the variable name."""
    cli().env.workspace.namespace.assign_permanent(name, value)


def cli_source(xs, name='XS'):
    bind(name, list(xs))
    if len(xs) == 0:
        return 'gen 1 | select (i: False)'
    return f'gen {len(xs)} | map (i: {name}[i])'


def red_symbols(c, n, ops, incremental):
    # Through the command line, with symbols instead of functions
    xs = [tuple(c.int(f'x{i}_{j}') for j in range(len(ops))) for i in range(n)]
    text = f'{cli_source(xs)} | red {"-i " if incremental else ""}{" ".join(ops)}'
    out = cli().gather(text, unwrap=False)
    columns = list(zip(*xs)) if n else [()] * len(ops)

    def reduce(op, column):
        return len(column) if op == 'count' else fold(CLI_REDUCTIONS[op], column)
    if incremental:
        expected = [xs[i] + tuple(reduce(op, col[:i + 1]) for op, col in zip(ops, columns)) for i in range(n)]
    else:
        expected = [tuple(reduce(op, col) for op, col in zip(ops, columns))]
    expect(c, out, expected, text)


def red_group(c, n, ops, incremental, kind='int'):
    xs = [tuple(mixed(c, 1, f'x{i}_{j}', False)[0] if kind == 'mixed' and op == '.' else c.int(f'x{i}_{j}')
                for j, op in enumerate(ops)) for i in range(n)]
    xs = c.lift(xs)
    text = f'{cli_source(xs)} | red {"-i " if incremental else ""}{" ".join(ops)}'
    out = cli().gather(text, unwrap=False)
    g = [j for j, op in enumerate(ops) if op == '.']
    groups = []     # (key, rows)
    expected = []

    def reduce(op, column):
        return column[0] if op == '.' else len(column) if op == 'count' else fold(CLI_REDUCTIONS[op], column)
    for x in xs:
        key = tuple(x[j] for j in g)
        for k, rows in groups:
            if same(k, key):
                c.reach('existing')
                break
        else:
            rows = []
            groups.append((key, rows))
        rows.append(x)
        if incremental:
            expected.append(x + tuple(reduce(op, [row[j] for row in rows]) for j, op in enumerate(ops) if op != '.'))
    if not incremental:
        expected = [tuple(reduce(op, [row[j] for row in rows]) for j, op in enumerate(ops)) for key, rows in groups]
        # Order of groups is not specified
        c.check(len(out) == len(expected), f'{text}: {len(expected)} groups expected, got {out}')
        c.check(permutation(c, out, expected), f'{text}: expected {expected}, got {out}')
    else:
        expect(c, out, expected, text)


def red_short(c, n, m, incremental):
    # Tuples of symbolic length: those that are too short are reported as errors, and otherwise ignored.
    a = d.api()
    xs = []
    for i in range(n):
        length = c.small(f'len{i}', 1, 3)
        xs.append(tuple(c.int(f'x{i}_{j}') for j in range(length)))
    plus = lambda acc, x: x if acc is None else acc + x
    out = d.gather(d.source(xs) | a.red(*[plus] * m, incremental=incremental), unwrap=False)
    errors = [x for x in out if d.is_error(x)]
    values = [x for x in out if not d.is_error(x)]
    good = [x for x in xs if len(x) >= m]
    if len(good) < n:
        c.reach('short')
    c.check(len(errors) == n - len(good), f'red: {n - len(good)} inputs too short, errors: {errors}')
    sums = [tuple(fold(REDUCTIONS['+'], [row[j] for row in good[:i + 1]]) for j in range(m)) for i in range(len(good))]
    if incremental:
        expected = [x + s for x, s in zip(good, sums)]
    else:
        expected = [sums[-1] if sums else (None,) * m]
    expect(c, values, expected, 'red')


def red_failing(c, n, grouping):
    # A reduction that fails on some inputs: they don't contribute at all.
    a = d.api()
    xs = c.lift([(c.int(f'g{i}'), c.int(f'x{i}'), c.int(f'y{i}')) for i in range(n)])
    t = c.int('t')

    def plus(acc, x):
        return x if acc is None else acc + x

    def picky(acc, x):
        if x > t:
            raise ValueError('picky')
        return plus(acc, x)
    out = d.gather(d.source(xs) | a.red(None if grouping else plus, plus, picky), unwrap=False)
    errors = [x for x in out if d.is_error(x)]
    values = [x for x in out if not d.is_error(x)]
    good = [x for x in xs if not bool(x[2] > t)]
    if len(good) < n:
        c.reach('failed')
    c.check(len(errors) == n - len(good), f'red: {n - len(good)} inputs fail, errors: {errors}')
    if grouping:
        groups = []
        for x in good:
            for g in groups:
                if same(g[0], x[0]):
                    g[1], g[2] = g[1] + x[1], g[2] + x[2]
                    break
            else:
                groups.append(list(x))
        expected = [tuple(g) for g in groups]
        c.check(len(values) == len(expected), f'red: {len(expected)} groups expected, got {values}')
        c.check(permutation(c, values, expected), f'red: expected {expected}, got {values}')
    else:
        expected = [tuple(fold(REDUCTIONS['+'], [row[j] for row in good]) for j in range(3))]
        expect(c, values, expected, 'red')


@prop('P05', functions=['marcel.op.red', 'marcel.reduction', 'marcel.function', 'marcel.parser'],
      bounds={'quick': 'streams of 0..6 tuples of 1..3 unbounded integers; reductions +, max, min, count, a '
                       'non-associative function, a failing function; up to 2 grouping positions',
              'thorough': 'streams of 0..7 tuples'},
      assumptions=['the order in which groups are output is not specified'])
def p05(tier):
    q = tier == 'quick'
    N = 7 if q else 8
    cases = []
    for inc in (False, True):
        i = 'inc' if inc else 'all'
        cases += [case(f'functions-{i}-{n}', red_plain, n, inc) for n in range(N)]
        for ops in (('+',), ('max', 'min'), ('+', 'count', 'min')):
            cases += [case(f'symbols-{"".join(ops)}-{i}-{n}', red_symbols, n, ops, inc) for n in range(N - 1)]
        for ops in (('.', '+'), ('+', '.'), ('.', 'count', 'max'), ('.', '+', '.')):
            cases += [case(f'group-{"".join(ops)}-{i}-{n}', red_group, n, ops, inc,
                           reach=('existing',) if n > 1 else ()) for n in range(N - 1)]
        cases += [case(f'group-{"".join(ops)}-{i}-mixed', red_group, 2 if len(ops) > 2 else 3, ops, inc, 'mixed',
                       reach=('existing',)) for ops in (('.', '+'), ('.', '+', '.'))]
        cases += [case(f'short-{m}-{i}-{n}', red_short, n, m, inc, reach=('short',)) for n in (1, 2, 3) for m in (2, 3)]
    cases += [case(f'failing-{g}-{n}', red_failing, n, g, reach=('failed',)) for n in range(1, N - 1)
              for g in (True, False)]
    return cases


# -- per-item operators --------------------------------------------------------------------------------------------

def op_map(c, n, kind):
    a = d.api()
    k = c.int('k')
    if kind == 'scalar':
        xs = scalars(c, n)
        out = run(c, d.source(xs) | a.map(lambda x: x + k))
        expected = [x + k for x in xs]
    elif kind == 'pair':
        xs = pairs(c, n)
        out = run(c, d.source(xs) | a.map(lambda x, y: (y, x + k)))
        expected = [(y, x + k) for x, y in xs]
    elif kind == 'mixed':
        xs = mixed(c, n)
        out = run(c, d.source(xs) | a.map(lambda *x: x[0]))
        expected = [x[0] if type(x) is tuple else x for x in xs]
    else:
        # None is a value like any other
        xs = scalars(c, n)
        out = run(c, d.source(xs) | a.map(lambda x: None if x > k else x))
        expected = [None if bool(x > k) else x for x in xs]
    expect(c, out, expected, 'map')


def op_select(c, n, kind):
    a = d.api()
    k = c.int('k')
    if kind == 'scalar':
        xs = scalars(c, n)
        out = run(c, d.source(xs) | a.select(lambda x: x > k))
        expected = [x for x in xs if bool(x > k)]
    elif kind == 'truthy':
        # Not necessarily a bool
        xs = scalars(c, n)
        out = run(c, d.source(xs) | a.select(lambda x: x - k))
        expected = [x for x in xs if bool(x != k)]
    elif kind == 'mixed':
        # What is selected depends on the position
        xs = mixed(c, n)
        selected = [c.int(f's{i}') for i in range(n)]
        i = iter(range(n))
        out = run(c, d.source(xs) | a.select(lambda *x: selected[next(i)] > k))
        expected = [x for x, t in zip(xs, selected) if bool(t > k)]
    else:
        xs = pairs(c, n)
        out = run(c, d.source(xs) | a.select(lambda x, y: x + y > k))
        expected = [(x, y) for x, y in xs if bool(x + y > k)]
    if len(expected) < n:
        c.reach('dropped')
    if len(expected) > 0:
        c.reach('kept')
    expect(c, out, expected, 'select')


def op_reverse(c, n, kind):
    a = d.api()
    xs = stream(c, n, kind)
    expect(c, run(c, d.source(xs) | a.reverse()), xs[::-1], 'reverse')


def op_squish(c, n, how):
    a = d.api()
    xs = []
    for i in range(n):
        length = c.small(f'len{i}', 1, 3)
        xs.append(tuple(c.int(f'x{i}_{j}') for j in range(length)))
    if how == 'plus':
        out = run(c, d.source(xs) | a.squish())
        f = REDUCTIONS['+']
    else:
        f = REDUCTIONS['affine']
        out = run(c, d.source(xs) | a.squish(lambda acc, x: x if acc is None else f(acc, x)))
    expect(c, out, [fold(f, x) for x in xs], 'squish')


def op_expand(c, n):
    a = d.api()
    xs = []
    for i in range(n):
        length = c.small(f'len{i}', 1, 3)
        xs.append(tuple(c.int(f'x{i}_{j}') for j in range(length)))
    out = run(c, d.source(xs) | a.expand())
    expect(c, out, [y for x in xs for y in x], 'expand')


def op_expand_nested(c, n, container):
    # A single nested sequence
    a = d.api()
    xs = []
    for i in range(n):
        length = c.small(f'len{i}', 0, 3)
        xs.append([c.int(f'x{i}_{j}') for j in range(length)])
    make = {'list': list, 'tuple': tuple, 'generator': lambda x: (y for y in x),
            'dict': lambda x: {i: y for i, y in enumerate(x)}, 'struct': lambda x: sys.modules['marcel.structish'].o(**{'abc'[i]: y for i, y in enumerate(x)}),
            'set': lambda x: set(range(len(x)))}[container]
    out = run(c, a.gen(n) | a.map(lambda i: (make(xs[i]),)) | a.expand() if n else
              a.gen(1) | a.select(lambda i: False) | a.expand())
    if container == 'dict':
        expect(c, out, [(i, y) for x in xs for i, y in enumerate(x)], 'expand')
    elif container == 'struct':
        expect(c, out, [('abc'[i], y) for x in xs for i, y in enumerate(x)], 'expand')
    elif container == 'set':
        # In any order
        k = 0
        for x in xs:
            c.check(sorted(out[k:k + len(x)]) == list(range(len(x))), f'expand: {out}')
            k += len(x)
        c.check(len(out) == k, f'expand: {out}')
    else:
        expect(c, out, [y for x in xs for y in x], 'expand')


def op_expand_position(c, n, width, outer):
    # Position is symbolic; the item at each position is a sequence of symbolic length
    a = d.api()
    p = c.int('p', 0, width + 1)
    xs = []
    for i in range(n):
        row = []
        for j in range(width):
            length = c.small(f'len{i}_{j}', 0, 2)
            row.append([c.int(f'x{i}_{j}_{k}') for k in range(length)])
        xs.append(tuple(row) if outer == 'tuple' else row)
    out = d.gather(d.source(xs) | a.expand(lambda: p), unwrap=False)
    p = int(p)
    expected = []
    for x in xs:
        x = tuple(x)
        if p >= width:
            c.reach('beyond')
            expected.append(x)
        else:
            expected.extend(x[:p] + (y,) + x[p + 1:] for y in x[p])
    c.check(len(out) == len(expected), f'expand {p}: expected {expected}, got {out}')
    c.check(same([tuple(x) for x in out], expected), f'expand {p}: expected {expected}, got {out}')


def op_cast(c, n, k, how):
    """k types, items of any width; None is left alone, and an item that cannot be cast yields an Error"""
    a = d.api()
    xs, bad = [], []
    for i in range(n):
        width = c.small(f'width{i}', 1, 3 if n < 2 or how == 'api' and n < 3 else 2)
        xs.append(tuple(None if c.flag(f'none{i}_{j}') else c.int(f'x{i}_{j}') for j in range(width)))
    if how == 'api':
        functions = [lambda x: x + 1, lambda x: 2 * x, lambda x: (x, x)][:k]
    elif how == 'error':
        def f(x):
            if x < 0:
                raise ValueError(x)
            return x + 1
        functions = [f] * k
    else:
        functions = [bool, str, float][:k]
        xs = [tuple(None if x is None else c.pick(f'v{i}_{j}', (0, -3)) for j, x in enumerate(t)) for i, t in enumerate(xs)]
    expected = []
    for t in xs:
        if how == 'error' and disj([t[j] < 0 for j in range(min(k, len(t))) if t[j] is not None]):
            expected.append('Error')
        else:
            expected.append(tuple(functions[j](x) if j < k and x is not None else x for j, x in enumerate(t)))
    if how == 'cli':
        bind('XS', xs)
        out = cli().gather(f'gen {n} | map (i: XS[i]) | cast ' + ' '.join(f.__name__ for f in functions) if n else
                           f'gen 1 | select (i: False) | cast ' + ' '.join(f.__name__ for f in functions), unwrap=False)
    else:
        with d.Capture():
            out = d.gather(d.source(xs) | a.cast(*functions), unwrap=False)
    out = ['Error' if d.is_error(x) or len(x) == 1 and d.is_error(x[0]) else x for x in out]
    c.check(len(out) == len(expected), f'cast: {out}, expected {expected}')
    for x, y in zip(out, expected):
        c.check((type(x) is str) == (type(y) is str) and (type(y) is str or len(x) == len(y) and all(type(p) is type(q) for p, q in zip(x, y)) and bool(same(x, y))),
                f'cast: {x}, expected {y}')
    c.reach('done')


@prop('P06', functions=['marcel.op.map', 'marcel.op.select', 'marcel.op.reverse', 'marcel.op.squish',
                        'marcel.op.expand', 'marcel.op.cast', 'marcel.core.Op'],
      bounds={'quick': 'streams of 0..5 items (0..3 of any kind); tuples of 1..3 integers; nested sequences of 0..3 integers; every '
                       'position', 'thorough': 'streams of 0..7 items (expand by position: 0..3)'})
def p06(tier):
    q = tier == 'quick'
    cases = []
    for n in range(6 if q else 8):
        cases += [case(f'map-{k}-{n}', op_map, n, k) for k in ('scalar', 'pair', 'none', 'mixed') if k != 'mixed' or n <= 3]
        cases += [case(f'select-{k}-{n}', op_select, n, k, reach=('dropped', 'kept') if n else ())
                  for k in ('scalar', 'truthy', 'pair', 'mixed') if k != 'mixed' or n <= 3]
        cases += [case(f'reverse-{k}-{n}', op_reverse, n, k) for k in ('scalar', 'pair', 'mixed') if k != 'mixed' or n <= 3]
        if n <= (3 if q else 5):
            cases += [case(f'squish-{h}-{n}', op_squish, n, h) for h in ('plus', 'affine')]
            cases += [case(f'expand-{n}', op_expand, n)]
            cases += [case(f'cast-{how}-{k}-{n}', op_cast, n, k, how) for how in ('api', 'error', 'cli') for k in (1, 2, 3) if n * k <= (4 if n < 3 else 1) and not (n == 3 and how != 'api')]
            cases += [case(f'expand-{t}-{n}', op_expand_nested, n, t) for t in ('list', 'tuple', 'generator', 'dict', 'struct', 'set')]
        if n <= (2 if q else 3):
            cases += [case(f'expandpos-{o}-{w}-{n}', op_expand_position, n, w, o, reach=('beyond',) if n else ())
                      for w in (1, 2, 3) if w * n <= (4 if q else 6) for o in ('tuple', 'list')]
    return cases


# -- gen -----------------------------------------------------------------------------------------------------------

def op_gen(c, N):
    a = d.api()
    n = c.int('n', 1, N)
    s = c.int('s')
    out = run(c, a.gen(lambda: n, lambda: s))
    c.check(len(out) == n, f'gen: {n} integers expected, got {out}')
    c.check(conj(same(out[i], s + i) for i in range(len(out))), f'gen: expected integers from {s}, got {out}')


def op_gen_unbounded(c, N):
    # gen 0 does not terminate: it keeps counting, for as long as anybody is interested
    a = d.api()
    s = c.int('s')
    how = c.pick('how', ('function', 'default', 'API default', 'start'))
    if how != 'function':
        s = 7 if how == 'start' else 0
    k = c.small('k', 1, N)

    class Enough(BaseException):
        pass
    out = []

    def see(x):
        out.append(x)
        if len(out) == k:
            raise Enough()
    try:
        if how == 'default':
            bind('SEE', see)
            cli().gather('gen | map (x: SEE(x))')
        else:
            run(c, (a.gen(lambda: 0, lambda: s) if how == 'function' else a.gen(start=7) if how == 'start' else a.gen()) | a.map(see))
        c.fail('gen 0 terminated')
    except Enough:
        pass
    c.check(conj(same(out[i], s + i) for i in range(k)), f'gen 0: expected integers from {s}, got {out}')


def op_gen_pad(c, N):
    a = d.api()
    n = c.small('n', 1, N)
    s = c.small('s', -2, 101)
    p = c.small('p', 1, 4)
    width = max(len(str(s)), len(str(s + n - 1)))
    ok = s >= 0 and width <= p
    try:
        out = run(c, a.gen(n, s, p))
    except d.Killed:
        c.reach('rejected')
        return c.check(not ok, f'gen --pad {p} {n} {s}: rejected')
    c.reach('accepted')
    c.check(ok, f'gen --pad {p} {n} {s}: accepted')
    c.check(out == [str(x).rjust(p, '0') for x in range(s, s + n)], f'gen --pad {p} {n} {s}: got {out}')


@prop('P07', functions=['marcel.op.gen', 'marcel.core.Op.eval_function'],
      bounds={'quick': 'count 1..20, start any integer; unbounded streams up to the 12th item; padding 1..4 with start '
                       '-2..101 (decided per value)', 'thorough': 'count 1..40'})
def p07(tier):
    q = tier == 'quick'
    return [case('count', op_gen, 20 if q else 40),
            case('unbounded', op_gen_unbounded, 12 if q else 24),
            case('pad', op_gen_pad, 3 if q else 8, reach=('rejected', 'accepted'))]
