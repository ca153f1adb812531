"""Operators combining streams: join, union, intersect, difference, filter, case, args."""
import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from vcore import case, prop
from streams import scalars, pairs, mixed, stream, expect, permutation, run, cli, cli_source, bind


def tuples(c, name, n, width, lift=True):
    if width == 'mixed':
        xs = [x if type(x) is tuple else (x,) for x in mixed(c, n, name)]
        return c.lift(xs) if lift else xs
    if width == 'mixed2':
        # Join key of any kind
        xs = [(x, c.int(f'{name}{i}_1')) for i, x in enumerate(mixed(c, n, name))]
        return c.lift(xs) if lift else xs
    xs = [tuple(c.int(f'{name}{i}_{j}') for j in range(width)) for i in range(n)]
    return c.lift(xs) if lift else xs


def one(t):
    return t[0] if len(t) == 1 else t


def count(x, xs):
    return total(b2i(same(x, y)) for y in xs)


# -- join ----------------------------------------------------------------------------------------------------------

def join(c, n, m, wl, wr, keep, how):
    a = d.api()
    left = tuples(c, 'l', n, wl)
    right = tuples(c, 'r', m, wr)
    if how == 'api':
        out = d.gather(d.source(left) | a.join(d.source(right), keep=keep), unwrap=False)
    else:
        text = f'{cli_source(left, "L")} | join {"-k" if keep else ""} (| {cli_source(right, "R")} |)'
        out = cli().gather(text, unwrap=False)
    expected = []
    lefts = []
    for x in left:
        matched = False
        for y in right:
            if same(x[0], y[0]):
                matched = True
                expected.append(x + y[1:])
                lefts.append(x)
        if matched:
            c.reach('match')
        else:
            c.reach('no match')
            if keep:
                expected.append(x)
                lefts.append(x)
    c.check(len(out) == len(expected), f'join: expected {expected}, got {out}')
    c.check(permutation(c, out, expected), f'join: expected {expected}, got {out}')
    # Left order is preserved
    c.check(conj(same(x[:len(l)], y[:len(l)]) for x, y, l in zip(out, expected, lefts)), f'join: order of left input changed: {out}')


def unhashable(c, op, n, m):
    """Items that cannot be looked up are rejected, with a message"""
    left = [c.flag(f'l{i}') for i in range(n)]
    right = [c.flag(f'r{i}') for i in range(m)]
    bind('L', left)
    bind('R', right)
    text = f'gen {n} | map (i: ([i] if L[i] else i, i)) | {op} (| gen {m + 1} | select (i: i < {m}) | map (i: ([i] if R[i] else i, i)) |)'
    killed = None
    try:
        out = cli().gather(text)
    except d.Killed as e:
        killed = str(e)
    if any(left) or any(right):
        c.check(killed is not None and 'not hashable' in killed, f'killed: {killed}')
        c.reach('killed')
    else:
        expected = {'join': [(i, i, i) for i in range(min(n, m))], 'intersect': [(i, i) for i in range(min(n, m))],
                    'difference': [(i, i) for i in range(m, n)], 'filter': [(i, i) for i in range(min(n, m))],
                    'filter -d': [(i, i) for i in range(m, n)]}[op]
        c.check(killed is None and sorted(out) == expected, f'killed: {killed}, {out}')


def lists(c, op, how):
    """A list is an item of several values, like a tuple"""
    K = c.lift(c.ints('k', 2))        # The only integers that are compared
    M = c.ints('m', 2)
    bind('K', K)
    bind('M', M)
    l, r = c.flag('l'), c.flag('r')
    left = '[K[i], i]' if l else '(K[i], i)'
    right = '[M[i], i]' if r else '(M[i], i)'
    text = f'gen 2 | map (i: {left}) | {op} (| gen 2 | map (i: {right}) |)'
    out = cli().gather(text)
    expected = []
    for i in range(2):
        found = [j for j in range(2) if same(K[i], M[j])]
        expected.extend((K[i], i, j) for j in found)
        if op == 'join -k' and not found:
            expected.append((K[i], i))
    c.check(len(out) == len(expected) and conj(same(tuple(x), y) for x, y in zip(out, expected)), f'{out}, expected {expected}')


@prop('P08', functions=['marcel.op.join', 'marcel.pipeline (append_immutable, run_pipeline)'],
      bounds={'quick': 'left and right streams of 0..4 tuples of width 1..3, unbounded integers, keys of any kind',
              'thorough': 'left and right of 0..5 tuples'},
      assumptions=['hash() of symbolic items is constant, so that lookup is decided by equality alone'])
def p08(tier):
    q = tier == 'quick'
    N = 4 if q else 5
    cases = []
    for n in range(N + 1):
        for m in range(N + 1):
            if n * m > (12 if q else 16):
                continue
            for keep in (False, True):
                reach = (('match', 'no match') if m else ('no match',)) if n else ()
                cases.append(case(f'join{"-keep" if keep else ""}-{n}-{m}', join, n, m, 2, 2, keep, 'api', reach=reach))
                if n == 2 and m == 2:
                    for wl, wr in ((1, 1), (1, 3), (3, 1)):
                        cases.append(case(f'join{"-keep" if keep else ""}-w{wl}{wr}', join, n, m, wl, wr, keep, 'api',
                                          reach=reach))
                    cases.append(case(f'join{"-keep" if keep else ""}-mixed', join, n, m, 'mixed2', 'mixed2', keep, 'api'))
                    cases.append(case(f'join{"-keep" if keep else ""}-mixed-width', join, n, m, 'mixed', 'mixed', keep, 'api'))
                    cases.append(case(f'join{"-keep" if keep else ""}-cli', join, n, m, 2, 2, keep, 'cli', reach=reach))
    for n, m in ((1, 0), (1, 1), (2, 1), (2, 2)):
        cases.append(case(f'join-unhashable-{n}-{m}', unhashable, 'join', n, m, reach=['killed']))
    for op in ('join', 'join -k'):
        cases.append(case(f'{op}-lists'.replace(' ', ''), lists, op, 'cli'))
    return cases


# -- bag algebra ---------------------------------------------------------------------------------------------------

def bag(c, op, sizes, width, how):
    a = d.api()
    inputs = [tuples(c, 'xyzw'[i], n, width) for i, n in enumerate(sizes)]
    if how == 'api':
        f = getattr(a, op)
        out = d.gather(d.source([one(t) for t in inputs[0]]) | f(*[d.source([one(t) for t in xs]) for xs in inputs[1:]]),
                       unwrap=False)
    else:
        sources = [cli_source([one(t) for t in xs], 'XYZW'[i]) for i, xs in enumerate(inputs)]
        text = sources[0] + f' | {op} ' + ' '.join(f'(| {s} |)' for s in sources[1:])
        out = cli().gather(text, unwrap=False)
    everything = [x for xs in inputs for x in xs]
    for x in everything:
        counts = [count(x, xs) for xs in inputs]
        if op == 'union':
            expected = total(counts)
        elif op == 'intersect':
            expected = counts[0]
            for k in counts[1:]:
                expected = ite(k < expected, k, expected)
        else:
            diff = counts[0] - counts[1]
            expected = ite(diff > 0, diff, 0)
        c.check(same(count(x, out), expected), f'{op}: wrong number of occurrences of {x} in {out}')
    # Nothing else
    c.check(conj(disj(same(y, x) for x in everything) for y in out), f'{op}: output not from an input: {out}')


@prop('P09', functions=['marcel.op.union', 'marcel.op.intersect', 'marcel.op.difference', 'marcel.op.redirect'],
      bounds={'quick': 'bags of 0..4 items (width 1 and 2, of any kind), two inputs; three inputs of 0..3 (union, intersect, through the '
                       'command line)', 'thorough': 'bags of 0..5 items'},
      assumptions=['hash() of symbolic items is constant, so that lookup is decided by equality alone'])
def p09(tier):
    q = tier == 'quick'
    N = 4 if q else 5
    cases = []
    for op in ('union', 'intersect', 'difference'):
        for n in range(N + 1):
            for m in range(N + 1):
                if n + m <= (7 if q else 9):
                    cases.append(case(f'{op}-{n}-{m}', bag, op, (n, m), 1, 'api'))
                    if n + m <= 4:
                        cases.append(case(f'{op}-pairs-{n}-{m}', bag, op, (n, m), 2, 'api'))
        for n, m in ((2, 1), (1, 2), (2, 2)):
            cases.append(case(f'{op}-mixed-{n}-{m}', bag, op, (n, m), 'mixed', 'api'))
        cases.append(case(f'{op}-cli', bag, op, (2, 2), 1, 'cli'))
        if op != 'difference':
            for sizes in ((2, 1, 2), (2, 2, 1), (2, 2, 0), (1, 2, 2)) + ((3, 2, 2), (2, 3, 2)) + (() if q else ((3, 3, 2), (3, 2, 3))):
                cases.append(case(f'{op}-3-{"".join(map(str, sizes))}', bag, op, sizes, 1, 'cli'))
    for op in ('intersect', 'difference'):
        for n, m in ((1, 0), (1, 1), (2, 1), (2, 2)):
            cases.append(case(f'{op}-unhashable-{n}-{m}', unhashable, op, n, m, reach=['killed']))
    return cases


# -- filter --------------------------------------------------------------------------------------------------------

def filt(c, n, m, mode, compare, how):
    a = d.api()
    left = tuples(c, 'l', n, 'mixed' if compare == 'mixed' else 2 if compare != 'none1' else 1)
    right = tuples(c, 'r', m, 'mixed' if compare == 'mixed' else 1 if compare == 'first' or compare == 'none1' else 2)
    f = {'none1': None, 'mixed': None, 'none2': None, 'first': (lambda x, y: x), 'swap': (lambda x, y: (y, x))}[compare]
    spec = {'none1': lambda t: t, 'mixed': lambda t: t, 'none2': lambda t: t, 'first': lambda t: (t[0],), 'swap': lambda t: (t[1], t[0])}[compare]
    if how == 'api':
        args = {}
        if mode == 'keep':
            args['keep'] = True
        if mode == 'discard':
            args['discard'] = True
        if f:
            args['compare'] = f
        out = d.gather(d.source([one(t) for t in left]) | a.filt(d.source([one(t) for t in right]), **args), unwrap=False)
    else:
        flags = {'keep': '-k', 'discard': '-d', 'default': ''}[mode]
        ff = {'none1': '', 'none2': '', 'first': '-c (x, y: x)', 'swap': '-c (x, y: (y, x))'}[compare]
        text = (f'{cli_source([one(t) for t in left], "L")} | filter {flags} {ff} '
                f'(| {cli_source([one(t) for t in right], "R")} |)')
        out = cli().gather(text, unwrap=False)
    expected = []
    for x in left:
        present = any(bool(same(spec(x), y)) for y in right)
        c.reach('present' if present else 'absent')
        if present != (mode == 'discard'):
            expected.append(x)
    expect(c, out, expected, f'filter {mode}')


@prop('P10', functions=['marcel.op.filter', 'marcel.util.wrap_op_input'],
      bounds={'quick': 'left of 0..4 and right of 0..3 unbounded integers (0..3 and 0..2 tuples, and with a comparison key; 2 and 2 of any kind)',
              'thorough': 'left 0..5, right 0..4'})
def p10(tier):
    q = tier == 'quick'
    cases = []
    for n in range(5 if q else 6):
        for m in range(4 if q else 5):
            for mode in ('default', 'keep', 'discard'):
                for compare in ('none1', 'none2', 'first', 'swap'):
                    if q and compare != 'none1' and (n > 3 or m > 2):
                        continue
                    reach = (('present', 'absent') if m else ('absent',)) if n else ()
                    cases.append(case(f'{mode}-{compare}-{n}-{m}', filt, n, m, mode, compare, 'api', reach=reach))
    for mode in ('default', 'keep', 'discard'):
        cases.append(case(f'{mode}-mixed', filt, 2, 2, mode, 'mixed', 'api'))
        for compare in ('none1', 'first', 'swap'):
            cases.append(case(f'cli-{mode}-{compare}', filt, 2, 2, mode, compare, 'cli', reach=('present', 'absent')))
    for op in ('filter', 'filter -d'):
        for n, m in ((1, 0), (1, 1), (2, 1), (2, 2)):
            cases.append(case(f'{op}-unhashable-{n}-{m}'.replace(' ', ''), unhashable, op, n, m, reach=['killed']))
    return cases


# -- case ----------------------------------------------------------------------------------------------------------

def op_case(c, n, branches, default, kind, how, truthy=False):
    """branches: number of (predicate, pipeline). Predicates are thresholds, which are symbolic"""
    a = d.api()
    xs = scalars(c, n)
    ts = [c.int(f't{i}') for i in range(branches)]
    if how == 'api':
        args = []
        for i in range(branches):
            args.append((lambda x, i=i: x - ts[i]) if truthy else (lambda x, i=i: x > ts[i]))
            args.append(a.map(lambda x, i=i: (i, x)) if kind == 'map' else
                        a.map(lambda x: x) | a.map(lambda x, i=i: (i, x)) if kind == 'maps' else
                        a.red(lambda acc, x: x if acc is None else acc + x) | a.map(lambda x, i=i: (i, x)))
        if default:
            args.append(a.map(lambda x: (branches, x)) if kind != 'red' else
                        a.red(lambda acc, x: x if acc is None else acc + x) | a.map(lambda x: (branches, x)))
        out = run(c, d.source(xs) | a.case(*args))
    else:
        bind('T', ts)
        def branch(i):
            return (f'(| map (x: ({i}, x)) |)' if kind == 'map' else
                    f'(| map (x: x) | map (x: ({i}, x)) |)' if kind == 'maps' else
                    f'(| red + | map (x: ({i}, x)) |)')
        text = cli_source(xs) + ' | case ' + ' '.join(f'(x: x {"-" if truthy else ">"} T[{i}]) {branch(i)}' for i in range(branches))
        if default:
            text += ' ' + branch(branches)
        out = cli().gather(text)
    routed = [[] for _ in range(branches + 1)]
    expected = []
    for x in xs:
        for i in range(branches):
            if (x != ts[i]) if truthy else (x > ts[i]):
                c.reach(f'branch{i}')
                break
        else:
            i = branches
            c.reach('no branch')
        routed[i].append(x)
        if i < branches or default:
            expected.append((i, x))
    if kind == 'red':
        expected = []
        for i in range(branches + (1 if default else 0)):
            expected.append((i, total(routed[i]) if routed[i] else None))
    expect(c, out, expected, 'case')


@prop('P11', functions=['marcel.op.case', 'marcel.op.redirect', 'marcel.pipeline'],
      bounds={'quick': 'streams of 0..4 integers, 1..3 branches with symbolic thresholds, with and without default, branches '
                       'that are stateless, multi-operator and stateful', 'thorough': 'streams of 0..5, 1..3 branches'},
      assumptions=['predicates are thresholds'])
def p11(tier):
    q = tier == 'quick'
    cases = []
    for n in range(5 if q else 6):
        for b in (1, 2, 3):
            for default in (False, True):
                for kind in ('map', 'maps', 'red'):
                    for how in ('api', 'cli'):
                        if n * b > (9 if q else 12):
                            continue
                        reach = tuple([f'branch{i}' for i in range(b)] + ['no branch']) if n > 0 else ()
                        cases.append(case(f'{how}-{kind}-{b}{"-default" if default else ""}-{n}', op_case, n, b,
                                          default, kind, how, reach=reach))
    for how in ('api', 'cli'):
        cases.append(case(f'{how}-truthy', op_case, 2, 2, True, 'map', how, True, reach=('branch0', 'branch1', 'no branch')))
    return cases


# -- args ----------------------------------------------------------------------------------------------------------

def op_args(c, n, k, all, how, kind):
    a = d.api()
    xs = stream(c, n, kind)
    if how == 'api':
        if all:
            out = d.gather(d.source(xs) | a.args(lambda p: a.gen(2) | a.map(lambda i: (i, p)), all=True))
        elif k == 1:
            out = d.gather(d.source(xs) | a.args(lambda p: a.gen(2) | a.map(lambda i: (i, p))))
        elif k == 2:
            out = d.gather(d.source(xs) | a.args(lambda p, q: a.gen(2) | a.map(lambda i: (i, p, q))))
        else:
            out = d.gather(d.source(xs) | a.args(lambda p, q, r: a.gen(2) | a.map(lambda i: (i, p, q, r))))
    else:
        params = ', '.join('pqr'[:k])
        text = f'{cli_source(xs)} | args {"-a" if all else ""} (| {params}: gen 2 | map (i: (i, {params})) |)'
        out = cli().gather(text)
    expected = []
    if all:
        groups = [[list(xs)]] if n else []
    else:
        groups = []
        for i in range(0, n, k):
            g = list(xs[i:i + k])
            if len(g) < k:
                c.reach('padded')
            groups.append(g + [None] * (k - len(g)))
    for g in groups:
        for i in range(2):
            expected.append(tuple([i] + g))
    expect(c, out, expected, 'args')


@prop('P12', functions=['marcel.op.args', 'marcel.op.redirect', 'marcel.pipeline (PipelineMarcel, PipelineFunction)',
                        'marcel.nestednamespace'],
      bounds={'quick': 'streams of 0..8 items (integers, pairs; 0..3 of any kind), 1..3 parameters, and --all',
              'thorough': 'streams of 0..13 items'})
def p12(tier):
    cases = []
    for n in range(9 if tier == 'quick' else 14):
        for how in ('api', 'cli'):
            for kind in ('scalar', 'pair'):
                for k in (1, 2, 3):
                    cases.append(case(f'{how}-{kind}-{k}-{n}', op_args, n, k, False, how, kind,
                                      reach=('padded',) if n % k else ()))
                cases.append(case(f'{how}-{kind}-all-{n}', op_args, n, 1, True, how, kind))
    for how in ('api', 'cli'):
        for k in (1, 2):
            cases.append(case(f'{how}-mixed-{k}', op_args, 3, k, False, how, 'mixed'))
        cases.append(case(f'{how}-mixed-all', op_args, 3, 1, True, how, 'mixed'))
    return cases
