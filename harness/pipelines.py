"""Pipelines: composition, end of stream, re-execution, parameters, errors, pos()."""
import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from vcore import case, prop
from streams import scalars, pairs, expect, permutation, run, cli, cli_source, bind, fold

# Each operator: (API, command line). T is a symbolic threshold, Y a second stream.


def plus(acc, x):
    return x if acc is None else acc + x


def counter(acc, x):
    return 1 if acc is None else acc + 1


OPS = {
    'head2': (lambda a, T, Y: a.head(2), 'head 2'),
    'head-1': (lambda a, T, Y: a.head(-1), 'head -1'),
    'tail2': (lambda a, T, Y: a.tail(2), 'tail 2'),
    'tail-1': (lambda a, T, Y: a.tail(-1), 'tail -1'),
    'sort': (lambda a, T, Y: a.sort(), 'sort'),
    'unique': (lambda a, T, Y: a.unique(), 'unique'),
    'uniquec': (lambda a, T, Y: a.unique(consecutive=True), 'unique -c'),
    'map': (lambda a, T, Y: a.map(lambda x: x + T), 'map (x: x + T)'),
    'pair': (lambda a, T, Y: a.map(lambda x: (x, x + T)), 'map (x: (x, x + T))'),
    'select': (lambda a, T, Y: a.select(lambda x: x > T), 'select (x: x > T)'),
    'reverse': (lambda a, T, Y: a.reverse(), 'reverse'),
    'squish': (lambda a, T, Y: a.map(lambda x: (x, T)) | a.squish(plus), 'map (x: (x, T)) | squish +'),
    'expand': (lambda a, T, Y: a.map(lambda x: (x, T)) | a.expand(), 'map (x: (x, T)) | expand'),
    'expand0': (lambda a, T, Y: a.map(lambda x: ([x, T], x)) | a.expand(0), 'map (x: ([x, T], x)) | expand 0'),
    'overlap': (lambda a, T, Y: a.window(overlap=2), 'window -o 2'),
    'disjoint': (lambda a, T, Y: a.window(disjoint=2), 'window -d 2'),
    'window': (lambda a, T, Y: a.window(lambda x: x > T), 'window (x: x > T)'),
    'red': (lambda a, T, Y: a.red(plus), 'red (acc, x: x if acc is None else acc + x)'),
    'redi': (lambda a, T, Y: a.red(plus, incremental=True), 'red -i +'),
    'group': (lambda a, T, Y: a.map(lambda x: (x, 1)) | a.red(None, plus), 'map (x: (x, 1)) | red . +'),
    'join': (lambda a, T, Y: a.map(lambda x: (x, T)) | a.join(d.source([(y, y) for y in Y])),
             'map (x: (x, T)) | join (| gen 2 | map (i: (Y[i], Y[i])) |)'),
    'joink': (lambda a, T, Y: a.map(lambda x: (x, T)) | a.join(d.source([(y, y) for y in Y]), keep=True),
              'map (x: (x, T)) | join -k (| gen 2 | map (i: (Y[i], Y[i])) |)'),
    'union': (lambda a, T, Y: a.union(d.source(Y)), 'union (| gen 2 | map (i: Y[i]) |)'),
    'intersect': (lambda a, T, Y: a.intersect(d.source(Y)), 'intersect (| gen 2 | map (i: Y[i]) |)'),
    'difference': (lambda a, T, Y: a.difference(d.source(Y)), 'difference (| gen 2 | map (i: Y[i]) |)'),
    'filter': (lambda a, T, Y: a.filt(d.source(Y)), 'filter (| gen 2 | map (i: Y[i]) |)'),
    'filterd': (lambda a, T, Y: a.filt(d.source(Y), discard=True), 'filter -d (| gen 2 | map (i: Y[i]) |)'),
    'case': (lambda a, T, Y: a.case(lambda x: x > T, a.map(lambda x: x + 1), a.red(plus)),
             'case (x: x > T) (| map (x: x + 1) |) (| red (acc, x: x if acc is None else acc + x) |)'),
    'args': (lambda a, T, Y: a.args(lambda p, q: a.gen(2) | a.map(lambda i: (p, q, i))),
             'args (| p, q: gen 2 | map (i: (p, q, i)) |)'),
    'argsall': (lambda a, T, Y: a.args(lambda p: a.gen(2) | a.map(lambda i: (tuple(p), i)), all=True),
                'args -a (| p: gen 2 | map (i: (tuple(p), i)) |)'),
}

# Operators accepting any items. The last ones detect a missing or repeated end of stream.
GENERIC = {
    'head2': OPS['head2'],
    'tail2': OPS['tail2'],
    'reverse': OPS['reverse'],
    'map': (lambda a, T, Y: a.map(lambda *x: x + (1,)), 'map (*x: x + (1,))'),
    'uniquec': OPS['uniquec'],
    'disjoint': OPS['disjoint'],
    'overlap': OPS['overlap'],
    'count': (lambda a, T, Y: a.map(lambda *x: 0) | a.red(counter),
              'map (*x: 0) | red (acc, x: 1 if acc is None else acc + 1)'),
    'union': (lambda a, T, Y: a.union(a.gen(1, -777)), 'union (| gen 1 -777 |)'),
    'argsall': (lambda a, T, Y: a.args(lambda p: a.gen(1) | a.map(lambda i: (len(p), i)), all=True),
                'args -a (| p: gen 1 | map (i: (len(p), i)) |)'),
    'case': (lambda a, T, Y: a.case(lambda *x: True, a.tail(1)), 'case (*x: True) (| tail 1 |)'),
}


def inputs(c, n):
    xs = c.lift(scalars(c, n))
    T = c.int('T')
    Y = c.lift([c.int('y0'), c.int('y1')])
    return xs, T, Y


def compose(c, f, n, third):
    """(source | f | g) yields the same as g applied to the output of (source | f)"""
    a = d.api()
    xs, T, Y = inputs(c, n)
    names = sorted(GENERIC)
    g = c.pick('g', names)
    h = c.pick('h', names) if third else None
    F, G = OPS[f][0], GENERIC[g][0]
    mid = d.gather(d.source(xs) | F(a, T, Y), unwrap=False)
    c.check(not any(d.is_error(x) for x in mid), f'{f} failed: {mid}')
    expected = d.gather(d.source(mid) | G(a, T, Y), unwrap=False)
    actual = d.gather(d.source(xs) | F(a, T, Y) | G(a, T, Y), unwrap=False)
    expect(c, actual, expected, f'{f} | {g}')
    if third:
        H = GENERIC[h][0]
        expected = d.gather(d.source(expected) | H(a, T, Y), unwrap=False)
        actual = d.gather(d.source(xs) | F(a, T, Y) | G(a, T, Y) | H(a, T, Y), unwrap=False)
        expect(c, actual, expected, f'{f} | {g} | {h}')
    if g == 'union':
        c.reach('union')
        c.check(len(actual) > 0 and (third or same(actual[-1], (-777,))), f'{f} | {g}: end of stream lost')


def once(c, f, n):
    """After each operator, exactly one end of stream, and after all items"""
    a = d.api()
    xs, T, Y = inputs(c, n)
    F = OPS[f][0]
    mid = d.gather(d.source(xs) | F(a, T, Y), unwrap=False)
    out = d.gather(d.source(xs) | F(a, T, Y) | a.union(a.gen(1, 12345)) | a.map(lambda *x: x), unwrap=False)
    expect(c, out, mid + [(12345,)], f'{f}, followed by union with a constant')


def cli_forms(c, f, n):
    """The command line and the API agree; a pipeline assigned to a variable does what its text does."""
    a = d.api()
    xs, T, Y = inputs(c, n)
    g = c.pick('g', ['union', 'count', 'tail2'])
    form = c.pick('form', ['text', 'var', 'vars', 'nested', 'all'])
    expected = d.gather(d.source(xs) | OPS[f][0](a, T, Y) | GENERIC[g][0](a, T, Y), unwrap=False)
    bind('T', T)
    bind('Y', Y)
    F, G = OPS[f][1], GENERIC[g][1]
    s = cli()
    src = cli_source(xs)
    if form == 'text':
        text = f'{src} | {F} | {G}'
    elif form == 'var':
        s.run(f'opF = (| {F} |)')
        text = f'{src} | opF | {G}'
    elif form == 'vars':
        s.run(f'opF = (| {F} |)')
        s.run(f'opG = (| {G} |)')
        text = f'{src} | opF | opG'
    elif form == 'nested':
        s.run(f'opF = (| {F} |)')
        s.run(f'opG = (| opF | {G} |)')
        text = f'{src} | opG'
    else:
        s.run(f'opF = (| {src} | {F} | {G} |)')
        text = 'opF'
    actual = s.gather(text, unwrap=False)
    expect(c, actual, expected, f'{form}: {text}')


@prop('P13', functions=['marcel.pipeline', 'marcel.core', 'marcel.op.* (stream operators)', 'marcel.op.runpipeline',
                        'marcel.parser'],
      bounds={'quick': 'all pairs of 30 operators followed by 11 operators that accept anything, streams of 0, 1, 3 '
                       'unbounded integers; command line forms for streams of 0 and 2',
              'thorough': 'triples of operators; streams of 0..4'},
      assumptions=['operator arguments (counts, window sizes) are fixed; thresholds and second inputs are symbolic'])
def p13(tier):
    q = tier == 'quick'
    cases = []
    for f in OPS:
        for n in ((0, 1, 3) if q else (0, 1, 2, 3, 4)):
            cases.append(case(f'compose-{f}-{n}', compose, f, n, False, reach=('union',)))
            cases.append(case(f'once-{f}-{n}', once, f, n))
        for n in ((0, 2) if q else (0, 1, 2, 3)):
            cases.append(case(f'cli-{f}-{n}', cli_forms, f, n))
        if not q:
            for n in (0, 2, 3):
                cases.append(case(f'compose3-{f}-{n}', compose, f, n, True))
    return cases


# -- re-execution --------------------------------------------------------------------------------------------------

def rerun_api(c, f, n):
    a = d.api()
    xs, T, Y = inputs(c, n)
    # The same pipeline on different data: the source depends on a mutable cell
    cell = [xs]
    alt = c.lift([c.int('z0'), c.int('z1')])
    src = a.gen(lambda: len(cell[0])) | a.map(lambda i: cell[0][i]) if n > 0 else None
    g = c.pick('g', ['union', 'count', 'map'])
    how = c.pick('how', ['again', 'other data', 'after first', 'shared', 'iter'])
    F, G = OPS[f][0], GENERIC[g][0]

    def fresh(data):
        return d.gather(d.source(data) | F(a, T, Y) | G(a, T, Y), unwrap=False)
    if src is None:
        src = d.source(xs)
        if how == 'other data':
            how = 'again'
    p = src | F(a, T, Y) | G(a, T, Y)
    if how == 'again':
        first = d.gather(p, unwrap=False)
        second = d.gather(p, unwrap=False)
        third = d.gather(p, unwrap=False)
        expected = fresh(xs)
        expect(c, first, expected, 'first execution')
        expect(c, second, expected, 'second execution')
        expect(c, third, expected, 'third execution')
    elif how == 'other data':
        first = d.gather(p, unwrap=False)
        cell[0] = alt
        second = d.gather(p, unwrap=False)
        cell[0] = xs
        third = d.gather(p, unwrap=False)
        expect(c, first, fresh(xs), 'first execution')
        expect(c, second, fresh(alt), 'second execution, on other data')
        expect(c, third, fresh(xs), 'third execution, on the data of the first')
    elif how == 'after first':
        # The first execution is abandoned
        try:
            with d.Capture():
                a.first(p)
        except BaseException as e:
            if isinstance(e, (AssertionError, TypeError, IndexError)):
                raise
        expect(c, d.gather(p, unwrap=False), fresh(xs), 'execution following first()')
    elif how == 'shared':
        # A pipeline extended in two ways, and then used by itself
        p = src | F(a, T, Y)
        q = p | G(a, T, Y)
        r = p | a.reverse()
        base = d.gather(d.source(xs) | F(a, T, Y), unwrap=False)
        expect(c, d.gather(r, unwrap=False), base[::-1], 'r = p | reverse')
        expect(c, d.gather(q, unwrap=False), fresh(xs), 'q = p | g, after r = p | reverse')
        expect(c, d.gather(p, unwrap=False), base, 'p, after q and r')
        expect(c, d.gather(q, unwrap=False), fresh(xs), 'q = p | g, again')
    else:
        expected = [x[0] if len(x) == 1 else x for x in fresh(xs)]
        expect(c, list(p), expected, 'first iteration')
        expect(c, list(p), expected, 'second iteration')
        it = iter(p)
        expect(c, list(p), expected, 'third iteration, second one not consumed yet')
        got = []
        while True:
            try:
                got.append(it.__next__())
            except StopIteration:
                break
        expect(c, got, expected, 'second iterator')


def rerun_cli(c, f, n):
    a = d.api()
    xs, T, Y = inputs(c, n)
    g = c.pick('g', ['union', 'count'])
    how = c.pick('how', ['again', 'args', 'twice in one command', 'as argument'])
    F, G = OPS[f][1], GENERIC[g][1]
    s = cli()
    bind('T', T)
    bind('Y', Y)
    src = cli_source(xs)
    s.run(f'opP = (| {src} | {F} | {G} |)')
    s.run(f'opQ = (| {F} | {G} |)')
    expected = s.gather(f'{src} | {F} | {G}', unwrap=False)
    if how == 'again':
        expect(c, s.gather('opP', unwrap=False), expected, 'first')
        expect(c, s.gather('opP', unwrap=False), expected, 'second')
        expect(c, s.gather(f'{src} | opQ', unwrap=False), expected, 'first, receiving input')
        expect(c, s.gather(f'{src} | opQ', unwrap=False), expected, 'second, receiving input')
    elif how == 'args':
        expect(c, s.gather('gen 3 | args (| u: opP |)', unwrap=False), expected * 3, 'once for each input')
        expect(c, s.gather(f'gen 2 | args (| u: {src} | opQ |)', unwrap=False), expected * 2, 'once for each input')
    elif how == 'twice in one command':
        expect(c, s.gather('opP | union opP', unwrap=False), expected + expected, 'union with itself')
        expect(c, s.gather(f'{src} | opQ | union (| {src} | opQ |)', unwrap=False), expected + expected, 'union with itself')
        mid = [x for x in expected]
        again = d.gather(d.source(mid) | a.map(lambda *x: 0) | a.red(counter), unwrap=False)
        expect(c, s.gather('opP | map (*x: 0) | red (acc, x: 1 if acc is None else acc + 1)', unwrap=False), again, 'count')
    else:
        expect(c, s.gather('gen 1 | select (x: False) | union opP', unwrap=False), expected, 'as an argument')
        expect(c, s.gather('gen 1 | select (x: False) | union opP', unwrap=False), expected, 'as an argument, again')
        expect(c, s.gather('opP', unwrap=False), expected, 'after being an argument')


@prop('P14', functions=['marcel.pipeline', 'marcel.core', 'marcel.op.*', 'marcel.op.runpipeline', 'marcel.op.args',
                        'marcel.op.union'],
      bounds={'quick': '30 operators, each followed by 2..3 others; executed 2 or 3 times, on the same and on other data, '
                       'after an abandoned execution, shared by two pipelines, as argument; streams of 0 and 2',
              'thorough': 'streams of 0..3'},
      assumptions=['operator arguments (counts, window sizes) are fixed; thresholds and second inputs are symbolic'])
def p14(tier):
    q = tier == 'quick'
    cases = []
    for f in OPS:
        for n in ((0, 2) if q else (0, 1, 2, 3)):
            cases.append(case(f'api-{f}-{n}', rerun_api, f, n))
            cases.append(case(f'cli-{f}-{n}', rerun_cli, f, n))
    return cases
