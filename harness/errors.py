"""Errors: a failing item is reported as one Error, and affects nothing else. A failing command affects no other command."""
import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from vcore import case, prop
from streams import scalars, pairs, expect, cli, cli_source, bind
from pipelines import OPS, GENERIC, inputs, plus, counter


class Custom(Exception):
    pass


EXCEPTIONS = [ValueError, KeyError, ZeroDivisionError, AttributeError, AssertionError, StopIteration, Custom]


def failing(c, xs):
    """A function that fails on some items (which ones is symbolic), and the list saying which ones those are"""
    bad = [c.bool(f'bad{i}') for i in range(len(xs))]
    exception = c.pick('exception', EXCEPTIONS)

    def f(i):
        if bad[i]:
            raise exception(f'item {i}')
        return xs[i]
    return f, bad


# Each operator: API given a function f failing on some positions (items are positions), command line, and what is
# output for a good item (None: nothing).
ITEM_OPS = {
    'map': (lambda a, f: a.map(f), 'map (i: f(i))', lambda i, x: [x]),
    'maptuple': (lambda a, f: a.map(lambda i: (i, f(i))), 'map (i: (i, f(i)))', lambda i, x: [(i, x)]),
    'select': (lambda a, f: a.select(lambda i: f(i) > 0), 'select (i: f(i) > 0)', lambda i, x: [i] if x > 0 else []),
    'squish': (lambda a, f: a.map(lambda i: (0, i)) | a.squish(lambda acc, i: f(i) if acc is not None else i),
               'map (i: (0, i)) | squish (acc, i: f(i) if acc is not None else i)', lambda i, x: [x]),
    'expand': (lambda a, f: a.map(lambda i: [f(i), i]) | a.expand(), 'map (i: [f(i), i]) | expand', lambda i, x: [x, i]),
    'case': (lambda a, f: a.case(lambda i: f(i) > 0, a.map(lambda i: i + 100), a.map(lambda i: i + 200)),
             'case (i: f(i) > 0) (| map (i: i + 100) |) (| map (i: i + 200) |)',
             lambda i, x: [i + 100] if x > 0 else [i + 200]),
    'branch': (lambda a, f: a.case(lambda i: True, a.map(f)), 'case (i: True) (| map (i: f(i)) |)', lambda i, x: [x]),
    'args': (lambda a, f: a.args(lambda p: a.gen(2) | a.map(lambda j: (j, f(p)))),
             'args (| p: gen 2 | map (j: (j, f(p))) |)', lambda i, x: [(0, x), (1, x)]),
    'filter': (lambda a, f: a.filt(a.gen(1, 7), compare=lambda i: 7 if f(i) > 0 else 8),
               'filter -c (i: 7 if f(i) > 0 else 8) (| gen 1 7 |)', lambda i, x: [i] if x > 0 else []),
    'pos': (lambda a, f: a.map(lambda i: (f(i), a.pos())), 'map (i: (f(i), pos()))', lambda i, x: [(x, i)]),
    'run': (lambda a, f: a.map(f) | a.map(lambda x: x), 'map (i: f(i)) | map (x: x)', lambda i, x: [x]),
}


def item_errors(c, op, n, form):
    """In place of the output for a failing item, there is an Error"""
    a = d.api()
    xs = scalars(c, n)
    f, bad = failing(c, xs)
    F, text, result = ITEM_OPS[op]
    indices = list(range(n))
    if form == 'api':
        out = d.gather(d.source(indices) | F(a, f))
    else:
        bind('f', f)
        if form == 'var':
            cli().run(f'opF = (| {text} |)')
            text = 'opF'
        out = cli().gather(f'{cli_source(indices)} | {text}')
    expected = []
    for i in indices:
        if bad[i]:
            c.reach('error')
            # args runs map twice
            expected.extend([None] * (2 if op == 'args' else 1))
        else:
            c.reach('ok')
            expected.extend(result(i, xs[i]))
    c.check(len(out) == len(expected), f'{op}: {len(expected)} outputs expected, got {out}')
    for x, y in zip(out, expected):
        c.check(d.is_error(x) == (y is None), f'{op}: expected {expected}, got {out}')
    good = [(x, y) for x, y in zip(out, expected) if y is not None]
    c.check(same([x for x, _ in good], [y for _, y in good]), f'{op}: expected {expected}, got {out}')


def split(out):
    return [x for x in out if not d.is_error(x)], sum(1 for x in out if d.is_error(x))


def bypass(c, op, n, form):
    """Errors pass by the operators after the failing one, which process the other items as if there were no others"""
    a = d.api()
    xs, T, Y = inputs(c, n)
    f, bad = failing(c, xs)
    good = [xs[i] for i in range(n) if not bad[i]]
    n_bad = n - len(good)
    expected = d.gather(d.source(good) | OPS[op][0](a, T, Y), unwrap=False)
    c.check(split(expected)[1] == 0, 'no errors expected')
    if form == 'api':
        out = d.gather(d.source(list(range(n))) | a.map(f) | OPS[op][0](a, T, Y), unwrap=False)
    else:
        bind('f', f)
        bind('T', T)
        bind('Y', Y)
        out = cli().gather(f'{cli_source(list(range(n)))} | map (i: f(i)) | {OPS[op][1]}', unwrap=False)
    values, errors = split(out)
    c.check(errors == n_bad, f'map | {op}: {n_bad} items failed, {errors} Errors: {out}')
    c.check(same(values, expected), f'map | {op}: expected {expected} and {n_bad} Errors, got {out}')
    if n_bad:
        c.reach('error')


def predicate_errors(c, op, n):
    """Operators with state: items that fail count as absent"""
    a = d.api()
    xs, T, Y = inputs(c, n)
    f, bad = failing(c, xs)
    good = [i for i in range(n) if not bad[i]]
    if op == 'window':
        def F(g):
            return a.window(lambda i: g(i) > T)
    elif op == 'red':
        def F(g):
            return a.red(lambda acc, i: i + (0 if acc is None else acc + 0 * g(i)))
    elif op == 'redgroup':
        def F(g):
            return a.map(lambda i: (i % 2, i)) | a.red(None, lambda acc, i: (0 * g(i) + i) + (0 if acc is None else acc))
    elif op == 'filterd':
        def F(g):
            return a.filt(a.gen(1, 7), discard=True, compare=lambda i: 7 if g(i) > 0 else 8)
    expected = d.gather(d.source(good) | F(lambda i: xs[i]), unwrap=False)
    out = d.gather(d.source(list(range(n))) | F(f), unwrap=False)
    values, errors = split(out)
    if op == 'red':
        # An accumulator of None means that it is the first item, which isn't passed to f.
        acc, n_errors = None, 0
        for i in range(n):
            if acc is None:
                acc = i
            elif bad[i]:
                n_errors += 1
            else:
                acc = acc + i
        c.check(errors == n_errors, f'{op}: {n_errors} items failed, got {out}')
        c.check(same(values, [(acc,)]), f'{op}: expected {acc}, got {out}')
        return
    c.check(errors == n - len(good), f'{op}: {n - len(good)} items failed, got {out}')
    c.check(same(values, expected), f'{op}: expected {expected}, got {out}')


def other_commands(c, n):
    """A command that is killed does nothing, is reported, and has no effect on commands before and after it."""
    a = d.api()
    xs = scalars(c, n)
    s = cli()
    ran = []

    def seen(x):
        ran.append(x)
        return x
    bind('seen', seen)

    def boom(*args):
        raise c.pick('exception', EXCEPTIONS)('boom')
    bind('boom', boom)
    src = cli_source(xs)
    bad = c.pick('bad', ['head (boom())', 'tail (boom())', 'window -o (boom())', 'gen (boom()) | map (x: x)', 'expand (boom())',
                         'nosuchop', 'map', 'head 0', 'sort (', 'map (x: x', 'head x', 'head -x 3', 'unique -z', 'gen a',
                         'case (x: x)', 'join', 'head 1 2', 'window -o 1 -d 1', 'args (| gen 3 |)', 'red nosuch'])
    before = s.gather(src, unwrap=False)
    out, err = s.run(f'{src} | map (x: seen(x)) | {bad}')
    c.check(err + out != '', f'{bad}: no error reported')
    c.check(ran == [], f'{bad}: killed, but executed: {ran}')
    expect(c, s.gather(src, unwrap=False), before, f'command following {bad}')
    c.check(len(before) == n and same([x[0] for x in before], xs), 'before')


@prop('P16', functions=['marcel.core.Op', 'marcel.op.*', 'marcel.object.error', 'marcel.pipeline', 'marcel.op.apiop'],
      bounds={'quick': 'streams of 0..3 items, any subset of which fail, with one of 7 exception types; 10 per-item operators in '
                       'three forms; 30 operators downstream of the failure; 20 ways of killing a command',
              'thorough': 'streams of 0..4 items'},
      assumptions=['the failing function is deterministic, and raises a subclass of Exception'])
def p16(tier):
    q = tier == 'quick'
    cases = []
    for n in range(4 if q else 5):
        r = ('error', 'ok') if n > 0 else ()
        for op in ITEM_OPS:
            for form in ('api', 'text', 'var'):
                if n == 3 and form == 'var' and q:
                    continue
                cases.append(case(f'item-{op}-{form}-{n}', item_errors, op, n, form, reach=r))
        for op in ('window', 'red', 'redgroup', 'filterd'):
            cases.append(case(f'predicate-{op}-{n}', predicate_errors, op, n))
        for op in OPS:
            if q and n not in (1, 2, 3):
                continue
            for form in ('api', 'text'):
                if n == 3 and form == 'text' and q:
                    continue
                cases.append(case(f'bypass-{op}-{form}-{n}', bypass, op, n, form, reach=('error',) if n else ()))
    for n in ((0, 2) if q else (0, 1, 2, 3)):
        cases.append(case(f'kill-{n}', other_commands, n))
    return cases
