"""Operators called from Python: the same as their command lines"""
import contextlib
import functools
import os
import sys

import marceldrv as d
from symex import same, conj, disj, not_
from vcore import case, prop
from streams import cli, bind
from arguments import World, Connection

ABSENT = object()


class Param(object):
    """Name of the parameter (None: positional), the flag, and its values: (Python value, how it is written)"""

    def __init__(self, name, flag, *values):
        self.name, self.flag, self.values = name, flag, values


def switch(name, flag):
    return Param(name, flag, (ABSENT, None), (True, ''), (False, None))


def number(name=None, flag=None, required=False):
    return Param(name, flag, *([] if required else [(ABSENT, None)]), ('int', '(V{})'))


def values(name, flag, *xs, required=False):
    return Param(name, flag, *([] if required else [(ABSENT, None)]), *[(x, f"'{x}'" if isinstance(x, str) else str(x)) for x in xs])


def key(x):
    return x % 2 if x > 1 else 7


def even(x):
    return x % 2 == 0


FUNCTIONS = {'key': key, 'even': even, 'plus': lambda x, y: x + y, 'pair': lambda x: (x, key(x))}


def func(name, flag, *fs, required=False):
    return Param(name, flag, *([] if required else [(ABSENT, None)]), *[(FUNCTIONS[f], f'({"x, y" if f == "plus" else "x"}: F_{f}({"x, y" if f == "plus" else "x"}))') for f in fs])


def pipe(*texts, required=True):
    return Param(None, None, *([] if required else [(ABSENT, None)]), *[(lambda a, t=t: PIPES[t](a), f'(| {t} |)') for t in texts])


PIPES = {'gen 2': lambda a: a.gen(2), 'gen 3 1': lambda a: a.gen(3, 1), 'map (x: x)': lambda a: a.map(lambda x: x),
         'red +': lambda a: a.red(a.r_plus), 'window -o 2': lambda a: a.window(overlap=2)}

SOURCES = {'none': ('', None), 'gen': ('gen 4 | ', lambda a: a.gen(4)), 'xs': ('gen 3 | map (i: XS[i]) | ', lambda a: a.gen(3) | a.map(lambda i: XS[i])),
           'pairs': ('gen 3 | map (i: (XS[i], i)) | ', lambda a: a.gen(3) | a.map(lambda i: (XS[i], i))),
           'fixed': ('gen 3 | map (i: (i - 1, i)) | ', lambda a: a.gen(3) | a.map(lambda i: (i - 1, i))),
           'nested': ('gen 2 | map (i: (i, (XS[i], 5))) | ', lambda a: a.gen(2) | a.map(lambda i: (i, (XS[i], 5))))}
XS = []

# Operator in Python, operator, input, parameters
CALLS = [
    ('args', 'args', 'gen', [switch('all', '--all'), Param(None, None, (lambda a: (lambda n: a.map(lambda: n)), '(| n: map (: n) |)'))]),
    ('bash', 'bash', 'gen', [Param(None, None, ('cat', 'cat'), ('echo', 'echo')), values(None, None, '-', 'x y')]),
    ('case', 'case', 'xs', [Param(None, None, (even, '(x: F_even(x))')), pipe('map (x: x)', 'red +'), pipe('window -o 2', required=False)]),
    ('cd', 'cd', 'none', [values(None, None, 'd', 'nothing', 'f')]),
    ('difference', 'difference', 'gen', [pipe('gen 2', 'gen 3 1')]),
    ('dirs', 'dirs', 'none', [switch('clear', '-c')]),
    ('env', 'env', 'none', [values('delete', '-d', 'VAR'), values('pattern', '-p', 'VA'), switch('os', '-o'), values('var', None, 'VAR', 'nothing')]),
    ('expand', 'expand', 'nested', [number()]),
    ('filt', 'filter', 'xs', [switch('keep', '-k'), switch('discard', '-d'), func('compare', '-c', 'key'), pipe('gen 2')]),
    ('gen', 'gen', 'none', [values('pad', '-p', 0, 1, 2), Param(None, None, (3, '3'), (10, '10'), (-1, '(-1)')), number()]),
    ('gen', 'gen', 'none', [Param('count', None, (3, '3')), Param('start', None, (ABSENT, None), (-2, '(-2)'), (5, '5'))]),
    ('head', 'head', 'xs', [number(required=True)]),
    ('intersect', 'intersect', 'gen', [pipe('gen 2', 'gen 3 1'), pipe('gen 3 1', required=False)]),
    ('join', 'join', 'pairs', [switch('keep', '-k'), pipe('gen 2', 'gen 3 1')]),
    ('ls', 'ls', 'none', [Param('depth', None, (ABSENT, None), (0, '-0'), (1, '-1')), switch('recursive', '-r'), values(None, None, 'd')]),
    ('ls', 'ls', 'none', [switch('file', '-f'), switch('dir', '-d'), switch('symlink', '-s'), values(None, None, 'd', 'f'), values(None, None, 'f', 'nothing', '*')]),
    ('map', 'map', 'xs', [func(None, None, 'key', 'pair', required=True)]),
    ('ps', 'ps', 'none', [Param('user', '-u', (ABSENT, None), (None, ''), ('root', 'root'), (77, '77')), Param('group', '-g', (ABSENT, None), (None, ''), ('root', 'root')),
                          values('pid', '-p', 77), values('command', '-c', 'ab')]),
    ('pushd', 'pushd', 'none', [values(None, None, 'd', 'nothing')]),
    ('popd', 'popd', 'none', []),
    ('pwd', 'pwd', 'none', []),
    ('read', 'read', 'none', [switch('csv', '-c'), switch('tsv', '-t'), switch('pickle', '-p'), switch('json', '-j'), values(None, None, 'f', 'd')]),
    ('read', 'read', 'none', [switch('csv', '-c'), switch('headings', '-h'), switch('skip_headings', '-s'), switch('label', '-l'), values(None, None, 'f', required=True)]),
    ('read', 'read', 'none', [Param('depth', None, (ABSENT, None), (0, '-0'), (1, '-1')), switch('recursive', '-r'), values(None, None, 'd')]),
    ('red', 'red', 'pairs', [switch('incremental', '-i'), Param(None, None, (None, '.'), (lambda a: a.r_plus, '+')), Param(None, None, (ABSENT, None), (lambda a: a.r_plus, '+'))]),
    ('reverse', 'reverse', 'xs', []),
    ('select', 'select', 'xs', [func(None, None, 'even', required=True)]),
    ('sort', 'sort', 'xs', [func(None, None, 'key')]),
    ('sql', 'sql', 'none', [values('db', '-d', 'DB_X', 'nothing'), switch('autocommit', '-a'), switch('update_counts', '-u'), values('commit', '-c', 1),
                            values(None, None, 'select x', 'insert x', required=True), values(None, None, 'y', 5)]),
    ('sql', 'sql', 'gen', [switch('autocommit', '-a'), switch('update_counts', '-u'), values('commit', '-c', 0, 1, 2), values(None, None, 'update x', 'insert x', required=True)]),
    ('squish', 'squish', 'pairs', [func(None, None, 'plus')]),
    ('store', 'store', 'gen', [switch('append', '-a'), values(None, None, 'R', 'a b', 'VAR', required=True)]),
    ('tail', 'tail', 'xs', [number(required=True)]),
    ('timer', 'timer', 'none', [Param(None, None, (1, '1'), (2.5, '2.5'), (-1, '(-1)'))]),
    ('trace', 'trace', 'none', [switch('off', '-0'), switch('on', '-1'), values('file', '-f', 'new')]),
    ('union', 'union', 'gen', [pipe('gen 2'), pipe('gen 3 1', required=False)]),
    ('unique', 'unique', 'xs', [switch('consecutive', '-c')]),
    ('version', 'version', 'none', []),
    ('window', 'window', 'xs', [number('overlap', '-o'), number('disjoint', '-d'), func('predicate', None, 'even')]),
    ('write', 'write', 'fixed', [switch('csv', '-c'), switch('tsv', '-t'), switch('pickle', '-p'), values('format', '-f', '{}:{}'), switch('append', '-a'),
                                 values('filename', None, 'out')]),
]


@contextlib.contextmanager
def python_session(s):
    """Python calling marcel, with the variables, current directory etc. of s"""
    a = d.api()
    a.gather(a.gen(1))
    saved = a._ENV, a._MAIN
    a._ENV, a._MAIN = s.env, s.main
    try:
        yield a
    finally:
        a._ENV, a._MAIN = saved


def observe(s, run):
    """Output, whether it was rejected, effects"""
    import marcel.exception
    with World(s) as w:
        try:
            out, messages = run()
        except (d.Killed, marcel.exception.KillCommandException, AssertionError) as e:
            return [], True, w.state()
        # How functions are described by Errors differs
        return [x if isinstance(x, (bool, int, float, tuple, list)) else 'Error' if d.is_error(x) else str(x) for x in out], bool(messages), w.state()


def build(c, i, concrete=False):
    """A command: any combination of parameters of an operator"""
    name, op, source, params = CALLS[i]
    positional, named, flags, args = [], {}, [], []
    del XS[:]
    if concrete:
        XS.extend((c.pick('x0', (0, 3)), 2, 1))
    else:
        XS.extend(c.ints('x', 3))
        for x in XS:
            c.assume(conj([x >= -1, x <= 3]))
    bind('XS', XS)
    for f in FUNCTIONS:
        bind('F_' + f, FUNCTIONS[f])
    for j, p in enumerate(params):
        value, written = p.values[c.pick(f'p{j}', list(range(len(p.values))))]
        if value is ABSENT:
            if p.name is None and p.flag is None:
                break
            continue
        if isinstance(value, str) and value == 'int':
            value = c.small(f'v{j}', -2, 4) if concrete else c.int(f'v{j}')
            c.assume(conj([value >= -2, value <= 4]))
            bind(f'V{j}', value)
            written = written.format(j)
        if p.name is None:
            positional.append(value)
        else:
            named[p.name] = value
        if written is None:
            continue
        words = [p.flag] if p.flag and written is not None else []
        if written:
            words.append(written)
        (flags if p.flag or written.startswith('-') and p.name else args).extend(words)
    head, source_op = SOURCES[source]
    command = head + ' '.join([op] + flags + args)

    return name, command, source_op, positional, named


def call(c, i):
    """Any combination of parameters"""
    s = cli()
    name, command, source_op, positional, named = build(c, i)

    def by_command():
        return s.gather(command), False

    def by_call():
        with python_session(s) as a:
            def value_of(x):
                return x(a) if getattr(x, '__name__', '') == '<lambda>' and 'a' in x.__code__.co_varnames[:1] else x
            p = getattr(a, name)(*[value_of(x) for x in positional], **{k: value_of(x) for k, x in named.items()})
            if source_op:
                p = source_op(a) | p
            with d.Capture() as capture:
                out = a.gather(p)
            return out, capture.stderr()
    called = observe(s, by_call)
    typed = observe(s, by_command)
    shown = f'{name}({positional}, {named})'
    if called[1] or typed[1]:
        c.reach('rejected')
        c.check(called[1] == typed[1], f'{shown}: rejected: {called[1]}\n   {command}: rejected: {typed[1]} {typed}')
        return
    c.reach('accepted')
    c.check(conj([called[2] == typed[2], same(called[0], typed[0])]), f'{shown}: {called}\n   {command}: {typed}')


# -- Running pipelines -----------------------------------------------------------------------------------------------

def consumers(c, n, stop):
    """gather, first, iteration, run: the same items"""
    s = cli()
    xs = c.ints('x', n)
    fails = [c.flag(f'fails{i}') for i in range(n)]
    wide = c.pick('wide', [False, True])

    def f(i):
        if fails[i]:
            raise ValueError('x')
        return (xs[i], i) if wide else xs[i]
    import marcel.object.error
    is_error = lambda x: type(x) is marcel.object.error.Error
    with python_session(s) as a:
        def p():
            p = (a.gen(n) if n else a.gen(1) | a.select(lambda x: False)) | a.map(f)
            return p | a.map(lambda *x: x) if stop else p
        with d.Capture():
            everything = a.gather(p())
            wrapped = a.gather(p(), unwrap_singleton=False)
            iterated = list(p())
            iterator = iter(p())
            again = list(iterator)
            errors = []
            values = a.gather(p(), errors=errors)
        expected = [None if fails[i] else (xs[i], i) if wide else xs[i] for i in range(n)]
        for which, out in (('gather', everything), ('iteration', iterated), ('iterator', again)):
            if which != 'gather' and not wide:
                # Single values are not unwrapped, or are
                out = [x[0] if type(x) is tuple and len(x) == 1 else x for x in out]
            c.check(conj([len(out) == n] + [is_error(o) if e is None else not is_error(o) and same(o, e) for o, e in zip(out, expected)]),
                    f'{which}: {out}, expected {expected}')
        c.check(conj([len(wrapped) == n] + [is_error(o) if e is None else same(o, e if wide else (e,)) for o, e in zip(wrapped, expected)]),
                f'gather(unwrap_singleton=False): {wrapped}, expected {expected}')
        good = [e for e in expected if e is not None]
        c.check(conj([len(values) == len(good), same(values, good), len(errors) == n - len(good), all(map(is_error, errors))]),
                f'gather(errors): {values} {errors}, expected {expected}')
        # first
        with d.Capture():
            try:
                x = a.first(p())
                raised = False
            except Exception as e:
                raised = True
            errors = []
            y = a.first(p(), errors=errors)
        if n and expected[0] is None:
            c.reach('error')
            c.check(raised, f'first: {expected}')
        else:
            c.reach('value')
            c.check(not raised and (x is None if n == 0 else bool(same(x, expected[0]))), f'first: {expected}')
        c.check(y is None if not good else bool(same(y, good[0])), f'first(errors): {y}, expected {good}')
        before = [is_error(x) for x in errors]
        c.check(all(before) and len(errors) == ([e is None for e in expected] + [False]).index(False), f'first(errors): {errors}')
        with d.Capture() as capture:
            a.run(p())
        lines = capture.stdout().split('\n')[:-1]
        c.check(len(lines) == n, f'run: {lines}')


@prop('P32', functions=['marcel.api', 'marcel.op.*', 'marcel.pipeline.PipelineOpList', 'marcel.pipeline.PipelineIterator', 'marcel.op.apiop.APIOp'],
      bounds={'quick': 'all functions of the API that have local effects: any combination of parameters out of those listed, any integers; pipelines of 0..3 '
                       'items, each of which may be an Error',
              'thorough': 'pipelines of 0..5 items'},
      assumptions=['the driver of the database, the list of processes and the clock of timer are simulated',
                   'cast, fork, load, download, remote, sudo, upload: see P06, P23, P33, P38'], strings=False)
def p32(tier):
    cases = [case(f'{i}-{name}', call, i) for i, (name, *_) in enumerate(CALLS)]
    for n in range(4 if tier == 'quick' else 6):
        for stop in (False, True):
            cases.append(case(f'consumers-{n}-{stop}', consumers, n, stop))
    return cases
