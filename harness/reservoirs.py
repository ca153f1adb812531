"""Reservoirs: streams stored in variables, and files of pickled items"""
import os
import shutil

import marceldrv as d
from symex import same
from vcore import case, prop
from streams import cli, bind, expect, cli_source
from files import directory

VARS = ('resA', 'resB')
# What happened to a reservoir is not specified
UNKNOWN = 'unknown'


def fresh(s, variables=VARS):
    for var in variables:
        if s.env.hasvar(var):
            value = s.env.getvar(var)
            if hasattr(value, 'ensure_deleted'):
                value.close()
                value.ensure_deleted()
            s.env.delvar(var)


def killed(s, text):
    try:
        s.gather(text)
        return False
    except d.Killed:
        return True


def load(c, s, var, expected, how):
    """The contents of a reservoir, by several ways to load it"""
    n = len(expected)
    if how == 'load':
        out = s.gather(f'load {var} | map (x: x)')
    elif how == 'symbol':
        out = s.gather(f'{var} <$')
    elif how == 'union':
        out = s.gather(f'{var} <$ union (| {var} <$ |)')
        expected = expected + expected
    elif how == 'nested':
        out = s.gather(f'{var} <$ args (| x: {var} <$ map (y: (x, y)) |)')
        expected = [(x, y) for x in expected for y in expected]
    elif how == 'join':
        # Readers that are open at the same time
        out = s.gather(f'{var} <$ map (x: (1, x)) | join (| {var} <$ map (y: (1, y)) |)')
        expected = [(1, x, y) for x in expected for y in expected]
    else:
        out = s.gather(f'{var} <$ head 1')
        expected = expected[:1]
    expect(c, out, expected, f'{var} {how}')


STEPS = ('store', 'append', 'copy', 'copyappend', 'self', 'selfappend', 'setup', 'loadsetup', 'case', 'branches', 'nested', 'unpicklable')


def step(c, s, i, name, state):
    """state: variable -> contents, or None"""
    v, w = VARS if i > 0 and c.flag(f'swap{i}') else VARS[::-1]
    if name in ('store', 'append', 'branches', 'nested', 'unpicklable'):
        k = c.pick(f'n{i}', [0, 2] if i == 0 else [0, 1])
        xs = [c.int(f'x{i}_{j}') for j in range(k)]
        bind(f'XS{i}', xs)
        source = cli_source(xs, f'XS{i}')
    if name == 'store':
        out = s.gather(f'{source} >$ {v}' if i == 0 else f'{source} | store {v}')
        c.check(out == [], f'store has output: {out}')
        state[v] = xs
    elif name == 'append':
        s.gather(f'{source} >>$ {v}' if i == 1 else f'{source} | store -a {v}')
        if state[v] != UNKNOWN:
            state[v] = (state[v] or []) + xs
    elif name in ('copy', 'copyappend'):
        if state[v] is None:
            # Otherwise, the contents of w are not specified
            c.check(killed(s, f'{v} <$ map (x: x)'), f'{v} was loaded, but it is not defined')
            return
        s.gather(f'{v} <$ {">>$" if name == "copyappend" else ">$"} {w}')
        if name == 'copy':
            state[w] = state[v]
        else:
            state[w] = UNKNOWN if UNKNOWN in (state[v], state[w]) else (state[w] or []) + state[v]
    elif name in ('self', 'selfappend'):
        c.check(killed(s, f'{v} <$ {">>$" if name == "selfappend" else ">$"} {v}'), 'a reservoir was read and written at once')
        c.reach('rejected')
    elif name == 'setup':
        # The command fails before anything is stored
        c.check(killed(s, f'gen 2 | head 0 | store {v}'), 'head 0')
    elif name == 'loadsetup':
        c.check(killed(s, f'load {v} | head 0'), 'head 0')
    elif name == 'case':
        c.check(killed(s, f'gen 2 | case (x: x == 0) (| store {v} |) (| store {v} |)'), 'a reservoir was written twice at once')
        state[v] = UNKNOWN
        c.reach('rejected')
    elif name == 'branches':
        s.gather(f'{source} | case (x: x > 0) (| store {v} |) (| store {w} |)')
        state[v] = [x for x in xs if x > 0]
        state[w] = [x for x in xs if not x > 0]
    elif name == 'nested':
        s.gather(f'{source} | args (| x: gen 1 | map (i: x) >>$ {v} |)')
        # No items: the nested pipeline is not run
        if xs and state[v] != UNKNOWN:
            state[v] = (state[v] or []) + xs
    elif name == 'unpicklable':
        bad = [c.flag(f'bad{i}_{j}') for j in range(k)]
        bind(f'BAD{i}', bad)
        # A generator cannot be pickled
        out = s.gather(f'gen {k + 1} | select (j: j < {k}) | map (j: (x for x in [1]) if BAD{i}[j] else XS{i}[j]) | store {v}')
        c.check(len(out) == sum(bad) and all(d.is_error(x) for x in out), f'{sum(bad)} errors expected: {out}')
        state[v] = [x for x, b in zip(xs, bad) if not b]


def history(c, steps):
    """Reservoirs after any history of commands on them, including some that fail"""
    s = cli()
    fresh(s)
    state = {v: None for v in VARS}
    try:
        for i, name in enumerate(steps):
            step(c, s, i, name, state)
        how = c.pick('how', ['load', 'symbol', 'union', 'nested', 'join', 'first'])
        for v in VARS:
            if state[v] is None:
                c.check(killed(s, f'{v} <$'), f'{v} was loaded, but it is not defined')
            elif state[v] == UNKNOWN:
                s.gather(f'{v} <$')
            else:
                load(c, s, v, state[v], how)
        # Still usable
        for v in VARS:
            s.gather(f'gen 1 >>$ {v}')
            if state[v] != UNKNOWN:
                expect(c, s.gather(f'{v} <$'), (state[v] or []) + [0], f'{v} appended to')
    finally:
        fresh(s)
    c.reach('done')


def api_history(c, steps):
    """The same for the API"""
    a = d.api()
    r, q = a.reservoir('r'), a.reservoir('q')
    state = {0: [], 1: []}
    rs = (r, q)
    try:
        for i, name in enumerate(steps):
            v = 1 if c.flag(f'swap{i}') else 0
            k = c.small(f'n{i}', 0, 2)
            xs = [c.int(f'x{i}_{j}') for j in range(k)]
            if name == 'store':
                d.gather(d.source(xs) | a.store(rs[v]))
                state[v] = xs
            elif name == 'append':
                d.gather(d.source(xs) | a.store(rs[v], append=True))
                state[v] = state[v] + xs
            elif name == 'copy':
                d.gather(a.load(rs[v]) | a.store(rs[1 - v], append=True))
                state[1 - v] = state[1 - v] + state[v]
            elif name == 'first':
                # Not read to the end
                x = a.first(a.load(rs[v])) if state[v] else None
                c.check(not state[v] or same(x, state[v][0]), f'first: {x}')
            elif name == 'fails':
                try:
                    d.gather(a.load(rs[v]) | a.head(lambda: 0))
                    c.fail('head 0')
                except d.Killed:
                    pass
            elif name == 'self':
                try:
                    d.gather(a.load(rs[v]) | a.store(rs[v]))
                    c.fail('a reservoir was read and written at once')
                except d.Killed:
                    pass
        for v in (0, 1):
            out = d.gather(a.load(rs[v]) | a.union(a.load(rs[v])))
            expect(c, out, state[v] + state[v], f'reservoir {v}')
    finally:
        for x in rs:
            x.close()
            x.ensure_deleted()
            a._RESERVOIRS.remove(x)
    c.reach('done')


def shared(c, how, n1, n2):
    """Items that share values, and values that change after they have been stored"""
    s = cli()
    fresh(s)
    path = os.path.join(directory(c), 'f')
    kinds = ['same', 'pair', 'before', 'growing', 'int']
    items = []
    K = []
    L = [[c.int(f'a{i}')] for i in range(n1 + n2)]
    growing = []
    expected = []
    total = []
    for i in range(n1 + n2):
        kind = c.pick(f'kind{i}', kinds)
        K.append(kind)
        expected.append((i, L[i], L[i]) if kind == 'same' else
                        (i, (L[i], 'text'), L[0]) if kind == 'pair' else
                        (i, L[max(i - 1, 0)], 'text') if kind == 'before' else
                        (i, list(total) + [i]) if kind == 'growing' else
                        (i, L[i][0]))
        if kind == 'growing':
            total.append(i)

    def item(i):
        kind = K[i]
        if kind == 'growing':
            growing.append(i)
        return ((i, L[i], L[i]) if kind == 'same' else
                (i, (L[i], 'text'), L[0]) if kind == 'pair' else
                (i, L[max(i - 1, 0)], 'text') if kind == 'before' else
                (i, growing) if kind == 'growing' else
                (i, L[i][0]))
    bind('ITEM', item)
    store, append, read = {'reservoir': ('>$ resA', '>>$ resA', 'resA <$'),
                           'file': (f'| write -p {path}', f'| write -p -a {path}', f'read -p {path}')}[how]
    try:
        s.gather(f'gen {n1} | map (i: ITEM(i)) {store}')
        if n2:
            s.gather(f'gen {n2} {n1} | map (i: ITEM(i)) {append}')
        out = s.gather(read)
        expect(c, out, expected, how)
        for x, kind in zip(out, K):
            if kind == 'same':
                c.check(x[1] is x[2], 'An object contained twice in an item is two objects')
    finally:
        fresh(s)
    c.reach('done')


def damaged(c, how, n):
    """read --pickle, --json: files with invalid contents among others"""
    s = cli()
    dir = directory(c)
    values = []
    valid = []
    for i in range(n):
        path = os.path.join(dir, f'f{i}')
        ok = c.flag(f'ok{i}')
        valid.append(ok)
        x = c.int(f'x{i}')
        bind(f'X{i}', x)
        if how == 'pickle':
            k = c.small(f'k{i}', 0, 2)
            s.gather(f'gen 3 | select (j: j < {k}) | map (j: X{i} + j) | write -p {path}')
            values.append([x + j for j in range(k)])
            if not ok:
                rest = c.pick(f'bad{i}', [b'text\n', b'\x80', b'\x80\x04\x8c', b'(', b'cnosuch\nname\n.', b'\xff'])
                with open(path, 'ab') as f:
                    f.write(rest)
        else:
            text = c.pick(f'text{i}', ['1', '[1, "a"]', '{"a": null}'] if ok else ['', '{', '[1', 'abc', '{a: 1}', '[' * 100000, '1 2', "{'a': 1}"])
            with open(path, 'w') as f:
                f.write(text)
            values.append([{'1': 1, '[1, "a"]': [1, 'a'], '{"a": null}': None}[text]] if ok else [])
    label = c.flag('label')
    flag = {'pickle': '-p', 'json': '-j'}[how]
    source = f'read {flag}{"l" if label else ""} {dir}/f*' if c.flag('names') else f'ls -f {dir}/f* | read {flag}{"l" if label else ""}'
    out = s.gather(source, unwrap=False)
    errors = [x for x in out if d.is_error(x) or type(x) is tuple and len(x) == 1 and d.is_error(x[0])]
    c.check(len(errors) == valid.count(False), f'{valid.count(False)} errors expected: {out}')
    out = [x for x in out if not any(x is e for e in errors)]
    if label:
        c.check([x[0].name for x in out] == [f'f{i}' for i in range(n) for x in values[i]], f'labels: {out}')
        out = [x[1:] for x in out]
    flat = [x for i in range(n) for x in values[i]]
    c.check(len(out) == len(flat), f'{out}, expected {flat}')
    for x, y in zip(out, flat):
        x = tuple(x)
        c.check(same(x, (y,)) or type(y) is list and same(x, tuple(y)) or y is None and x[0].a is None, f'{x}, expected {y}')
    c.reach('done')
    if errors:
        c.reach('errors')


def environment(c, how):
    """The output of env can be stored and loaded, and the session goes on"""
    s = cli()
    fresh(s)
    path = os.path.join(directory(c), 'f')
    x = c.int('x')
    bind('resX', x)
    store, read = {'reservoir': ('>$ resA', 'resA <$'), 'file': (f'| write -p {path}', f'read -p {path}')}[how]
    try:
        # No symbolic functions
        pattern = c.pick('var', ['resX', 'res', 'pos', 'parse_args', 'set_db_default', 'o', 'PWD', 'Color'])
        # A value that cannot be pickled is reported
        s.gather(f'env -p {pattern} {store}')
        s.gather(f'resX = (resX + 1)')
        out = s.gather(read)
        names = [k for k, v in out]
        c.check(pattern in names or pattern == 'res' and 'resX' in names, f'{names}')
        for k, v in out:
            if k == 'resX':
                c.check(same(v, x), f'resX: {v}')
        c.check(same(s.gather('gen 1 | map (i: resX)'), [x + 1]), 'an old value of resX has replaced the new one')
        if how == 'reservoir':
            c.check(s.gather('gen 1 | map (i: type(resA).__name__)') == ['Reservoir'], 'resA')
            s.gather('gen 3 >>$ resA')
            expect(c, s.gather('resA <$ tail 3'), [0, 1, 2], 'appended')
    finally:
        fresh(s, VARS + ('resX',))
    c.reach('done')


@prop('P33', ['Store', 'Load', 'Reservoir', 'PickleFile', 'Reader', 'Writer', 'PickleReader', 'JSONReader', 'PickleWriter', 'Case.setup',
              'PipelineExecutable.setup', 'Environment.__setstate__'],
      {'quick': 'all histories of 2 commands of 12 kinds on 2 variables, followed by loading in one of 6 ways, and some of 3; up to 2 items '
                '(unbounded integers) stored by each; API histories of 3 steps; up to 4 items of 5 kinds sharing values; up to 2 files of '
                'JSON or pickled items, with 8 kinds of damage; 8 variables output by env',
       'thorough': 'all histories of 3 commands, 3 files'},
      ['What a command that writes to one reservoir twice leaves in it is not specified'])
def p33(tier):
    q = tier == 'quick'
    cases = []
    for a in STEPS:
        for b in STEPS:
            if q:
                cases.append(case(f'history-{a}-{b}', history, (a, b), reach=['done']))
            else:
                for e in STEPS:
                    cases.append(case(f'history-{a}-{b}-{e}', history, (a, b, e), reach=['done']))
    if q:
        for steps in (('store', 'append', 'append'), ('store', 'case', 'append'), ('store', 'self', 'append'), ('store', 'loadsetup', 'store'),
                      ('store', 'copyappend', 'copy')):
            cases.append(case(f'history-{"-".join(steps)}', history, steps, reach=['done']))
    for steps in (('store', 'append', 'copy'), ('store', 'first', 'store'), ('store', 'fails', 'append'), ('append', 'self', 'append'),
                  ('fails', 'store', 'copy'), ('first', 'store', 'first')):
        cases.append(case(f'api-{"-".join(steps)}', api_history, steps, reach=['done']))
    for how in ('reservoir', 'file'):
        for n1, n2 in ((2, 0), (1, 1), (1, 2)) if q else ((2, 0), (1, 1), (2, 1), (1, 2), (2, 2)):
            cases.append(case(f'shared-{how}-{n1}-{n2}', shared, how, n1, n2, reach=['done']))
        cases.append(case(f'environment-{how}', environment, how, reach=['done']))
    for how in ('pickle', 'json'):
        for n in (1, 2) if q else (1, 2, 3):
            cases.append(case(f'damaged-{how}-{n}', damaged, how, n, reach=['done', 'errors']))
    return cases
