"""fork: concurrent executions of a pipeline"""
import marceldrv as d
import simfork
from symex import same, conj, disj, not_, implies, ite, total, b2i
from vcore import case, prop
from streams import scalars, expect, cli, cli_source, bind


def session(**values):
    """A session with variables that child processes inherit"""
    s = cli()
    for var, value in values.items():
        s.env.setvar(var, value)
    return s


def done(s, **values):
    for var in values:
        s.env.delvar(var)


def ids(c, ks, form, late, deaths, follow):
    """One process for each of ks, outputting that many items"""
    a = d.api()
    V = c.ints('v', len(ks))
    K = list(ks)
    n = len(ks)
    values = {'V': V, 'K': K}
    s = session(**values)
    log = []
    try:
        with simfork.World(c, late, deaths) as world:
            try:
                if form == 'api':
                    gen, select, map = a.gen, a.select, a.map
                    p = a.fork(n, lambda t: gen(3) | select(lambda i: i < K[t]) | map(lambda i: (t, V[t] + i)))
                    if follow:
                        p = p | a.map(lambda t, x: t) | a.red(lambda acc, x: x if acc is None else acc + x)
                    out = d.gather(p)
                else:
                    gen = {'int': str(n), 'list': f'(range({n}))', 'function': f'({n})', 'chars': 'abcdef'[:n]}[form]
                    index = '"abcdef".index(t)' if form == 'chars' else 't'
                    text = f'fork {gen} (| t: gen 3 | head (K[{index}] + 1) | select (i: i < K[{index}]) | map (i: ({index}, V[{index}] + i)) |)'
                    if form == 'int' and follow == 'args':
                        text = f'gen 1 | args (| z: {text} |)'
                    elif follow:
                        text += ' | map (t, x: t) | red (acc, x: x if acc is None else acc + x)'
                    out = s.gather(text)
            except simfork.Deadlock as e:
                c.fail(f'fork never ends: {e}')
        c.check(len(world.processes) == n, f'{len(world.processes)} executions instead of {n}')
        for p in world.processes:
            c.check(p.exitcode is not None, 'the command has ended, but a process is still running')
    finally:
        done(s, **values)
    if follow and follow != 'args':
        expected = sum(t * k for t, k in enumerate(K))
        c.check(out == ([expected] if sum(K) else [None]), f'{out}, expected {expected}')
        return
    for t in range(n):
        mine = [x for x in out if x[0] == t]
        expected = [(t, V[t] + i) for i in range(K[t])]
        if world.processes[t].dead:
            expected = expected[:len(mine)]
            c.reach('truncated')
        c.check(len(mine) == len(expected) and same(mine, expected), f'{t}: {mine}, expected {expected}')
    c.check(len(out) == sum(len([x for x in out if x[0] == t]) for t in range(n)), f'{out}')
    c.reach('done')


def errors(c, n, k, late, how):
    """An instance whose function fails on some items, or that fails as a whole"""
    bad = [[c.flag(f'bad{t}_{i}') for i in range(k)] for t in range(n)]
    V = c.ints('v', n)
    values = {'V': V, 'BAD': bad}
    s = session(**values)
    try:
        with simfork.World(c, late) as world:
            try:
                if how == 'item':
                    text = f'gen {k} | map (i: (t, V[t] + i // (0 if BAD[t][i] else 1)))'
                elif how == 'run':
                    # Fails once it is running
                    text = f'gen {k} | args (| i: gen 1 (i) | head (0 if BAD[t][0] else 1) | map (i: (t, V[t] + i)) |)'
                else:
                    text = f'gen {k} | head (0 if BAD[t][0] else {k}) | map (i: (t, V[t] + i))'
                out = s.gather(f'fork {n} (| t: {text} |) | map (t, x: (t, x + 1))')
            except simfork.Deadlock as e:
                c.fail(f'fork never ends: {e}')
    finally:
        done(s, **values)
    n_errors = sum(1 for x in out if d.is_error(x))
    good = [x for x in out if not d.is_error(x)]
    if how == 'item':
        expected_errors = sum(1 for t in range(n) for i in range(k) if bad[t][i])
        expected = [(t, V[t] + i + 1) for t in range(n) for i in range(k) if not bad[t][i]]
    else:
        expected_errors = sum(1 for t in range(n) if bad[t][0])
        expected = [(t, V[t] + i + 1) for t in range(n) for i in range(k) if not bad[t][0]]
    if expected_errors:
        c.reach('error')
    # A failing command may be reported in more than one way
    c.check(n_errors == expected_errors or how != 'item' and n_errors >= expected_errors > 0, f'{n_errors} errors instead of {expected_errors}: {out}')
    for t in range(n):
        mine = [x for x in good if x[0] == t]
        e = [x for x in expected if x[0] == t]
        c.check(len(mine) == len(e) and same(mine, e), f'{t}: {mine}, expected {e}')
    c.check(len(good) == len(expected), f'{good}, expected {expected}')


def rejected(c, how):
    """fork N, for N that may not be positive; for an empty iterable; for something else"""
    g = c.small('g', -2, 2) if how == 'int' else c.pick('g', ('()', '[]', "''", '{}', 'range(0)', 'None', '1.5', 'True', 'object()', "'a'", '[0]', '(0, 1)'))
    expected = max(g, 0) if how == 'int' else {"'a'": 1, '[0]': 1, '(0, 1)': 2}.get(g, 0)
    s = session()
    with simfork.World(c, 0) as world:
        try:
            out = s.gather(f'fork ({g}) (| t: gen 2 | map (i: (t, i)) |)')
            failed = False
        except d.Killed:
            failed = True
    c.check(failed == (expected == 0), f'fork ({g}) {"" if failed else "not "}rejected')
    c.check(len(world.processes) == expected, f'{len(world.processes)} executions for fork ({g})')
    if failed:
        c.reach('rejected')
    else:
        c.check(len(out) == 2 * expected, f'{out}')
        c.reach('accepted')


@prop('P23', ['Fork', 'ForkManager.run', 'ForkWorker', 'run_pipeline_in_child', 'SendToParent'],
      {'quick': 'up to 3 instances, each outputting 0..3 items (unbounded integers); what an instance has done is noticed late, '
                'up to 3 times; an instance dies before any item; any items, or instances, fail',
       'thorough': 'late up to 6 times, 2 instances die'},
      ['Processes and pipes are simulated; the data transferred to and from a process is pickled and unpickled as usual',
       'Messages of a process are received in the order sent; the end of file after the last one'])
def p23(tier):
    q = tier == 'quick'
    late = 3 if q else 6
    cases = []
    for ks in ((0,), (2,), (0, 0), (1, 2), (2, 0), (0, 3), (1, 0, 2), (1, 1, 1)):
        name = '-'.join(map(str, ks))
        for form in ('int', 'api', 'list', 'function', 'chars'):
            if form in ('int', 'api') or len(ks) == 2:
                cases.append(case(f'{form}-{name}', ids, ks, form, late if form == 'int' else 1, 0, False, reach=['done', 'late']))
        cases.append(case(f'follow-{name}', ids, ks, 'int', 2, 0, True))
        if sum(ks):
            cases.append(case(f'dies-{name}', ids, ks, 'int', 1, 1 if q else 2, False, reach=['dies', 'truncated']))
    cases.append(case('args', ids, (1, 2), 'int', 1, 0, 'args', reach=['done']))
    for how in ('int', 'other'):
        cases.append(case(f'rejected-{how}', rejected, how, reach=['rejected', 'accepted']))
    for how in ('item', 'command', 'run'):
        for n in (1, 2, 3):
            for k in (1, 2):
                if n * k < 6 or not q:
                    cases.append(case(f'errors-{how}-{n}-{k}', errors, n, k, 1, how, reach=['error']))
    return cases
