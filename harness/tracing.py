"""Tracing does not change anything"""
import os
import pickle
import re
import sys

import calls
import marceldrv as d
from arguments import World
from symex import same
from vcore import case, prop
from streams import cli, bind

LINE = re.compile('^(SETUP|RUN|ERROR) ')

# Commands that cannot be called from Python in the same way, or are not among calls.CALLS
MORE = ['gen 3 | store R', 'gen 2 | map (i: 1 // i)', 'gen 2 | map (i: 1 // i) | map (i: i)', 'gen 2 | map (i: 1 // i) | store R', 'x = (5)', 'p = (| x: map (x) |)', 'import math', 'history',
        'ws', 'ws --list', 'ws nothing', 'run 0', 'help gen', 'help nothing', 'gen 2 | write out', 'gen 2 | write -a', 'gen 2 | args (| i: gen (i + 1) |)',
        'gen 3 | case (i: i > 0) (| map (i: -i) |) (| head 1 |)', 'gen 2 | tee (| write out |)', 'gen 2 | map (i: 1 // i) | tee (| write out |)', 'gen 4 | cast int', 'ls | map (f: f.path)', 'delete x', 'env',
        'gen 2 | bash cat', 'echo a | map (x: x)', 'gen 3 | load R', 'load R', 'upload x', 'jobs', 'edit', 'exit 1', 'gen 3 | (| n: map (i: (i, n)) |) (4)', 'gen 2 > out', 'out < gen 2',
        'f > map (x: x)', 'gen 3 >$ x', 'gen 3 >>$ x', 'VAR >$ y', '(VAR)', 'gen 2 | select (i: i) | sort (i: 1 // (i - 1))', 'gen 2 | nosuchop', 'gen 2 | unique | union (| gen 2 |) | intersect (| gen 2 |)']


def command_of(c, which):
    if isinstance(which, int):
        return calls.build(c, which, concrete=True)[1]
    return which


def start(s, to):
    out, err = s.run('trace -1' if to is None else f'trace -f "{to}"')
    assert err == '' and s.env.trace.is_enabled(), err


def stop(s):
    s.run('trace -0')
    assert not s.env.trace.is_enabled()


def lines_of(path):
    with open(path) as f:
        return f.read().split('\n')[:-1]


def file_traced(c, which):
    s = cli()
    command = command_of(c, which)
    path = os.path.join(os.path.realpath(d.scratch_dir()), 'trace')
    if os.path.exists(path):
        os.remove(path)

    def run():
        out = s.gather(command)
        return out, bool(s.last_output[1])
    plain = calls.observe(s, run)
    start(s, path)
    try:
        traced = calls.observe(s, run)
        status, _ = s.run('trace')
    finally:
        stop(s)
    c.check(same(plain[0], traced[0]) and plain[1:] == traced[1:], f'{command}: {plain}\n   With tracing: {traced}')
    c.check(path in status, f'trace: {status!r}')
    lines = lines_of(path)
    # trace traces itself
    lines = [x for x in lines if ' trace(' not in x]
    setups = [x for x in lines if x.startswith('SETUP ')]
    runs = [x for x in lines if x.startswith('RUN ')]
    if not plain[1]:
        c.reach('accepted')
        c.check(len(setups) >= 2 or 'gather' not in str(lines), f'{command}: traced setup: {setups}')
        c.check(len(setups) > 0 and len(runs) > len([x for x in plain[0] if x != 'Error']), f'{command}: {plain[0]}, traced: {lines}')
        for x in plain[0]:
            if x == 'Error':
                c.check(any('Error: ' in y and y.startswith('ERROR ') for y in lines), f'{command}: the error is not in {lines}')
    else:
        c.reach('rejected')


def timeless(text):
    return re.sub(r'\d{4} \w{3} \d\d \d\d:\d\d:\d\d', 'TIME', text)


def stdout_traced(c, which):
    s = cli()
    command = command_of(c, which)

    def observe():
        with World(s) as w:
            with d.Capture() as cap:
                s.main.parse_and_run_command(command)
            return timeless(cap.stdout()), cap.stderr(), w.state()
    plain = observe()
    # The stdout to trace to is that of the command
    with World(s) as w:
        del s.env.trace.enable
        with d.Capture() as cap:
            s.main.parse_and_run_command('trace -1')
            s.main.parse_and_run_command('trace')
            s.main.parse_and_run_command(command)
            s.main.parse_and_run_command('trace -0')
        s.env.trace.enable = None
        traced = timeless(cap.stdout()), cap.stderr(), w.state()
    c.check(not s.env.trace.is_enabled(), 'trace -0')
    lines = traced[0].split('\n')
    c.check(any('tracing to stdout' in x for x in lines), f'trace: {lines}')
    kept = [x for x in lines if not LINE.match(x) and x != 'tracing to stdout']
    c.check(kept == plain[0].split('\n'), f'{command}: output {plain[0]!r}, with tracing: {traced[0]!r}')
    c.check(plain[1:] == traced[1:], f'{command}: {plain[1:]}, with tracing: {traced[1:]}')
    c.reach('done')


def items(c, n, to):
    """Each item and Error received by an operator is traced, once, in order"""
    s = cli()
    xs = [c.pick(f'x{i}', (0, 7, 'a', None)) for i in range(n)]
    bind('XS', xs)
    path = os.path.join(os.path.realpath(d.scratch_dir()), 'trace')
    if os.path.exists(path):
        os.remove(path)
    if n == 0:
        command = 'gen 1 | select (i: False) | map (x: 1 // x) | sort'
    else:
        command = f'gen {n} | map (i: XS[i]) | map (x: 1 // x) | sort'
    with d.Capture() as cap:
        s.main.parse_and_run_command(f'trace -f {path}' if to == 'file' else 'trace --on')
        s.main.parse_and_run_command(command)
        s.main.parse_and_run_command('trace --off')
    lines = lines_of(path) if to == 'file' else cap.stdout().split('\n')
    seen = [x for x in lines if x.startswith('RUN map(') and 'XS' not in x]
    c.check(len(seen) == n, f'{xs}: traced: {lines}')
    for x, line in zip(xs, seen):
        c.check(line.endswith(f') <- {x}'), f'{xs}: traced: {line}')
    good = [x for x in xs if x == 7]
    seen = [x for x in lines if x.startswith('RUN sort(')]
    c.check(len(seen) == len(good), f'{xs}: sort: {seen}')
    seen = [x for x in lines if x.startswith('ERROR map(') and ' <- Error: ' in x]
    c.check(len(seen) == n - len(good), f'{xs}: errors: {lines}')
    for op in ('gen', 'map', 'sort', 'write'):
        c.check(any(x.startswith(f'SETUP {op}(') for x in lines), f'{op}: {lines}')
    c.reach('done')


def history(c, n):
    """A sequence of commands turning tracing on and off, or failing to"""
    s = cli()
    base = os.path.join(os.path.realpath(d.scratch_dir()), 'traces')
    os.makedirs(base, exist_ok=True)
    for x in os.listdir(base):
        os.remove(f'{base}/{x}')
    on = None
    contents = {}
    try:
        with d.Capture() as cap:
            for i in range(n):
                what = c.pick(f'c{i}', ('off', 'on', 'f', 'g', 'bad', 'gen', 'pickled'))
                cap.out.seek(0)
                cap.out.truncate()
                cap.err.seek(0)
                cap.err.truncate()
                if what == 'bad':
                    s.main.parse_and_run_command(f'trace -f {base}/no/such')
                    c.check(cap.stderr() != '', 'No error')
                elif what in ('f', 'g'):
                    s.main.parse_and_run_command(f'trace -f {base}/{what}')
                    on = what
                elif what in ('on', 'off'):
                    s.main.parse_and_run_command(f'trace --{what}')
                    on = 'stdout' if what == 'on' else None
                elif what == 'pickled':
                    # What happens if something is sent to another process
                    other = pickle.loads(pickle.dumps(s.env.trace))
                    c.check(other.is_enabled() == (on is not None), f'Sent: {other.__dict__}, tracing to {on}')
                    if other.is_enabled() and on != 'stdout':
                        other.disable()
                else:
                    s.main.parse_and_run_command(f'gen 1 {1000 + i}')
                    text = {x: open(f'{base}/{x}').read() for x in os.listdir(base)}
                    text['stdout'] = '\n'.join(x for x in cap.stdout().split('\n') if LINE.match(x))
                    for x in ('f', 'g', 'stdout'):
                        c.check((f'RUN write() <- {1000 + i}' in text.get(x, '')) == (x == on), f'Tracing to {on}: {x}: {text.get(x)!r}')
                    c.check(str(1000 + i) in cap.stdout().split('\n'), f'Output {cap.stdout()!r}')
                # Nothing that has been traced disappears
                for x in os.listdir(base):
                    now = open(f'{base}/{x}').read()
                    c.check(now.startswith(contents.get(x, '')), f'{x}: {contents.get(x)!r}, then {now!r}')
                    contents[x] = now
                c.check(s.env.trace.is_enabled() == (on is not None), f'{what}: tracing to {on}: {s.env.trace.__dict__}')
                cap.out.seek(0)
                cap.out.truncate()
                s.main.parse_and_run_command('trace')
                status = [x for x in cap.stdout().split('\n') if x.startswith('tracing ')]
                expected = 'tracing is off' if on is None else 'tracing to stdout' if on == 'stdout' else f'tracing to {base}/{on}'
                c.check(status == [expected], f'{what}: status {status}, expected {expected}')
                contents = {x: open(f'{base}/{x}').read() for x in os.listdir(base)}
    finally:
        s.run('trace -0')
    c.reach('done')


@prop('P42', ['Trace', 'marcel.op.trace.Trace', 'Op.send', 'Op.send_error', 'PipelineOpList.setup', 'PipelineOpList.run', 'Op.__repr__ of all operators'],
      {'quick': 'any combination of the listed parameters of all operators that have local effects, and 45 other commands, traced to a file and to stdout; pipelines with up to 3 items; up to 3 commands turning tracing on and off',
       'thorough': 'up to 4 items, and 4 commands turning tracing on and off'},
      ['the driver of the database, the list of processes and the clock of timer are simulated'], strings=False)
def p42(tier):
    q = tier == 'quick'
    cases = []
    for i, (name, *_) in enumerate(calls.CALLS):
        if name == 'trace':
            continue
        cases.append(case(f'file-{i}-{name}', file_traced, i))
        if not q or i % 2:
            cases.append(case(f'stdout-{i}-{name}', stdout_traced, i))
    for i, command in enumerate(MORE):
        if 'sort' not in command:
            # Killed otherwise
            cases.append(case(f'file-more-{i}', file_traced, command))
        if command != 'help gen':
            # Its lines cannot be told from those of the trace
            cases.append(case(f'stdout-more-{i}', stdout_traced, command))
    for n in range(4 if q else 5):
        for to in ('file', 'stdout'):
            cases.append(case(f'items-{to}-{n}', items, n, to))
    for n in range(1, 4 if q else 5):
        cases.append(case(f'history-{n}', history, n))
    return cases
