"""A pipeline does the same wherever it is run"""
import os
import shutil

import marceldrv as d
import simfork
import simjobs
from symex import same
from vcore import case, prop
from streams import cli
from files import directory
from jobs import Shell, forget
from reservoirs import fresh

# Each uses V, W (integers), and D, a directory
TEXTS = [
    'gen 3 | map (i: (i, V[i]))',
    'gen (V[0] + 4) (V[1])',
    'gen -p 3 3 (V[1] + 1)',
    'gen 3 | map (i: V[i]) | select (x: x > W[0])',
    'gen 3 | map (i: V[i]) | sort',
    'gen 3 | map (i: V[i]) | sort (x: -x)',
    'gen 3 | map (i: (V[i], i)) | reverse',
    'gen 3 | map (i: V[i]) | unique',
    'gen 3 | map (i: V[i]) | unique -c',
    'gen 3 | map (i: V[i]) | head (W[1] + 2)',
    'gen 3 | map (i: V[i]) | tail (W[1] - 2)',
    'gen 3 | map (i: V[i]) | window -o 2',
    'gen 3 | map (i: V[i]) | window -d (W[1] + 2)',
    'gen 3 | map (i: V[i]) | window (x: x > W[0])',
    'gen 3 | map (i: V[i]) | red +',
    'gen 3 | map (i: V[i]) | red (x, y: W[1] + y if x is None else x + y)',
    'gen 3 | map (i: (V[i] > 0, W[0], 1)) | red . (x, y: y if x is None else x - y) +',
    'gen 3 | map (i: V[i]) | red -i +',
    'gen 3 | map (i: (W[0], V[i])) | squish +',
    'gen 3 | map (i: (W[0], V[i])) | squish (x, y: y if x is None else x - y)',
    'gen 2 | map (i: (V[i], [W[0], i])) | expand 1',
    'gen 2 | map (i: [V[i], (W[0], i)]) | expand',
    'gen 3 | map (i: V[i]) | case (x: x > 0) (| map (x: (x, W[0])) |) (x: x < 0) (| red + |)',
    'gen 3 | map (i: V[i]) | case (x: x > W[0]) (| map (x: (x, W[0])) |) (| select (x: x > 0) |)',
    'gen 3 | map (i: V[i]) | filter (| gen 2 | map (x: x + W[0]) |)',
    'gen 3 | map (i: V[i]) | filter -d -c (x: x + W[1]) (| gen 2 |)',
    'gen 3 | map (i: (V[i], i)) | join (| gen 2 | map (x: (x, W[x])) |)',
    'gen 3 | map (i: (V[i], i)) | join -k (| gen 2 | map (x: (x + W[1], x)) |)',
    'gen 3 | map (i: V[i]) | intersect (| gen 3 | map (x: W[0] + x) |)',
    'gen 3 | map (i: V[i]) | difference (| gen 3 | map (x: W[0] + x) |)',
    'gen 2 | map (i: V[i]) | union (| gen 2 | map (x: W[x]) |) (| gen 1 |)',
    'gen 3 | args (| n: gen (n + 1) (V[n]) | map (x: x - n) |)',
    'gen 3 | args (| n, m: map (: (V[n], m)) |)',
    'gen 2 | args --all (| n: map (: [V[i] for i in n]) |)',
    'F (V[0]) (1)',
    'F -k (V[0]) (1)',
    'G',
    'gen 2 | args (| n: F (n) (V[n]) |)',
    'gen 2 | H',
    'gen 3 | map (i: V[i] // i)',
    'gen 3 | map (i: V[i] // (i - 1)) | map (x: x + W[0])',
    'gen 3 | head (0)',
    'gen 3 | map (i: (pos(), V[i]))',
    'ls -fd (D) | map (f: (f.name, W[0]))',
    'ls -r (D) | sort (f: -f.size) | map (f: f.name) | sort',
    'read -c (D)/a | map (*x: x)',
    'read (D + "/a") | map (x: (x, V[0]))',
    'gen 2 | map (i: i) | write -c (D + "/out") | map (x: x + V[0])',
    'gen 2 | map (i: V[i]) >$ resT',
    'gen 2 | map (i: V[i]) | case (x: x > 0) (| store resT |) (| store resU |)',
    'R <$ map (x: x + W[0])',
    'R <$ union (| R <$ map (x: x + W[0]) |)',
    'bash "echo a; echo b" | map (x: (x, V[0]))',
    'gen 2 | bash cat | map (x: (x, V[0]))',
    '(V[0] + W[0])',
    'env VAR',
    'env -p VA',
    'pwd | map (f: (str(f) == D, V[0]))',
    'version | map (x: (x, V[0]))',
]
CONTEXTS = ('variable', 'parameter', 'call', 'nested', 'union', 'branch', 'fork', 'fork2', 'fork in args', 'job', 'piped')


def g(s, text):
    return d.Cli.gather(s, text)


def setup(s, values):
    for var, value in values.items():
        s.env.setvar(var, value)
    for command in ('F = (| n, k: gen (2) (k) | map (x: (x, n, W[0])) | F2 |)', 'F2 = (| sort (x, y, z: -x) |)', 'G = (| gen 2 | map (x: V[x]) |)',
                    'H = (| map (x: (x, V[x])) |)', 'gen 2 | map (x: V[x]) >$ R'):
        g(s, command)


ALL = ('V', 'W', 'D', 'VAR', 'F', 'F2', 'G', 'H', 'R', 'resT', 'resU', 'P', 'OUT')


def normal(out):
    return [x if isinstance(x, (bool, int, float, tuple, list)) and not d.is_error(x) else 'Error' if d.is_error(x) or type(x) is str and 'Error' in x else str(x)
            for x in out]


def outcome(s, text):
    """Output, whether it has been killed, what has been stored"""
    for name in ('resT', 'resU'):
        fresh(s, [name])
    try:
        out, killed = normal(g(s, text)), False
    except d.Killed:
        out, killed = [], True
    return out, killed


def stored(s):
    result = []
    for name in ('resT', 'resU'):
        result.append(g(s, f'{name} <$') if s.env.hasvar(name) else None)
    return result


def contents(path):
    result = []
    for dir, dirs, files in os.walk(path):
        for name in files:
            with open(os.path.join(dir, name), 'rb') as f:
                result.append((os.path.join(dir, name), f.read()))
    return sorted(result)


def by_job(c, text, values):
    """As a command of an interactive session, which runs in another process"""
    result = []

    def waiting(process):
        process.end('finished')
        world.pump()

    def commands():
        yield
        yield text
        for p in world.processes:
            if p.state != simjobs.Process.ENDED:
                p.end('finished')
                world.pump()

    with simjobs.World(waiting) as world:
        s = Shell(commands())
        s.env.directory_state.change_current_dir(values['D'])
        setup(s, values)
        try:
            s.run()
            result.extend(stored(s))
            c.check(len(world.processes) <= 1, f'{len(world.processes)} processes')
            output = ''.join(p.output for p in world.processes)
            if s.env.hasvar('OUT'):
                out = normal(g(s, 'OUT <$'))
            else:
                out = None
        finally:
            world.stop = True
            s.shutdown()
            fresh(s, ALL)
            forget()
    return out, output, result


def context(c, text, which):
    path = directory(c)
    with open(os.path.join(path, 'a'), 'w') as f:
        f.write('1,x\n2,"y z"\n')
    V = c.ints('v', 3)
    W = c.ints('w', 2)
    for x in V + W:
        c.assume(x >= -1)
        c.assume(x <= 2)
    values = {'V': V, 'W': W, 'D': path, 'VAR': 'x y'}
    s = cli()
    s.env.directory_state.change_current_dir(path)
    setup(s, values)
    try:
        expected, killed = outcome(s, text)
        files, reservoirs = contents(path), stored(s)
        stores = text.endswith('>$ resT')
        first = not text.startswith('(')
        for name in ('out',):
            if os.path.exists(os.path.join(path, name)):
                os.remove(os.path.join(path, name))
        n = 1
        if which == 'variable':
            g(s, f'P = (| {text} |)')
            out, k = outcome(s, 'P')
            again, k2 = outcome(s, 'P')
            c.check(k == k2 and same(out, again), f'{text}: the first time {out}, the second time {again}')
        elif which == 'parameter':
            g(s, f'P = (| xyz: {text} |)')
            out, k = outcome(s, 'P (V[0])')
        elif which == 'call':
            g(s, f'P = (| {text} |)')
            out, k = outcome(s, 'P' if stores else 'P | select (*x: True)')
        elif which == 'nested':
            out, k = outcome(s, f'gen 1 | args (| xyz: {text} |)')
        elif which == 'union':
            out, k = outcome(s, f'gen 1 | select (x: False) | union (| {text} |)')
        elif which == 'branch':
            out, k = outcome(s, f'gen 1 | case (x: x == 0) (| args (| n: {text} |) |)')
        elif which == 'piped':
            out, k = outcome(s, f'{text} | select (*x: True)')
        elif which == 'job':
            command = text if stores or 'store' in text else f'{text} >$ OUT'
            g(s, 'gen 1')
            fresh(s, ALL)
            out, output, reservoirs2 = by_job(c, command, values)
            c.check(same(reservoirs, reservoirs2), f'{text}: stored {reservoirs2}, expected {reservoirs}')
            errors = [x for x in expected if type(x) is str and x == 'Error']
            if killed:
                c.check(out is None and output.strip() != '', f'{text}: {out} {output}')
            else:
                values_expected = [x for x in expected if x not in errors] if errors else expected
                c.check(out is None and not values_expected or out is not None and len(out) == len(values_expected) and same(out, values_expected),
                        f'{text}: {out}, expected {values_expected}, {output}')
                c.check(output.count('Error') >= len(errors) and (errors or output.strip() == ''), f'{text}: {output}')
            c.check(contents(path) == files, f'{text}: {contents(path)}, expected {files}')
            return c.reach('done')
        else:
            with simfork.World(c, 0) as world:
                if which == 'fork':
                    out, k = outcome(s, f'fork 1 (| {text} |)')
                elif which == 'fork2':
                    n = 2
                    out, k = outcome(s, f'fork 2 (| t: {text} |)')
                else:
                    out, k = outcome(s, f'gen 1 | args (| xyz: fork 1 (| t: {text} |) |)')
            if world.failures: raise world.failures[0]
            # A failing command is an Error
            if killed:
                c.check(len(out) >= 1 and all(type(x) is str and x == 'Error' for x in out), f'{text}: {out}')
                return c.reach('done')
        c.check(k == killed, f'{text}: killed: {k}, expected: {killed}')
        if n == 2:
            c.check(len(out) == 2 * len(expected), f'{text}: {out}, expected twice {expected}')
            # Instances take turns
            halves = interleavings(out, expected)
            c.check(halves, f'{text}: {out}, expected twice {expected}')
        else:
            c.check(len(out) == len(expected) and same(out, expected), f'{text}: {out}, expected {expected}')
        c.check(contents(path) == files, f'{text}: {contents(path)}, expected {files}')
        if not which.startswith('fork'):
            c.check(same(stored(s), reservoirs), f'{text}: stored {stored(s)}, expected {reservoirs}')
        c.reach('done')
    finally:
        os.chdir('/')
        s.env.directory_state.change_current_dir(os.environ['HOME'])
        fresh(s, ALL)


def interleavings(out, expected):
    """Is out an interleaving of expected with itself?"""
    def same1(x, y):
        return bool(same(x, y))
    n = len(expected)
    reached = {(0, 0)}
    for x in out:
        reached = ({(i + 1, j) for i, j in reached if i < n and same1(x, expected[i])} |
                   {(i, j + 1) for i, j in reached if j < n and same1(x, expected[j])})
    return (n, n) in reached


@prop('P34', ['PipelineMarcel', 'PipelineExecutable', 'Op.ensure_functions_compiled', 'Op.copy', 'RunPipeline', 'Args', 'Case', 'ForkManager',
              'run_pipeline_in_child', 'run_command_in_child', 'Command.execute', 'SourceFunction'],
      {'quick': f'{len(TEXTS)} pipelines, using all operators with local effects, on 5 integers from -1 to 2; 11 contexts: a variable, run twice; with '
                'a parameter; followed by another operator; an argument of args, case and union; forked, once and twice; a command of an interactive session',
       'thorough': 'the same'},
      ['Processes and pipes are simulated; the data transferred to and from a process is pickled and unpickled as usual',
       'What a forked pipeline stores in a reservoir is not specified'])
def p34(tier):
    cases = []
    for i, text in enumerate(TEXTS):
        for which in CONTEXTS:
            if which == 'piped' and text.endswith('>$ resT'):
                continue
            cases.append(case(f'{i}-{which.replace(" ", "-")}', context, text, which, reach=['done']))
    return cases
