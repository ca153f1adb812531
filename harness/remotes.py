"""remote, sudo, upload, download"""
import ast
import io
import os
import shutil
import socket
import sys
import types

import marceldrv as d
import simfork
import simshell
import symstr
from symex import same
from vcore import case, prop
from streams import cli
from files import directory
from reservoirs import fresh

NAMES = {'alpha': '10.0.0.1', 'beta': '10.0.0.2', 'gamma': '10.0.0.1'}
SAFE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789@%_-+=:,./'
# What may be in names, except for /
CHARS = tuple(x for x in symstr.ASCII if chr(x) not in '/\n\r') + (0xE9, 0x4E2D)
# ... and in file names that are not patterns, and not written in the syntax of marcel
PLAIN = tuple(x for x in CHARS if chr(x) not in '*?[]~\\')

# Pipelines (the variables V, N are those of the other computer), what each outputs in terms of V
PIPELINES = [
    ('gen 3 | map (i: (i, V[i]))', lambda V: [(0, V[0]), (1, V[1]), (2, V[2])]),
    ('gen 3 | map (i: V[i]) | sort (x: -x) | head 2', None),
    ('gen 3 | select (i: V[i] > 0) | map (i: [i, V[i]])', None),
    ('gen 3 | map (i: V[i] // (i - 1))', None),
    ('gen (V[0] + 2)', None),
    ('gen 1 | select (x: False)', None),
    ('gen 2 | args (| n: gen 2 | map (x: (n, x, V[n])) |)', None),
    ('gen 3 | map (i: V[i]) | red +', None),
    ('(V[0] + V[1])', None),
    ('gen 2 | case (x: x == 0) (| map (x: (x, V[0])) |) (| map (x: (x, V[1], 1)) |)', None),
    ('ls /nosuchdir', None),
    ('nosuchthing', None),
    ('gen 2 | map (x: None)', None),
]

REMOTE = {}


def the_values():
    return REMOTE['V']


class Buffer(io.BytesIO):
    """Keeps what has been written"""

    def close(self):
        self.value = self.getvalue()
        super().close()


class FakeThread(object):
    """Threads of farcel: run when started"""

    def __init__(self, *args, **kwargs):
        pass

    def start(self):
        self.run()

    def is_alive(self):
        return False

    def join(self, timeout=None):
        pass


class FakeTrace(object):
    def __init__(self, *args, **kwargs):
        pass

    def write(self, *args):
        pass

    def open(self):
        return io.StringIO()


class FakeProcess(object):
    def __init__(self, *args):
        pass

    def children(self, recursive=False):
        return []


class Namespace(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)


_farcel = None


def farcel():
    """The program executed on other computers"""
    global _farcel
    import marcel.util
    if _farcel is None:
        path = os.path.join(d.REPO, 'bin', 'farcel.py')
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        last = tree.body.pop()
        assert ast.unparse(last) == 'main()', 'farcel.py is expected to end in main()'
        import threading
        import atexit
        import psutil
        saved = {name: sys.modules[name] for name in ('threading', 'atexit', 'psutil')}
        trace = marcel.util.Trace
        module = types.ModuleType('farcel')
        sys.modules['farcel'] = module
        try:
            sys.modules['threading'] = Namespace('threading', Thread=FakeThread)
            sys.modules['atexit'] = Namespace('atexit', register=lambda *a: None)
            sys.modules['psutil'] = Namespace('psutil', Process=FakeProcess)
            marcel.util.Trace = FakeTrace
            exec(compile(tree, path, 'exec'), module.__dict__)
            for name in saved:
                if name in module.__dict__ or name != 'atexit':
                    module.__dict__[name] = sys.modules[name]
            module.atexit = sys.modules['atexit']
        finally:
            sys.modules.update(saved)
            marcel.util.Trace = trace
        _farcel = module
    return _farcel


def elsewhere(data, home, new=False):
    """Runs farcel, with this input. Returns its output"""
    from marcel.object.workspace import Workspace
    from marcel.env import Environment
    module = farcel()
    first = not os.path.exists(home)
    saved = Workspace.DEFAULT, getattr(Environment, 'current', None), os.environ['HOME'], os.getcwd(), sys.stdin, sys.stdout, sys.stderr
    out, err = Buffer(), io.StringIO()
    try:
        Workspace.DEFAULT, Environment.current = None, None
        os.makedirs(home, exist_ok=True)
        os.environ['HOME'] = home
        os.chdir(home)
        if first and not new:
            import marcel.persistence.storagelayout
            marcel.persistence.storagelayout.ensure_current(testing=True)
            with open(os.path.join(home, '.config', 'marcel', 'workspace', '__DEFAULT__', 'startup.py'), 'a') as f:
                f.write('\nimport remotes\nV = remotes.the_values()\n')
            Workspace.DEFAULT = None
        sys.stdin, sys.stdout, sys.stderr = io.TextIOWrapper(io.BytesIO(data)), io.TextIOWrapper(out), err
        module.main()
        sys.stdin.detach()
        if not out.closed:
            sys.stdout.detach()
            out.close()
    finally:
        Workspace.DEFAULT, Environment.current, os.environ['HOME'], cwd, sys.stdin, sys.stdout, sys.stderr = saved
        os.chdir(cwd)
    return out.value, err.getvalue().encode()


def words(c, command):
    """What bash would make of a command, which must not contain anything but words"""
    result, word, quote, i = [], None, None, 0
    while i < len(command):
        x = command[i]
        i += 1
        if quote == "'":
            if symstr.char_eq(x, "'"):
                quote = None
            else:
                word += x
        elif quote == '"':
            if symstr.char_eq(x, '"'):
                quote = None
            elif symstr.char_eq(x, '\\'):
                y = command[i]
                i += 1
                word += y if symstr.one_of(y, '$`"\\') else x + y
            else:
                c.check(not symstr.one_of(x, '$`!'), f'{command!r}: expanded by the shell')
                word += x
        elif symstr.char_eq(x, ' '):
            if word is not None:
                result.append(word)
                word = None
        elif symstr.one_of(x, '\'"'):
            quote = "'" if symstr.char_eq(x, "'") else '"'
            word = word or ''
        elif symstr.char_eq(x, '\\'):
            word = (word or '') + command[i]
            i += 1
        else:
            c.check(symstr.one_of(x, SAFE) if symstr.is_place(x) else x in SAFE or ord(x) > 127, f'{command!r}: an unquoted {x!r}')
            word = (word or '') + x
    c.check(quote is None, f'{command!r}: missing quote')
    if word is not None:
        result.append(word)
    return result


def quote(s):
    """shlex.quote"""
    if not symstr.has_sym(s):
        return _quote(s)
    if all(bool(symstr.one_of(x, SAFE)) for x in s):
        return s
    return "'" + symstr.m_replace(s, "'", "'\"'\"'") + "'"


import shlex
_quote = shlex.quote


class World(object):
    """Other computers"""

    def __init__(self, c, users={}, fails=None, new=False, capacity=2):
        self.c = c
        self.fails = fails or {}       # n-th invocation -> what happens to the output
        self.ssh = []                  # commands
        self.new = new
        self.fork = simfork.World(c, 0)
        self.shell = simshell.World(c, self.program, capacity, 0, 0)
        self.path = directory(c)

    def program(self, command):
        self.ssh.append(command)
        n = len(self.ssh) - 1
        name = command.split(' ')[0]
        if name == 'scp':
            return self.scp(n)
        return self.farcel(n)

    def farcel(self, n):
        data = b''
        while True:
            line = yield 'read',
            if not line:
                break
            data += line
        out, err = elsewhere(data, os.path.join(self.path, f'computer{n}'), self.new)
        failure = self.fails.get(n)
        if failure is not None:
            out, err = failure(out), b'lost\n'
        if out:
            yield 'write', 1, out
        if err:
            yield 'write', 2, err
        return 1 if failure else 0

    def scp(self, n):
        if n in self.fails:
            yield 'write', 2, b'scp: failed\n'
            return 1
        return 0
        yield

    def gethostbyname(self, name):
        try:
            return NAMES[name]
        except KeyError:
            raise socket.gaierror(-2, 'Name or service not known')

    def __enter__(self):
        self.saved = socket.gethostbyname
        socket.gethostbyname = self.gethostbyname
        shlex.quote = quote
        self.fork.__enter__()
        self.shell.__enter__()
        return self

    def __exit__(self, *a):
        self.shell.__exit__(*a)
        self.fork.__exit__(*a)
        shlex.quote = _quote
        socket.gethostbyname = self.saved
        return False


# Each is: specification, name, address, port
HOSTS = {
    'name': ('alpha', 'alpha', '10.0.0.1', None),
    'other': ('beta', 'beta', '10.0.0.2', None),
    'alias': ('gamma', 'gamma', '10.0.0.1', None),
    'ip': ('10.0.0.3', '10.0.0.3', '10.0.0.3', None),
    'port': (('alpha', 22), 'alpha:22', '10.0.0.1', 22),
    'port2': (('alpha', 2222), 'alpha:2222', '10.0.0.1', 2222),
    'ip6': ('fe80::1', 'fe80::1', 'fe80::1', None),
    'ip6port': (('fe80::1', 22), 'fe80::1:22', 'fe80::1', 22),
}


def cluster(hosts, user='me', identity='id'):
    from marcel.object.cluster import Cluster
    return Cluster(user=user, hosts=[HOSTS[h][0] for h in hosts], identity=identity)


def attempt(s, text):
    try:
        return s.gather(text, unwrap=False), None
    except d.Killed as e:
        return [], str(e)


def message(error):
    return str(error).split(': ', 1)[1] if ': ' in str(error) else str(error)


def check_ssh(c, commands, hosts, user, identity):
    expected = []
    for h in hosts:
        spec, name, addr, port = HOSTS[h]
        expected.append(['ssh', '-i', identity] + (['-p', str(port)] if port else []) + [f'{user}@{addr}', 'farcel.py'])
    actual = [words(c, x) for x in commands]
    c.check(len(actual) == len(expected) and all(any(same(a, e) for a in actual) for e in expected), f'{actual}, expected {expected}')


def by_host(c, text, out, names):
    """What has been received from each, without labels"""
    received = {name: [] for name in names}
    for x in out:
        if d.is_error(x) or len(x) == 1 and d.is_error(x[0]):
            e = x if d.is_error(x) else x[0]
            label = str(e.label)
            c.check(label in received, f'{text}: {e}: label {e.label}')
            received[label].append(('Error', e.message))
        else:
            label = str(x[0])
            c.check(label in received, f'{text}: {x}: label {label}')
            received[label].append(x[1:])
    return received


def local(c, s, text, V):
    """What a pipeline outputs, without remote"""
    s.env.setvar('V', V)
    try:
        out, killed = attempt(s, text)
    finally:
        s.env.delvar('V')
    if killed:
        return [('Error', None)]
    return [('Error', (x if d.is_error(x) else x[0]).message) if d.is_error(x) or len(x) == 1 and d.is_error(x[0]) else x for x in out]


def equal(actual, expected):
    if len(actual) != len(expected):
        return False
    for x, y in zip(actual, expected):
        if len(y) == 2 and type(y[0]) is str and y[0] == 'Error':
            if not (len(x) == 2 and type(x[0]) is str and x[0] == 'Error' and (y[1] is None or same(x[1], y[1]))):
                return False
        elif type(x) is not type(y) or not same(x, y):
            return False
    return True


def remotely(c, i, hosts, how):
    text = PIPELINES[i][0]
    s = cli()
    V = c.ints('v', 3)
    for x in V:
        c.assume(x >= -1)
        c.assume(x <= 2)
    expected = local(c, s, text, V)
    REMOTE['V'] = V
    names = [HOSTS[h][1] for h in hosts]
    fails = {}
    cut = None
    if how == 'fails':
        fails[0] = lambda out: b''
        cut = 0
    elif how == 'truncated':
        def truncated(out):
            return out[:c.small('cut', 0, 3) * len(out) // 4]
        fails[0] = truncated
    with World(c, fails=fails) as world:
        s.env.setvar('CL', cluster(hosts))
        n_runs = 1
        try:
            if how == 'name':
                out, killed = attempt(s, f'remote CL (| {text} |)')
            elif how == 'expression':
                out, killed = attempt(s, f'@CL (| {text} |) | select (*x: True)')
            elif how == 'variable':
                s.gather(f'Q = (| @CL (| {text} |) |)')
                n_runs = 2
                out, killed = attempt(s, 'Q')
                again, killed2 = attempt(s, 'Q')
                c.check(killed == killed2, f'{text}: {killed}, {killed2}')
                out = out + again
            elif how == 'pipeline':
                s.gather(f'P = (| {text} |)')
                out, killed = attempt(s, 'remote CL P')
            elif how == 'args':
                n_runs = 2
                out, killed = attempt(s, f'gen 2 | args (| n: @CL (| {text} |) |)')
            elif how == 'grouped':
                out, killed = attempt(s, f'@CL (| {text} |) | map (h, *x: (h, 1)) | red . +')
            else:
                out, killed = attempt(s, f'@CL (| {text} |)')
        finally:
            fresh(s, ('CL', 'Q', 'P'))
        if world.fork.failures:
            raise world.fork.failures[0]
    c.check(killed is None, f'{text}: {killed}')
    check_ssh(c, world.ssh, list(hosts) * n_runs, 'me', 'id')
    c.check(all(p.exitcode is not None for p in world.fork.processes), 'a process is still running')
    if how == 'grouped':
        n = len([x for x in expected if not (len(x) == 2 and type(x[0]) is str)])
        counts = {str(x[0]): x[1] for x in out if not (d.is_error(x) or d.is_error(x[0]))}
        c.check(counts == ({name: n for name in names} if n else {}), f'{text}: {counts}, expected {n} for each of {names}')
        return c.reach('done')
    received = by_host(c, text, out, names)
    for k, name in enumerate(names):
        x = received[name]
        y = expected * n_runs
        if how in ('fails', 'truncated') and k == 0:
            c.check(len(x) <= len(y) and equal(x, y[:len(x)]), f'{text}: {x} from {name}, expected the beginning of {y}')
        else:
            c.check(equal(x, y), f'{text}: {x} from {name}, expected {y}')
    c.reach('done')


def commands(c, which, hosts, lengths):
    """The commands executed"""
    s = cli()
    user = 'u' + c.string('user', lengths[0], PLAIN)
    identity = '/i' + c.string('identity', lengths[1], CHARS)
    names = [HOSTS[h] for h in hosts]
    REMOTE['V'] = [0, 0, 0]
    with World(c) as world:
        s.env.setvar('CL', cluster(hosts, user, identity))
        try:
            if which == 'remote':
                out, killed = attempt(s, '@CL (| gen 1 |)')
                check_ssh(c, world.ssh, hosts, user, identity)
                c.check(sorted(str(x[0]) for x in out) == sorted(x[1] for x in names), f'{out}')
                return c.reach('done')
            elif which == 'upload':
                dir = '/d' + c.string('dir', lengths[2], CHARS)
                files = []
                for i, n in enumerate(lengths[3:]):
                    name = 'f' * (i + 1) + c.string(f'f{i}_', n, PLAIN)
                    files.append(os.path.join(world.path, name))
                    with open(files[-1], 'w'):
                        pass
                s.env.setvar('D', dir)
                s.env.setvar('F', files)
                out, killed = attempt(s, 'upload CL (D) ' + ' '.join(f'(F[{i}])' for i in range(len(files))))
                expected = [files + [f'{user}@{"[" + x[2] + "]" if ":" in x[2] else x[2]}:{dir}'] for x in names]
            else:
                target = os.path.join(world.path, 'target' + c.string('dir', lengths[2], PLAIN))
                os.mkdir(target)
                files = ['/' + 'f' * (i + 1) + c.string(f'f{i}_', n, CHARS) for i, n in enumerate(lengths[3:])]
                s.env.setvar('D', target)
                s.env.setvar('F', files)
                out, killed = attempt(s, 'download (D) CL ' + ' '.join(f'(F[{i}])' for i in range(len(files))))
                expected = [[f'{user}@{"[" + x[2] + "]" if ":" in x[2] else x[2]}:{f}' for f in files] + [os.path.join(target, x[1].split(':')[0] if x[3] and ':' not in x[2] else x[2] if ':' in x[2] else x[1])]
                            for x in names]
                c.check(killed or sorted(os.listdir(target)) == sorted(set(os.path.basename(x[-1]) for x in expected)), f'{os.listdir(target)}')
        finally:
            fresh(s, ('CL', 'D', 'F'))
        if world.fork.failures:
            raise world.fork.failures[0]
        expected = [['-i', identity] + (['-P', str(x[3])] if x[3] else []) + y for x, y in zip(names, expected)]
        actual = [words(c, x) for x in world.ssh]
        c.check(killed is None and out == [], f'{which}: {killed} {out}')
        c.check(all(x[0] == 'scp' and x[1] == '-Cpqr' for x in actual), f'{actual}')
        actual = [x[2:] for x in actual]
        c.check(len(actual) == len(expected) and all(any(same(a, e) for a in actual) for e in expected), f'{which}: {actual}, expected {expected}')
    c.reach('done')


API = [lambda a: a.gen(3), lambda a: a.gen(4, 1) | a.window(disjoint=2), lambda a: a.gen(5) | a.tail(3) | a.reverse(), lambda a: a.gen(2) | a.union(a.gen(3, 5)),
       lambda a: a.ls('/nosuchdir')]


def from_python(c, which, i, hosts):
    """Called from Python"""
    from calls import python_session
    s = cli()
    REMOTE['V'] = [0, 0, 0]
    user = 'u' + c.string('user', 1, PLAIN)
    cl = cluster(hosts, user)
    names = [HOSTS[h] for h in hosts]
    with World(c) as world, python_session(s) as a:
        with d.Capture() as capture:
            if which in ('remote', 'sudo'):
                # The last one fails
                expected = None if i == len(API) - 1 else [tuple(x) for x in a.gather(API[i](a), unwrap_singleton=False)]
                out = a.gather(a.remote(cl, API[i](a)) if which == 'remote' else a.sudo(API[i](a), '-u', 'someone'), unwrap_singleton=False)
            else:
                path = os.path.join(world.path, 'f')
                for x in (path, path + '2'):
                    with open(x, 'w'):
                        pass
                out = a.gather(a.upload(cl, '/d', path, path + '2') if which == 'upload' else a.download(world.path, cl, '/x', '/y'), unwrap_singleton=False)
        if world.fork.failures:
            raise world.fork.failures[0]
        if which == 'remote':
            check_ssh(c, world.ssh, hosts, user, 'id')
            received = by_host(c, which, out, [x[1] for x in names])
            for name, x in received.items():
                c.check(len(x) == 1 and x[0][0] == 'Error' if expected is None else x == expected, f'remote: {x} from {name}, expected {expected}')
        elif which == 'sudo':
            actual = [words(c, x) for x in world.ssh]
            c.check(actual == [['sudo', '-u', 'someone', 'farcel.py']], f'{actual}')
            c.check(len(out) == 1 and (d.is_error(out[0]) or d.is_error(out[0][0])) if expected is None else [tuple(x) for x in out] == expected, f'sudo: {out}, expected {expected}')
        else:
            address = [f'{user}@{x[2]}:/' for x in names]
            expected = [(['-P', str(x[3])] if x[3] else []) + ([path, path + '2', b + 'd'] if which == 'upload' else [b + 'x', b + 'y', os.path.join(world.path, 'alpha' if h == 'port' else x[1])])
                        for h, x, b in zip(hosts, names, address)]
            actual = [words(c, x) for x in world.ssh]
            c.check(out == [] and len(actual) == len(expected) and all(any(same(x[4:], e) for x in actual) for e in expected), f'{which}: {actual}, expected {expected}, {out}')
    c.reach('done')


def scp_fails(c, which, hosts):
    """Some hosts fail: an Error for each, and the others are not affected"""
    s = cli()
    fails = {i: True for i in range(len(hosts)) if c.flag(f'fails{i}')}
    with World(c, fails=fails) as world:
        s.env.setvar('CL', cluster(hosts))
        with open(os.path.join(world.path, 'f'), 'w'):
            pass
        s.env.setvar('D', world.path)
        try:
            out, killed = attempt(s, {'upload': 'upload CL /tmp (D + "/f")', 'download': 'download (D) CL /x'}[which])
        finally:
            fresh(s, ('CL', 'D'))
        if world.fork.failures:
            raise world.fork.failures[0]
    c.check(killed is None and len(world.ssh) == len(hosts), f'{which}: {killed}, {world.ssh}')
    c.check(len(out) >= len(fails) and all(d.is_error(x) or d.is_error(x[0]) for x in out) and (fails or not out), f'{which}: {out}')
    c.reach('done')


def sudo(c, i, how, n):
    text = PIPELINES[i][0]
    s = cli()
    V = c.ints('v', 3)
    for x in V:
        c.assume(x >= -1)
        c.assume(x <= 2)
    expected = local(c, s, text, V)
    REMOTE['V'] = V
    flags = ['-u', 'a' + c.string('flag', n, tuple(x for x in CHARS if chr(x) != "'"))] if n else []
    with World(c) as world:
        given = "-u '" + flags[1] + "' " if n else ''
        n_runs = 1
        try:
            if how == 'variable':
                s.gather(f'Q = (| sudo {given}(| {text} |) |)')
                out, killed = attempt(s, 'Q')
                again, killed2 = attempt(s, 'Q')
                c.check(killed == killed2, f'{text}: {killed}, {killed2}')
                out = out + again
                n_runs = 2
            elif how == 'pipeline':
                s.gather(f'P = (| {text} |)')
                out, killed = attempt(s, f'sudo {given}P')
            elif how == 'args':
                out, killed = attempt(s, f'gen 2 | args (| n: sudo {given}(| {text} |) |)')
                n_runs = 2
            elif how == 'followed':
                out, killed = attempt(s, f'sudo {given}(| {text} |) | select (*x: True)')
            else:
                out, killed = attempt(s, f'sudo {given}(| {text} |)')
        finally:
            fresh(s, ('Q', 'P'))
    c.check(killed is None, f'{text}: {killed}')
    out = [('Error', (x if d.is_error(x) else x[0]).message) if d.is_error(x) or len(x) == 1 and d.is_error(x[0]) else x for x in out]
    actual = [words(c, x) for x in world.ssh]
    c.check(len(actual) == n_runs and all(same(x, ['sudo'] + flags + ['farcel.py']) for x in actual), f'{actual}, expected {flags}')
    c.check(equal(out, expected * n_runs), f'{text}: {out}, expected {expected * n_runs}')
    c.reach('done')


def never_run(c, hosts, command):
    """Another computer, or user, that has never run marcel"""
    s = cli()
    with World(c, new=True) as world:
        s.env.setvar('CL', cluster(hosts))
        try:
            out, killed = attempt(s, f'{command} (| gen 2 |)')
        finally:
            s.env.delvar('CL')
        if world.fork.failures:
            raise world.fork.failures[0]
    c.check(killed is None and sorted(x[-1] for x in out) == sorted([0, 1] * (len(hosts) if 'CL' in command else 1)), f'{out} {killed}')
    c.reach('done')


def rejected(c):
    """What is not a command"""
    s = cli()
    with World(c) as world:
        s.env.setvar('CL', cluster(('name',)))
        s.env.setvar('X', 5)
        with open(os.path.join(world.path, 'f'), 'w'):
            pass
        s.env.setvar('D', world.path)
        text = c.pick('text', ['@X (| gen 1 |)', '@NOSUCH (| gen 1 |)', '@CL', '@CL gen 1', '@CL (| n: gen 1 |)', 'gen 1 | @CL (| gen 1 |)',
                               'remote (| gen 1 |)', 'remote X (| gen 1 |)', 'sudo', 'sudo x', 'sudo (| gen 1 |) x', 'gen 1 | sudo (| gen 1 |)',
                               'upload CL', 'upload CL /x', 'upload CL x (D + "/f")', 'upload X /x (D + "/f")', 'upload CL /x (D + "/nosuch")',
                               'gen 1 | upload CL /x (D + "/f")', 'download (D) CL', 'download (D) X /x', 'download (D) CL x', 'download (D + "/nosuch") CL /x',
                               'gen 1 | download (D) CL /x', 'upload CL (X) (D + "/f")', 'download (D) CL (X)'])
        try:
            out, killed = attempt(s, text)
            rejected = False
        except BaseException as e:
            if type(e).__name__ not in ('ArgsError', 'ParseError', 'SyntaxError', 'KillCommandException', 'UnexpectedTokenError', 'UnknownOpError'):
                raise
            rejected, killed, out = True, str(e), []
        finally:
            fresh(s, ('CL', 'X', 'D'))
        c.check(killed is not None, f'{text}: {out}')
        c.check(world.ssh == [], f'{text}: {world.ssh}')
    c.reach('done')


def configured(c):
    """Which clusters are accepted"""
    from marcel.object.cluster import Cluster
    import marcel.exception
    options = [None, 'alpha', ('alpha', 22), ['alpha', 22], ['alpha', 'beta'], ('alpha', 'beta'), ['alpha'], [('alpha', 22), 'beta'], [], 5]
    host, hosts = c.pick('host', options), c.pick('hosts', options)
    identity = c.pick('identity', [None, 'id'])
    valid = (identity is not None and (host is None) != (hosts is None))
    expected = None
    if valid:
        if hosts is None:
            if host in ('alpha', ('alpha', 22), ['alpha', 22]):
                expected = [host]
        elif type(hosts) in (list, tuple) and hosts and not (len(hosts) == 2 and type(hosts[1]) is int):
            expected = list(hosts)
    if host == 5 or hosts == 5 or hosts == [] or hosts is not None and expected is None:
        return c.reach('unspecified')     # Reported when it is used
    saved = socket.gethostbyname
    socket.gethostbyname = NAMES.get
    try:
        actual = Cluster(user='me', host=host, hosts=hosts, identity=identity)
        actual = [(h.addr, h.port, str(h)) for h in actual]
    except marcel.exception.KillShellException:
        actual = None
    finally:
        socket.gethostbyname = saved
    if expected is not None:
        expected = [(NAMES[x], None, x) if type(x) is str else (NAMES[x[0]], x[1], f'{x[0]}:{x[1]}') for x in expected]
    c.check(actual == expected, f'host={host}, hosts={hosts}, identity={identity}: {actual}, expected {expected}')
    c.reach('done')


def hosts_differ(c):
    """Hosts are equal if they have been specified the same way"""
    from marcel.object.cluster import Cluster
    a, b = c.pick('a', list(HOSTS)), c.pick('b', list(HOSTS))
    cl = cluster((a, b))
    x, y = cl.hosts
    saved = socket.gethostbyname
    socket.gethostbyname = NAMES.get
    try:
        for before in (True, False):
            c.check((x == y) == (a == b) and (a != b or hash(x) == hash(y)), f'{a}, {b}: {x == y}')
            h = hash(x)
            if before:
                str(x), str(y)
            c.check(hash(x) == h, f'{a}: hash has changed')
        c.check(not (x == str(x)) and x != None, 'equal to something else')
    finally:
        socket.gethostbyname = saved
    c.reach('done')


@prop('P38', ['Remote', 'RunRemote', 'LabelThread', 'Sudo', 'Upload', 'Download', 'scp_command', 'farcel_invocation', 'Cluster', 'Host', 'ForkManager',
              'quote_files', 'farcel.main', 'PipelineRunner', 'PickleOutput'],
      {'quick': f'{len(PIPELINES)} pipelines on 3 integers from -1 to 2; clusters of 1..3 hosts; users, identities, flags, directories and file names '
                'with 1 arbitrary character each; a host that fails, or whose output is truncated at one of 4 points',
       'thorough': '2 arbitrary characters'},
      ['ssh, scp and sudo, and processes, are simulated: other computers run farcel.py in a simulated process, with another HOME; shlex.quote is modelled',
       'File names on other computers may be patterns, which scp expands'], strings=True)
def p38(tier):
    q = tier == 'quick'
    cases = []
    for i in range(len(PIPELINES)):
        for hosts in (('name',), ('port', 'port2'), ('name', 'other', 'ip6')):
            for how in ('plain', 'name', 'expression', 'variable', 'pipeline', 'args', 'grouped', 'fails', 'truncated'):
                if q and len(hosts) == 3 and i > 3 or len(hosts) == 1 and how not in ('plain', 'variable'):
                    continue
                cases.append(case(f'remote-{i}-{len(hosts)}-{how}', remotely, i, hosts, how, reach=['done']))
        for how in ('plain', 'variable', 'pipeline', 'args', 'followed'):
            cases.append(case(f'sudo-{i}-{how}', sudo, i, how, 0, reach=['done']))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for how in ('plain', 'variable'):
            cases.append(case(f'sudo-flags-{n}-{how}', sudo, 0, how, n, reach=['done']))
    k = 1 if q else 2
    for h in HOSTS:
        cases.append(case(f'ssh-{h}', commands, 'remote', (h,), (k, k), reach=['done']))
        for which in ('upload', 'download'):
            for lengths in ((k, 0, 0, 0), (0, k, 0, 0), (0, 0, k, 0), (0, 0, 0, k), (0, 0, 0, k, k), (0, 0, 0, 2)):
                if h in ('name', 'ip6port') or sum(lengths) == k:
                    cases.append(case(f'{which}-{h}-{"".join(map(str, lengths))}', commands, which, (h,), lengths, reach=['done']))
    for which in ('upload', 'download'):
        cases.append(case(f'{which}-hosts', commands, which, ('name', 'port', 'other'), (0, 0, 0, k), reach=['done']))
        cases.append(case(f'{which}-fails', scp_fails, which, ('name', 'other'), reach=['done']))
    for hosts in (('name',), ('port', 'other')):
        for i in range(len(API)):
            for which in ('remote', 'sudo'):
                if which == 'remote' or len(hosts) == 1:
                    cases.append(case(f'python-{which}-{i}-{len(hosts)}', from_python, which, i, hosts, reach=['done']))
        for which in ('upload', 'download'):
            cases.append(case(f'python-{which}-{len(hosts)}', from_python, which, 0, hosts, reach=['done']))
    for command in ('@CL', 'sudo'):
        cases.append(case(f'never-run-{command[-1]}', never_run, ('name', 'other'), command, reach=['done']))
    cases.append(case('rejected', rejected, reach=['done']))
    cases.append(case('configured', configured, reach=['done', 'unspecified']))
    cases.append(case('hosts', hosts_differ, reach=['done']))
    return cases
