"""Workspaces: exclusive use, life cycle, persistence"""
import os
import shutil

import marceldrv as d
from simproc import Machine
from symex import same, conj, disj, not_, implies, ite, total, b2i
from vcore import case, prop
from streams import cli


def kce():
    import marcel.exception
    return marcel.exception.KillCommandException


def workspace(name):
    from marcel.object.workspace import Workspace
    return Workspace(name)


def dirs(name):
    import marcel.locations
    l = marcel.locations.Locations()
    w = workspace(name)
    return l.config_ws(w), l.data_ws(w)


def remove(name):
    for dir in dirs(name):
        shutil.rmtree(dir, ignore_errors=True)


_template = None


def new_workspace(name='w'):
    """A new workspace that is not open. (Copied from one created by Workspace.create(), to save time.)"""
    global _template
    home = os.environ['HOME']
    if _template is None or _template[0] != home:
        remove('template')
        workspace('template').create()
        _template = home,
    remove(name)
    for source, target in zip(dirs('template'), dirs(name)):
        shutil.copytree(source, target)


def markers(name='w'):
    return sorted(f for f in os.listdir(dirs(name)[0]) if f.startswith('.WORKSPACE'))


class Use(object):
    """Who is using the workspace"""

    def __init__(self):
        self.holders = []
        self.conflict = None
        self.refused = []
        self.opened = []

    def hold(self, p):
        others = [q for q in self.holders if q.alive]
        if others:
            self.conflict = f'{p} opened the workspace, while {others} had it open'
        self.holders.append(p)
        self.opened.append(p)

    def release(self, p):
        self.holders.remove(p)

    def live(self):
        return [p for p in self.holders if p.alive]


def op_open(use, name='w', close=True):
    def body(p):
        env = cli().env
        ws = workspace(name)
        try:
            ws.open(env, env.initial_namespace())
        except kce() as e:
            use.refused.append(p)
            return
        use.hold(p)
        p.pause()
        if close:
            use.release(p)
            ws.close(env, False)
    return body


def op_create(use, name='w', close=True):
    def body(p):
        env = cli().env
        ws = workspace(name)
        # As in ws --new, followed by opening it
        try:
            if ws.exists():
                raise kce()('exists')
            ws.create()
            ws = workspace(name)
            ws.open(env, env.initial_namespace())
        except kce():
            use.refused.append(p)
            return
        use.hold(p)
        p.pause()
        if close:
            use.release(p)
            ws.close(env, False)
    return body


def op_delete(use, name='w', close=True):
    def body(p):
        try:
            workspace(name).delete(cli().env)
        except kce():
            use.refused.append(p)
            return
        others = use.live()
        if others:
            use.conflict = f'{p} deleted the workspace, while {others} had it open'
        use.deleted = True
    return body


def op_count(use, name='w'):
    """Increments a variable of the workspace"""
    def body(p):
        env = cli().env
        ws = workspace(name)
        use.started += 1
        try:
            ws.open(env, env.initial_namespace())
        except kce() as e:
            use.refused.append(p)
            return
        use.hold(p)
        use.seen.append(ws.getvar('count') or 0)
        ws.setvar('count', use.seen[-1] + 1)
        p.pause()
        use.closing += 1
        use.release(p)
        ws.close(env, False)
        use.closed += 1
    return body


OPS = {'open': op_open, 'create': op_create, 'delete': op_delete,
       'keep': lambda use: op_open(use, close=False)}


def counting(c, n, start, switches, crashes):
    """
    Each of n processes opens a workspace, increments a variable and closes the workspace. No increment is lost.
    """
    new_workspace()
    if start == 'abandoned':
        config = dirs('w')[0]
        os.rename(config / '.WORKSPACE', config / f'.WORKSPACE.{Machine.DEAD}')
    use = Use()
    use.started = use.closing = use.closed = 0
    use.seen = []
    cli()
    with Machine([dirs('w')[0], dirs('w')[1] / 'env.pickle']) as m:
        for i in range(n):
            m.spawn(f'process{i}', op_count(use))
        schedule = m.run(c, switches, crashes)
        for p in m.processes:
            c.check(p.error is None, f'{p} failed with {type(p.error).__name__}: {p.error}: {schedule}')
        c.check(use.closed >= 1 or any(not p.alive for p in m.processes), f'nobody could open the workspace: {schedule}')
        closing, closed = use.closing, use.closed
        q = m.spawn('last', op_count(use))
        more = m.run(c, 0, prefix='last')
        c.check(q.error is None and q in use.opened, f'the last process failed to open the workspace: {q.error}: {schedule}')
        c.check(closed <= use.seen[-1] <= closing,
                f'{closed} processes incremented the variable, but it is {use.seen[-1]}; values seen: {use.seen}: {schedule}')
        if closed > 1:
            c.reach('twice')
        if use.refused:
            c.reach('refused')
    remove('w')


def exclusive(c, ops, start, switches, crashes):
    """
    Processes open (and close), create, delete a workspace, in any interleaving, dying at any point: there is never
    more than one using it, and if there is none, it can be opened.
    """
    if start == 'absent':
        remove('w')
    else:
        new_workspace()
        config = dirs('w')[0]
        if start == 'abandoned':
            os.rename(config / '.WORKSPACE', config / f'.WORKSPACE.{Machine.DEAD}')
    use = Use()
    use.deleted = False
    cli()
    with Machine([dirs('w')[0]]) as m:
        for i, op in enumerate(ops):
            m.spawn(f'{op}{i}', OPS[op](use))
        schedule = m.run(c, switches, crashes)
        c.check(use.conflict is None, f'{use.conflict}: {schedule}')
        for p in m.processes:
            c.check(p.error is None, f'{p} failed with {type(p.error).__name__}: {p.error}: {schedule}')
        if use.opened:
            c.reach('opened')
        if use.refused:
            c.reach('refused')
        if len(use.opened) > 1:
            c.reach('opened twice')
        crashed = any(not p.alive for p in m.processes)
        if 'create' not in ops and not crashed and not use.deleted:
            c.check(len(use.opened) > 0, f'nobody could open the workspace: {schedule}')
        if not ('create' in ops or 'delete' in ops):
            # Whether it can be opened now depends only on whether it is in use
            live = use.live()
            q = m.spawn('last', op_open(use))
            more = m.run(c, 0, prefix='last')
            c.check(use.conflict is None, f'{use.conflict}: {schedule}, {more}')
            c.check(q.error is None, f'{q} failed with {type(q.error).__name__}: {q.error}: {schedule}')
            c.check((q in use.opened) == (not live), f'in use by {live}, but opening it yields {q in use.opened}: {schedule}')
            if not live:
                c.check(markers() == ['.WORKSPACE'], f'unexpected markers {markers()}: {schedule}')
    remove('w')


@prop('P19', ['Workspace.open', 'Workspace.close', 'Workspace.create', 'Workspace.delete', 'Workspace.lock_workspace',
              'Workspace.owner', 'Marker'],
      {'quick': 'two processes (open and close, open and keep, delete, create), workspace unowned, abandoned or absent; each '
                'operation on the workspace directory is a step, and so is each on the file of variables, if each process increments a variable; up to 2 preemptions without, 1 with a process dying, anywhere',
       'thorough': 'two processes with up to 4 preemptions, three with up to 3, up to 2 processes die, anywhere'},
      ['File system operations are atomic and sequentially consistent (local file system)',
       'Processes are simulated: file system operations are real, getpid and kill are not. Pids are not reused'])
def workspace_exclusive(tier):
    cases = []
    pairs = [('open', 'open'), ('open', 'keep'), ('open', 'delete')]
    for start in ('unowned', 'abandoned'):
        for ops in pairs:
            for crashes in (0, 1):
                k = (2 if crashes == 0 else 1) if tier == 'quick' else (4 if crashes == 0 else 3)
                reach = ['opened', 'refused', 'switch'] + (['crash'] if crashes else [])
                cases.append(case(f'{start}-{"-".join(ops)}-{crashes}', exclusive, ops, start, k, crashes, reach=reach))
    for crashes in (0, 1):
        k = 2 - crashes if tier == 'quick' else 4
        cases.append(case(f'absent-create-create-{crashes}', exclusive, ('create', 'create'), 'absent', k, crashes,
                          reach=['opened', 'refused', 'switch']))
    for start in ('unowned', 'abandoned'):
        k = 1 if tier == 'quick' else 3
        cases.append(case(f'{start}-three', exclusive, ('open', 'open', 'keep'), start, k, 0, reach=['opened', 'refused']))
        if tier == 'thorough':
            cases.append(case(f'{start}-three-crash', exclusive, ('open', 'open', 'keep'), start, 2, 2, reach=['crash']))
        for crashes in (0, 1):
            k = 2 - crashes if tier == 'quick' else 3
            cases.append(case(f'{start}-count-{crashes}', counting, 2, start, k, crashes, reach=['twice', 'refused', 'switch']))
        if tier == 'thorough':
            cases.append(case(f'{start}-count-three', counting, 3, start, 2, 0, reach=['twice', 'refused', 'switch']))
    return cases


# -- Sessions: several marcel processes, one after the other, each running a script by marcel's main loop ----------------

class Process(object):
    """A marcel process executing a script. (The process's exit handlers are run at the end.)"""

    def __init__(self):
        self.output = None

    def run(self, lines, exit=True):
        import atexit
        import io
        import sys
        import marcel.main
        cli()   # For initialization
        handlers = []
        saved = atexit.register, atexit.unregister
        streams = sys.stdout, sys.stderr
        atexit.register = handlers.append
        atexit.unregister = lambda f: [handlers.remove(h) for h in list(handlers) if h == f]
        sys.stdout = sys.stderr = out = io.StringIO()
        try:
            marcel.main.main_script_run('\n'.join(lines))
            if exit:
                for h in reversed(list(handlers)):
                    h()
        finally:
            atexit.register, atexit.unregister = saved
            sys.stdout, sys.stderr = streams
        return out.getvalue()


def plain(text):
    import re
    return re.sub('\x1b\\[[0-9;]*m', '', text)


def outputs(lines):
    """Runs each line, returning what it prints (output or error message)"""
    script = []
    for i, line in enumerate(lines):
        script += [f"(' # {i} ')", line]
    out = plain(Process().run(script))
    parts = out.split(' # ')
    assert len(parts) == len(lines) + 1, (parts, lines)
    return parts[0], [p.split(' \n', 1)[1].strip() for p in parts[1:]]


def clean():
    for name in NAMES:
        remove(name)


NAMES = ['wa', 'wb']
HOMES = [None, '/tmp', 'sub/home']


class Model(object):
    """What workspaces exist, and what is in them"""

    def __init__(self):
        self.workspaces = {}   # name -> {var: value}
        self.homes = {}
        self.default = {}
        self.current = None

    def vars(self):
        return self.default if self.current is None else self.workspaces[self.current]

    def describe(self, name):
        home = self.homes.get(name)
        return f'Workspace({name})' if home is None else f'Workspace({name} @ {home})'

    # Each action returns the output expected, or None if an error message is expected.

    def act(self, action, arg, value):
        w = self.workspaces
        if action == 'new':
            if arg in w:
                return None
            w[arg] = {}
            self.current = arg
            return self.describe(arg)
        if action == 'open':
            if arg not in w:
                return None
            if self.current == arg:
                return ''
            self.current = arg
            # Properties have not been read yet
            return f'Workspace({arg})'
        if action == 'close':
            out = '' if self.current is None else 'Workspace()'
            self.current = None
            return out
        if action == 'delete':
            if arg not in w or self.current == arg:
                return None
            del w[arg]
            self.homes.pop(arg, None)
            return ''
        if action == 'home':
            if self.current is None:
                return None
            self.homes[self.current] = os.path.join(os.getcwd(), value)
            return self.describe(self.current)
        if action == 'set':
            self.vars()['x'] = value
            return ''
        if action == 'unset':
            out = '' if 'x' not in self.vars() else f"('x', {self.vars()['x']})"
            self.vars().pop('x', None)
            return out
        assert False, action


ACTIONS = [('new', 'wa'), ('new', 'wb'), ('open', 'wa'), ('open', 'wb'), ('close', None), ('delete', 'wa'),
           ('delete', 'wb'), ('home', None), ('set', None), ('unset', None), ('exit', None)]


def lifecycle(c, n, actions, prefix=()):
    """A history of workspace operations and assignments, in successive marcel processes"""
    clean()
    model = Model()
    histories = [[]]     # One per process
    for i in range(n):
        action, arg = prefix[i] if i < len(prefix) else c.pick(f'action{i}', actions)
        if action == 'exit':
            histories.append([])
            continue
        value = HOMES[1 + i % 2] if action == 'home' else 10 + i
        histories[-1].append((action, arg, value))
    description = []
    for history in histories:
        model.current = None
        model.default = {}
        lines, expected = [], []

        def observe():
            lines.append('ws')
            expected.append('Workspace()' if model.current is None else model.describe(model.current))
            lines.append('ws --list')
            expected.append('\n'.join(['Workspace()'] + [model.describe(w) for w in sorted(model.workspaces)]))
            x = model.vars().get('x')
            lines.append("(x)")
            expected.append(None if x is None else str(x))
        observe()
        for action, arg, value in history:
            line = {'new': f'ws --new {arg}', 'open': f'ws {arg}' if value % 2 else f'ws --open {arg}',
                    'delete': f'ws --delete {arg}', 'close': 'ws --close', 'home': f'ws --home {value}',
                    'set': f'x = ({value})', 'unset': 'env -d x'}[action] if action != 'home' else f'ws --home {value}'
            lines.append(line)
            expected.append(model.act(action, arg, value))
            description.append(line)
            observe()
        startup, actual = outputs(lines)
        c.check(startup.strip() == '', f'{description}: on startup: {startup}')
        for line, a, e in zip(lines, actual, expected):
            if e is None:
                c.reach('error')
                c.check(a != '' and not a.startswith('Workspace('), f'{description}: {line}: printed {a!r}, error expected')
            else:
                c.check(a == e, f'{description}: {line}: printed {a!r}, expected {e!r}')
        description.append('exit')
        for name in model.workspaces:
            c.check(markers(name) == ['.WORKSPACE'], f'{description}: workspace {name} is left in use: {markers(name)}')
        c.reach('done')
    clean()


LONG = {'255': 'n' * 255, '256': 'n' * 256, 'wide': '\u4e2d' * 86, 'default': '__DEFAULT__'}


def snapshot():
    """What there is in the scratch HOME, except for what belongs to the default workspace"""
    home = os.environ['HOME']
    return sorted(os.path.relpath(os.path.join(where, x), home) for where, dirs, files in os.walk(home) for x in dirs + files
                  if '__DEFAULT__' not in where and '/broken' not in where)


def names(c, n):
    """Workspaces of any name"""
    clean()
    name = LONG[c.pick('name', list(LONG))] if n is None else ''.join(c.pick(f'char{i}', list("a./ -\0'~_")) for i in range(n))
    cli()
    outputs(['gen 1'])
    before = snapshot()
    from marcel.object.workspace import Workspace
    try:
        Workspace(name).create()
        created = True
    except kce():
        created = False
    legal = '/' not in name and '\0' not in name and name not in ('', '.', '..', '__DEFAULT__') and len(name.encode()) < 256
    c.check(created == legal, f'workspace {name!r} created: {created}')
    written = '(' + ' + '.join([f'chr({ord(x)})' for x in name] or ["''"]) + ')'
    if len(name) > 4:
        written = name
    if created:
        c.reach('created')
        startup, out = outputs(['ws --list', f'ws {written}', 'y = (5)', 'ws --close'])
        c.check(startup.strip() == '' and out[0] == '\n'.join(f'Workspace({x})' for x in sorted(['', name])), f'workspace {name!r}: {startup} {out}')
        startup, out = outputs([f'ws -o {written}', '(y)', 'ws -c', f'ws -d {written}', 'ws -l'])
        c.check(startup.strip() == '' and out[1] == '5' and out[3:] == ['', 'Workspace()'], f'workspace {name!r}, opened again: {startup} {out}')
    else:
        c.reach('rejected')
        startup, out = outputs(['ws -l', f'ws -n {written}', f'ws -o {written}', f'ws -d {written}', 'ws'])
        c.check(startup.strip() == '' and out[0] == 'Workspace()' and out[4] == 'Workspace()' and all(out[1:4]), f'workspace {name!r}: {startup} {out}')
    c.check(snapshot() == before, f'workspace {name!r}: left: {set(snapshot()) ^ set(before)}')


@prop('P20', ['Workspace', 'Ws', 'main_script_run', 'MainScript.shutdown', 'Environment.create', 'NestedNamespace.to_persistent_state',
              'NestedNamespace.from_persistent_state'],
      {'quick': 'every history of 3 actions out of: new, open, delete of two workspaces, close, home, assign, delete of a '
                'variable, exit and restart; every history of 4 of those that begin by creating a workspace; '
                'workspaces with any name of 0..2 out of 9 characters',
       'thorough': 'every history of 4 of these actions, and of 5 beginning by creating a workspace; names of 0..3 characters'},
      ['Each marcel process is simulated by main_script_run in the same process, exit handlers included',
       'State left in memory by a previous process: class-level state of marcel, which these operations do not use'])
def workspace_lifecycle(tier):
    n = 3 if tier == 'quick' else 4
    cases = []
    for i, a in enumerate(ACTIONS):
        cases.append(case(f'history-{a[0]}-{a[1]}', lifecycle, n, ACTIONS, (a,), reach=['done']))
    new = ('new', 'wa')
    for a in ACTIONS:
        if a != new:
            cases.append(case(f'history-new-{a[0]}-{a[1]}', lifecycle, n + 1, ACTIONS, (new, a), reach=['done']))
    for k in range(0, n):
        cases.append(case(f'names-{k}', names, k))
    cases.append(case('names-long', names, None, reach=['created', 'rejected']))
    return cases


# -- Values -----------------------------------------------------------------------------------------------------------

class Session(d.Cli):
    """A script using a workspace that exists"""

    def __init__(self, name='w'):
        import atexit
        import marcel.env
        import marcel.main
        cli()
        with d.Capture():
            self.env = marcel.env.Environment.create(workspace=workspace(name))
            self.main = marcel.main.MainScript(self.env)
            self.env.enforce_var_immutability()
        atexit.unregister(self.main.shutdown)

    def bind(self, **vars):
        for var, value in vars.items():
            self.env.workspace.namespace.assign_permanent(var, value)
        return self

    def close(self):
        with d.Capture():
            self.env.workspace.close(self.env, False)

    def names(self):
        return {var for var, value in self.gather('env')} - {'V', 'LOCAL'}


class Value(object):
    def __init__(self, kind, i, vs):
        self.kind = kind
        self.i = i
        self.vs = vs

    def assignment(self, var):
        i = self.i
        return {'int': f'{var} = (V[{i}])',
                'list': f'{var} = ([V[{i}], (V[{i + 1}], None)])',
                'string': f'{var} = s{i}',
                'none': f'{var} = (None)',
                'function': f'{var} = (lambda i: (i, {i}))',
                'expression': f'{var} = (int.__add__)',
                'pipeline': f'{var} = (| n: map (x: (x, n, {i})) |)',
                'builtin': f'{var} = (len)',
                'method': f'{var} = ("{i}".join)',
                'module': f'import -a {var} {("os", "math", "os.path", "string")[i % 4]}',
                'symbol': f'import --as {var} operator {("add", "sub", "mul", "itemgetter")[i % 4]}',
                'reservoir': f'gen 2 | map (x: V[x + {i}]) >$ {var}',
                'unsaveable': f'{var} = ([(x for x in [1])])',
                'unrestorable': f'{var} = (LOCAL)',
                }[self.kind]

    def survives(self):
        return self.kind not in ('unsaveable', 'unrestorable')

    def check(self, c, s, var, what):
        v = self.vs
        i = self.i
        probe, expected = {
            'int': (f'({var})', lambda: [v[i]]),
            'list': (f'({var})', lambda: [[v[i], (v[i + 1], None)]]),
            'string': (f'({var})', lambda: [f's{i}']),
            'none': (f'({var})', lambda: [None]),
            'function': (f'({var}(V[0]))', lambda: [(v[0], i)]),
            'expression': (f'({var}(1, 2))', lambda: [3]),
            'pipeline': (f'gen 1 | map (x: V[0]) | {var} (V[1])', lambda: [(v[0], v[1], i)]),
            'builtin': (f'({var}([1, 1]))', lambda: [2]),
            'method': (f'({var}(["a", "b"]))', lambda: [f'a{i}b']),
            'module': (f'({var}.__name__)', lambda: [('os', 'math', 'posixpath', 'string')[i % 4]]),
            'symbol': (f'({var}.__name__)', lambda: [('add', 'sub', 'mul', 'itemgetter')[i % 4]]),
            'reservoir': (f'{var} <$', lambda: v[i:i + 2]),
            'unsaveable': (f'(len({var}))', lambda: [1]),
            'unrestorable': (f'({var}(V[1]))', lambda: [v[1]]),
        }[self.kind]
        try:
            out = s.gather(probe)
        except Exception as e:
            c.fail(f'{what}: {probe} failed with {e}')
        expected = expected()
        c.check(len(out) == len(expected), f'{what}: {probe}: expected {expected}, got {out}')
        c.check(same(out, expected), f'{what}: {probe}: expected {expected}, got {out}')


def values(c, kinds, n, variables, initial, mixed):
    """Variables are assigned, reassigned, deleted, the workspace closed and reopened"""
    new_workspace()
    vs = c.ints('v', n + 2)
    local = {'V': vs, 'LOCAL': lambda x: x}
    s = Session().bind(**local)
    base = s.names()
    model = {}
    history = []

    def reopen(s, close=True):
        s.close()
        history.append('reopen')
        for var in [var for var, value in model.items() if not value.survives()]:
            del model[var]
            c.reach('lost')
        s = Session().bind(V=vs)
        observe(s)
        s.bind(LOCAL=local['LOCAL'])
        return s

    def observe(s):
        c.check(s.names() == base | set(model), f'{history}: variables {sorted(s.names() ^ base)}, expected {sorted(model)}')
        for var, value in model.items():
            value.check(c, s, var, history)

    try:
        for i in range(n):
            kind = initial if i == 0 else c.pick(f'action{i}', ['reopen', 'delete'] + kinds)
            if kind == 'reopen':
                s = reopen(s)
                continue
            var = variables[0] if i == 0 else c.pick(f'var{i}', variables)
            if kind == 'delete':
                history.append(f'delete {var}')
                out, err = s.run(f'env -d {var}')
                model.pop(var, None)
            else:
                value = Value(kind, i, vs)
                history.append(value.assignment(var))
                out, err = s.run(value.assignment(var))
                model[var] = value
            c.check(err == '', f'{history} failed: {err}')
        observe(s)
        s = reopen(s)
        s = reopen(s)
        c.reach('reopened')
        s.close()
    finally:
        remove('w')


# Definitions of X, definitions of D that depend on X, an expression, what is expected in terms of V
DEPENDENT = {
    'pipeline': ('X = (| n: map (x: (x, n)) |)', 'D = (| gen 2 | X (V[0]) |)', 'D', lambda v: [(0, v[0]), (1, v[0])]),
    'function': ('X = (lambda x: x + V[0])', 'D = (| gen 2 | map (x: X(x)) |)', 'D', lambda v: [v[0], v[0] + 1]),
    'called': ('X = (lambda x: x + V[0])', 'D = (lambda x: X(x) + 1)', '(D(V[1]))', lambda v: [v[1] + v[0] + 1]),
    'alias': ('X = (lambda x: x + V[0])', 'D = (X)', '(D(V[1]))', lambda v: [v[1] + v[0]]),
    'bound': ('X = (lambda x: x + 3)', 'D = (X.__call__)', '(D(V[1]))', lambda v: [v[1] + 3]),
    'reservoir': ('gen 2 | map (x: V[x]) >$ X', 'D = (| X <$ map (x: (x, V[1])) |)', 'D', lambda v: [(v[0], v[1]), (v[1], v[1])]),
    'parameter': ('X = (| n: map (x: (x, n)) |)', 'D = (| n: gen 2 | X (n) |)', 'D (V[1])', lambda v: [(0, v[1]), (1, v[1])]),
    'nested': ('X = (| map (x: (x, V[0])) |)', 'D = (| gen 2 | args (| n: gen 1 (n) | X |) |)', 'D', lambda v: [(0, v[0]), (1, v[0])]),
    'first': ('X = (| gen 2 | map (x: (x, V[0])) |)', 'D = (| X | map (x, y: (y, x)) |)', 'D', lambda v: [(v[0], 0), (v[0], 1)]),
    'value': ('X = (V[0])', 'D = (| gen 1 | map (x: X) |)', 'D', lambda v: [v[0]]),
    'cluster': ("X = (__import__('marcel.object.cluster').object.cluster.Cluster(user='me', hosts=['127.0.0.1'], identity='x'))",
                'D = (| @X (| gen 1 |) |)', '(len(X.hosts))', lambda v: [1]),
}


def dependent(c, kind, how):
    """Variables that depend on others, and may have been assigned before them"""
    import simfork
    definition, dependent, probe, expected = DEPENDENT[kind]
    new_workspace()
    v = c.ints('v', 2)
    s = Session().bind(V=v)
    if how == 'fork':
        s.env.setvar('V', v)
    order = c.pick('order', ['X D', 'D0 X D', 'X0 D0 X D', 'D0 X0 X D', 'D0 E X D', 'X D X0 X', 'D0 X1 X D'])
    try:
        for var in order.split():
            text = {'X': definition, 'D': dependent, 'D0': 'D = 7', 'X0': 'X = (None)', 'X1': 'X = x', 'E': 'E = (lambda x: D)'}[var]
            out, err = s.run(text)
            c.check(err == '', f'{order}: {text}: {err}')
        for i in range(3):
            if i > 0:
                if how == 'fork':
                    break
                s.close()
                s = Session().bind(V=v)
            c.check({'X', 'D'} <= s.names(), f'{order}: {sorted({"X", "D"} - s.names())} lost')
            out = s.gather(probe)
            c.check(same(out, expected(v)), f'{order}, reopened {i} times: {probe}: {out}, expected {expected(v)}')
        if how == 'fork':
            with simfork.World(c, 0):
                out = s.gather(f'fork 1 (| t: {probe} |)')
            c.check(same(out, expected(v)), f'{order}: fork {probe}: {out}, expected {expected(v)}')
        c.reach('done')
        s.close()
    finally:
        remove('w')


def dying(c, actions, crashes):
    """
    A process changes variables and the workspace's home. It dies at some point. The workspace is usable: variables
    have the values before or after, all of them.
    """
    new_workspace()
    s = Session()
    for var in 'ab':
        s.run(f'{var} = (1)')
    s.env.workspace.set_home('/tmp')
    s.close()

    def body(p):
        s = Session()
        for action in actions:
            if action == 'home':
                s.run('ws --home /usr')
            elif action == 'unset':
                s.run('env -d a')
            elif action == 'big':
                # Larger than any buffer
                s.run('b = ("x" * 2000000)')
            else:
                s.run(action)
        p.done = True
        s.close()
        p.closed = True

    def after(p):
        s = Session()
        p.home = str(s.env.workspace.home())
        p.vars = {var: s.gather(f'({var})')[0] for var in 'abc' if var in s.names()}
        s.close()

    before = {'a': 1, 'b': 1}
    final = dict(before)
    for action in actions:
        if action == 'unset':
            del final['a']
        elif action == 'big':
            final['b'] = 'x' * 2000000
        elif action != 'home':
            final[action[0]] = int(action[5])
    with Machine(dirs('w')) as m:
        p = m.spawn('p', body)
        p.done = p.closed = False
        schedule = m.run(c, 0, crashes)
        c.check(p.error is None, f'{actions}: failed with {p.error}')
        n = len(schedule)
        q = m.spawn('q', after)
        m.run(c, 0, prefix='after')
        c.check(q.error is None, f'{actions}: died, and then the workspace cannot be opened and closed: '
                                 f'{type(q.error).__name__}: {q.error}')
        allowed = [final] if p.closed else [before, final] if p.done else [before]
        what = 'closed' if p.closed else 'died'
        brief = {k: v if type(v) is int else '...' for k, v in q.vars.items()}
        c.check(q.vars in allowed, f'{actions}: {what}, and then the variables are {brief}')
        homes = ['/usr'] if p.done and 'home' in actions else ['/tmp', '/usr'] if 'home' in actions else ['/tmp']
        c.check(q.home in homes, f'{actions}: {what}, and then the home is {q.home}')
        c.reach('closed' if p.closed else 'crashed')
    cli()
    import marcel.persistence.persistence
    problems = []
    marcel.persistence.persistence.validate_all(lambda names, errors: problems.extend(errors))
    c.check(not problems, f'{actions}: {what}, and then the workspace is considered damaged: {problems}')
    try:
        workspace('w').delete(cli().env)
    except Exception as e:
        c.fail(f'{actions}: {what}, and then the workspace cannot be deleted: {e}')
    c.check(not any(x.exists() for x in dirs('w')), f'{actions}: {what}, and then deleting the workspace is incomplete')


@prop('P21', ['Workspace.open', 'Workspace.close', 'Workspace.write_environment', 'Workspace.write_properties',
              'EnvValue (all kinds)', 'NestedNamespace.to_persistent_state', 'NestedNamespace.from_persistent_state',
              'Reservoir', 'WorkspaceValidater'],
      {'quick': 'values: every history of 2 actions (assign a value of one of 14 kinds, delete, close and reopen) on 2 '
                'variables, 3 with 5 kinds; followed by closing and reopening twice; integers within the values are symbolic. '
                'Dying: 5 sequences of changes, the process dies before any of its file operations',
       'thorough': 'values: every history of 3 actions with all kinds, of 4 with 5 kinds'},
      ['File system operations are atomic; a process that dies loses no completed write (no power failure)',
       'A function or expression value refers to no other variable (marcel evaluates the source again when reopening)'])
def workspace_values(tier):
    cases = []
    kinds = ['int', 'list', 'string', 'none', 'function', 'expression', 'pipeline', 'builtin', 'method', 'module', 'symbol', 'reservoir',
             'unsaveable', 'unrestorable']
    few = ['int', 'pipeline', 'reservoir', 'function', 'unsaveable']
    n = 2 if tier == 'quick' else 3
    for k in kinds:
        cases.append(case(f'values-{k}', values, kinds, n, ['a', 'b'], k, True, reach=['reopened']))
    for k in few:
        cases.append(case(f'values-more-{k}', values, few, n + 1, ['a', 'b'], k, True, reach=['reopened']))
    for kind in DEPENDENT:
        for how in ('reopen', 'fork'):
            cases.append(case(f'dependent-{kind}-{how}', dependent, kind, how, reach=['done']))
    for i, actions in enumerate([['a = (2)', 'b = (3)'], ['home'], ['a = (2)', 'home', 'c = (3)'], ['unset', 'big'],
                                 ['big', 'home']]):
        cases.append(case(f'dying-{i}', dying, actions, 1, reach=['closed', 'crashed']))
    return cases
