"""Arguments of operators given as expressions"""
import os
import shutil
import sys

import marceldrv as d
from symex import same, conj, disj, not_
from vcore import case, prop
from streams import cli, bind
import symstr

# Where an argument may be given by an expression: the command, and the kinds of values accepted there.
#    nat: an integer, rejected if negative.  path: a string or a File
SLOTS = {
    'gen-count': ('gen {} | head 5', 'int'),
    'gen-start': ('gen 2 {}', 'int'),
    'gen-pad': ('gen -p {} 2 9', 'int'),
    'head': ('gen 3 | head {}', 'int'),
    'tail': ('gen 3 | tail {}', 'int'),
    'expand': ('gen 2 | map (i: (i, (1, 2), 3)) | expand {}', 'nat'),
    'window-overlap': ('gen 4 | window -o {}', 'nat'),
    'window-disjoint': ('gen 4 | window --disjoint {}', 'nat'),
    'args-gen': ('gen 2 | args (| n: gen {} | head 3 |)', 'int'),
    'function': ('f = (| n: gen 4 | head {} |) ; f 2', 'int'),
    'fork': ('fork {} (| t: map (7) |)', 'forkgen'),
    'ls': ('ls {} | map (f: str(f))', 'path'),
    'ls-flag': ('ls -fr {} | map (f: str(f))', 'path'),
    'ls-second': ('ls d {} | map (f: str(f))', 'path'),
    'read': ('read {}', 'path'),
    'read-csv': ('read --csv {}', 'path'),
    'write': ('gen 2 | write {}', 'str'),
    'write-append': ('gen 2 | write -a {}', 'str'),
    'write-format': ('gen 2 | write -f {} out', 'str'),
    'cd': ('cd {}', 'path'),
    'pushd': ('pushd {}', 'path'),
    'env-var': ('env {}', 'str'),
    'env-os': ('env --os {}', 'str'),
    'env-pattern': ('env -p {}', 'str'),
    'env-delete': ('env --delete {}', 'str'),
    'import': ('import {}', 'str'),
    'import-symbol': ('import math {}', 'str'),
    'import-as': ('import -a {} math', 'str'),
    'import-symbol-as': ('import --as {} math pi', 'str'),
    'bash': ('bash echo {}', 'any'),
    'bash-name': ('echo x {}', 'any'),
    'sql-statement': ('sql {}', 'str'),
    'sql-arg': ("sql 'select x' {}", 'any'),
    'sql-args': ("sql 'insert x' 1 {}", 'any'),
    'sql-db': ("sql -d {} 'select x'", 'str'),
    'sql-commit': ("gen 4 | sql -u -c {} 'insert x'", 'nat'),
    'timer': ('timer {}', 'interval'),
    'help': ('help {}', 'str'),
    'trace': ('trace -f {}', 'str'),
    'ps-pid': ('ps -p {} | map (p: p.pid)', 'id'),
    'ps-user': ('ps -u {} | map (p: p.pid)', 'id'),
    'ps-group': ('ps -g {} | map (p: p.pid)', 'id'),
    'ps-command': ('ps -c {} | map (p: p.pid)', 'str'),
    'ws-name': ('ws {}', 'str'),
    'ws-new': ('ws --new {}', 'str'),
    'ws-open': ('ws -o {}', 'str'),
    'ws-delete': ('ws -d {}', 'str'),
    'ws-home': ('ws --home {}', 'path'),
}
TEXTS = {
    'str': ['f', 'd', 'nothing', 'v_1', 'a b', 'sort', '*', 'x{}'],
    'forkgen': ['ab'],
}
SPECIAL = {
    'gen-pad': ['5'],
    'write-format': ['f', 'x{}', '{:3}y', '{0}{0}'],
    'env-var': ['VAR', 'nothing', 'a b'],
    'env-os': ['VERIF_X', 'nothing'],
    'env-pattern': ['VAR', 'nothing', 'VA'],
    'env-delete': ['VAR', 'nothing'],
    'import': ['math', 'nothing_of_the_kind', 'os.path', 'a b'],
    'import-symbol': ['pi', '*', 'nothing', 'a b'],
    'import-as': ['name', 'a b'],
    'import-symbol-as': ['name', 'a b'],
    'bash': ['f', 'x{}', 'ab'],
    'bash-name': ['f', 'x{}', 'ab'],
    'sql-statement': ['select y', 'insert y', 'update y'],
    'sql-db': ['DB_X', 'nothing', 'VAR'],
    'trace': ['f', 'new', 'nothing/x'],
    'ps-pid': ['1', 'abc', '77'],
    'ps-user': ['root', '0', 'nobody_like_this', '77'],
    'ps-group': ['root', '0', 'nobody_like_this', '77'],
    'ps-command': ['ab', 'nothing'],
    'ws-name': ['wa', 'nothing', 'a b'],
    'ws-open': ['wa', 'nothing', 'a b'],
    'ws-delete': ['wa', 'nothing'],
    'ws-new': ['wa', 'wb'],
    'ws-home': ['d', 'nothing', 'f'],
}
OTHERS = ['None', '2.5', '[1]', '(1, 2)', '{}', 'lambda', 'object', 'File', 'True', 'Exception', 'b"x"', 'nan']


class Connection(object):
    log = []
    autocommit = False

    def query(self, statement, args):
        self.log.append(('query', statement, [str(x) for x in args]))
        return [(1, statement)]

    def insert(self, statement, args):
        self.log.append(('insert', statement, [str(x) for x in args]))
        return 1

    execute = insert

    def commit(self):
        self.log.append('commit')

    def rollback(self):
        self.log.append('rollback')

    def close(self):
        self.log.append('close')

    def set_autocommit(self, x):
        self.log.append(('autocommit', x))


class World(object):
    """Files, variables, processes and so on, the same each time"""
    databases = []

    def __init__(self, s):
        self.s = s
        self.base = os.path.join(os.path.realpath(d.scratch_dir()), 'arguments')
        os.chdir('/')
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base + '/d/e')
        for name, text in (('f', '1,2\n'), ('a b', 'x y\n'), ('d/e/f', 'z\n')):
            with open(f'{self.base}/{name}', 'w') as f:
                f.write(text)
        os.chdir(self.base)
        env = s.env
        env.assign_permanent('PWD', self.base)
        env.assign_permanent('DIRS', [self.base + '/d', self.base])
        env.assign_permanent('VAR', 1)
        self.namespace = env.workspace.namespace
        self.names = set(env.vars())
        os.environ['VERIF_X'] = 'y'
        del Connection.log[:]
        self.trace = []

    def __enter__(self):
        import marcel.object.db
        import marcel.util
        import workspaces
        import marcel.op.timer
        import psutil
        s = self.s
        workspaces.clean()
        workspaces.new_workspace('wa')
        if not self.databases:
            self.databases.append(marcel.object.db.Database('psycopg2', 'x', 'me'))
            self.databases[0].connection = Connection
        db, = self.databases
        self.namespace.assign_permanent('DB_X', db)
        self.namespace.assign_permanent('DB_DEFAULT', db)
        self.saved = [(psutil, 'process_iter', psutil.process_iter), (marcel.util, 'console_width', marcel.util.console_width),
                      (s.env.trace, 'enable', s.env.trace.enable), (marcel.op.timer.Timer, 'run', marcel.op.timer.Timer.run)]

        def process(info):
            x = object.__new__(psutil.Process)
            x.info = info
            return x

        def processes(attrs):
            return [process(dict(pid=pid, ppid=1, cmdline=[name], name=name, exe='/bin/' + name,
                                                             uids=[uid, uid, uid],
                                                             gids=[uid, uid, uid]))
                    for pid, name, uid in ((1, 'init', 0), (77, 'ab', 77), (78, 'f', 0))]
        psutil.process_iter = processes
        marcel.util.console_width = lambda: 80
        s.env.trace.enable = lambda to: self.trace.append(str(to) if isinstance(to, (str, os.PathLike)) else type(to).__name__)
        # Endless
        marcel.op.timer.Timer.run = lambda timer, env: timer.send(env, float(timer.interval))
        return self

    def __exit__(self, *a):
        for where, name, value in self.saved:
            if name == 'enable':
                del where.enable
            else:
                setattr(where, name, value)
        os.chdir('/')
        self.s.env.assign_permanent('PWD', '/')
        self.s.env.assign_permanent('DIRS', ['/'])
        for name in set(self.s.env.vars()) - self.names:
            self.namespace.delete(name) if hasattr(self.namespace, 'delete') else self.namespace.pop(name, None)
        import workspaces
        workspaces.clean()

    def state(self):
        files = []
        for where, dirs, names in os.walk(self.base):
            for name in names:
                with open(os.path.join(where, name), 'rb') as f:
                    files.append((os.path.relpath(where, self.base), name, f.read()))
            files += [(os.path.relpath(where, self.base), name) for name in dirs]
        env = self.s.env
        import workspaces
        import marcel.object.workspace
        return (sorted(map(str, files)), os.getcwd(), env.getvar('PWD'), env.getvar('DIRS'), sorted(set(env.vars()) - self.names - {'f'}),
                env.getvar('VAR') if env.hasvar('VAR') else 'deleted', [str(x) for x in Connection.log], self.trace,
                [name for name in ('wa', 'wb', 'a b') if marcel.object.workspace.Workspace(name).exists()],
                str(env.workspace.properties.home) if getattr(env.workspace, 'properties', None) is not None else None)


def outcome(s, text):
    """What a command does: output, whether it was rejected, effects"""
    import marcel.exception
    with World(s) as w:
        killed = None
        out = []
        try:
            for line in text.split(' ; '):
                out = s.gather(line)
        except d.Killed as e:
            killed = str(e)
        except (marcel.exception.ReconfigureException, marcel.exception.KillAndResumeException) as e:
            out = [f'{type(e).__name__} {e}']
        return [x if isinstance(x, (bool, int, float, tuple, list)) else str(x) for x in out], killed, w.state()


def quoted(x):
    return "'" + x.replace('\\', '\\\\').replace("'", "\\'") + "'" if not x.isalnum() or x == '' else x


def value_of(c, slot, kind):
    """Any value, its kinds, and how it would be written without an expression"""
    which = c.pick('kind', ['int', 'str', 'other'])
    if which == 'int':
        if slot in ('gen-pad', 'timer') or kind in ('any', 'id'):
            # Becomes part of a string (the format), or a float
            x = c.pick('x', list(range(-2, 5)))
        else:
            x = c.int('x')
            c.assume(conj([x >= -2, x <= 4]))
            if slot in ('gen-count', 'args-gen'):
                # Endless
                c.assume(not_(same(x, 0)))
        return x, 'int', lambda: str(symstr.concretize(x) if isinstance(x, str) else int(x))
    if which == 'str':
        x = c.pick('x', SPECIAL.get(slot, TEXTS.get(kind, TEXTS['str'])))
        return x, 'str', lambda: quoted(x)
    other = c.pick('x', OTHERS)
    if other == 'File':
        import marcel.object.file
        import pathlib
        x = marcel.object.file.File(pathlib.Path('d'))
        return x, 'file', lambda: 'd'
    x = {'lambda': (lambda: 1), 'object': object(), 'Exception': ValueError('x')}.get(other, None)
    if x is None:
        x = float('nan') if other == 'nan' else eval(other)
    return x, 'other', None


def argument(c, slot):
    s = cli()
    template, kind = SLOTS[slot]
    x, type_of, literal = value_of(c, slot, kind)
    bind('V', x)
    expression = outcome(s, template.replace('{}', '(V)', 1))
    shown = template.replace('{}', '(V)', 1) + f', V = {x!r}'
    accepted = {
        'nat': type_of == 'int' and not bool(x < 0),
        'int': type_of == 'int',
        'str': type_of == 'str',
        'path': type_of in ('str', 'file'),
        'id': type_of in ('int', 'str'),
        'interval': type_of == 'int' and not bool(x < 0) or type(x) is float and x == x,
        'forkgen': type_of == 'int' and bool(x > 0) or type(x) in (list, tuple, str, bytes, dict) and len(x) > 0,
        'any': type_of in ('int', 'str')}[kind]
    if type(x) is bool or kind == 'any' and not accepted:
        # Documented nowhere: anything but a crash
        return
    if not accepted:
        c.reach('rejected')
        c.check(expression[1] is not None, f'{shown}: accepted: {expression}')
        expected = outcome(s, 'gen 1')
        c.check(expression[2] == expected[2], f'{shown}: rejected, but has effects: {expression}')
        return
    c.reach('accepted')
    if literal is None or kind == 'forkgen':
        c.check(expression[1] is None, f'{shown}: {expression}')
        return
    text = literal()
    if type_of == 'int' and bool(x < 0) and (slot in ('gen-pad', 'gen-count', 'gen-start', 'args-gen') or kind == 'id'):
        # Would be a flag
        return
    if slot == 'write-format':
        text = quoted(x)
    command = template.replace('{}', text, 1)
    written = outcome(s, command)
    c.check(conj([(expression[1] is None) == (written[1] is None), expression[2] == written[2], same(expression[0], written[0])]),
            f'{shown}: {expression}\n   {command}: {written}')
    c.check(expression[1] == written[1], f'{shown}: {expression[1]}\n   {command}: {written[1]}')


@prop('P31', functions=['marcel.core.Op.eval_function', 'marcel.op.*.setup', 'marcel.argsparser.ArgsParser'],
      bounds={'quick': f'{len(SLOTS)} arguments of operators; values: any integer -2..4, strings naming things that do and do not exist, '
                       'and a value of each of 12 other types'},
      assumptions=['the driver of the database, the list of processes, the width of the terminal and the clock of timer are simulated'],
      strings=True)
def p31(tier):
    return [case(slot, argument, slot) for slot in SLOTS]
