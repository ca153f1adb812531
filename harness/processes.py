"""ps, and Process objects"""
import collections
import os
import operator
import pathlib
import re

import marceldrv as d
from symex import same, disj
from vcore import case, prop
from streams import cli

Ids = collections.namedtuple('Ids', ('real', 'effective', 'saved'))
Entry = collections.namedtuple('Entry', ('pw_name', 'pw_uid', 'gr_name', 'gr_gid'))
LETTERS = (97, 98)


class System(object):
    """Processes, users and groups, as reported by psutil, pwd, grp and os"""

    def __init__(self, infos, users, groups, uid, gid):
        self.infos = infos
        self.users = users
        self.groups = groups
        self.uid = uid
        self.gid = gid
        self.signals = []

    def process_iter(self, attrs=None, ad_value=None):
        import psutil
        for info in self.infos:
            p = psutil.Process.__new__(psutil.Process)
            p.info = {a: info.get(a, ad_value) for a in (attrs or info)}
            yield p

    def __enter__(self):
        import grp
        import psutil
        import pwd
        entry = lambda name, id: Entry(name, id, name, id)
        users = [entry(*x) for x in self.users]
        groups = [entry(*x) for x in self.groups]

        def find(entries, field):
            def f(x):
                for e in entries:
                    if getattr(e, field) == x:
                        return e
                raise KeyError(x)
            return f
        new = [(psutil, 'process_iter', self.process_iter),
               (pwd, 'getpwall', lambda: users), (pwd, 'getpwnam', find(users, 'pw_name')), (pwd, 'getpwuid', find(users, 'pw_uid')),
               (grp, 'getgrall', lambda: groups), (grp, 'getgrnam', find(groups, 'gr_name')), (grp, 'getgrgid', find(groups, 'gr_gid')),
               (os, 'getuid', lambda: self.uid), (os, 'getgid', lambda: self.gid),
               (os, 'kill', lambda pid, signal: self.signals.append((pid, signal)))]
        self.saved = [(m, name, getattr(m, name)) for m, name, _ in new]
        for m, name, f in new:
            setattr(m, name, f)
        return self

    def __exit__(self, *a):
        for m, name, f in self.saved:
            setattr(m, name, f)


def info(pid, **kw):
    x = {'pid': pid, 'ppid': 1, 'uids': Ids(0, 0, 0), 'gids': Ids(0, 0, 0), 'name': None, 'exe': None, 'cmdline': None, 'environ': None, 'status': 'sleeping', 'username': 'u',
         'cwd': None, 'cpu_percent': 0.0, 'create_time': 1.0}
    x.update(kw)
    return x


def pids_of(c, n):
    pids = c.ints('pid', n, 0)
    for i in range(1, n):
        c.assume(pids[i - 1] < pids[i])
    return pids


def selected(s, how, flag, arg, values):
    """Runs ps with a flag (-u, -g, -p, -c) and its argument (None: no argument). Returns (output, killed)"""
    if how == 'api':
        name = {'-u': 'user', '-g': 'group', '-p': 'pid', '-c': 'command'}.get(flag)
        m = d.api()
        arg = values['ARG'] if arg == '(ARG)' else arg
        try:
            # gather reports the command being killed
            return d.gather(m.ps(**({name: arg} if name else {}))), False
        except d.Killed:
            return [], True
    long = {'-u': '--user', '-g': '--group', '-p': '--pid', '-c': '--command'}
    text = 'ps' if flag is None else f'ps {long[flag] if how == "long" else flag}' + ('' if arg is None else f' {arg}')
    if how == 'twice':
        # By a variable, whose first execution has other processes
        text = f'gen 2 | args (| i: {text} |)'
    try:
        return s.gather(text), False
    except d.Killed:
        return [], True


def run(c, how, flag, arg, values, system, expected, killed):
    """expected: for each process, whether it should be output"""
    s = cli()
    for var, value in values.items():
        s.env.setvar(var, value)
    try:
        with system:
            out, was_killed = selected(s, how, flag, arg, values)
    finally:
        for var in values:
            s.env.delvar(var)
    what = f'ps {flag} {arg} by {how}'
    c.check(was_killed == killed, f'{what}: killed: {was_killed}, expected {killed}')
    if killed:
        return c.reach('killed')
    # On this path, whether a process is output is known for all processes
    keep = [x for x, e in zip(system.infos, expected) if e]
    if how == 'twice':
        keep = keep + keep
    c.check(len(out) == len(keep), f'{what}: {len(out)} processes, expected {len(keep)}')
    for p, x in zip(out, keep):
        c.check(same(p.pid, x['pid']), f'{what}: process {p.pid}, expected {x["pid"]}')
        for attribute in ('ppid', 'uids', 'gids', 'name', 'exe', 'cmdline', 'status', 'username', 'cwd', 'environ', 'create_time', 'cpu_percent'):
            a, b = getattr(p, attribute), x[attribute]
            c.check(same(list(a), list(b)) if type(a) in (Ids, list) and type(b) in (Ids, list) else same(a, b), f'{what}: {attribute} is {a}, expected {b}')
    c.reach('done')


def by_id(c, how, flag, arg, n):
    """-u, -g"""
    ids = [Ids(*(c.int(f'id{i}_{j}', 0) for j in range(3))) for i in range(n)]
    other = Ids(1000001, 1000002, 1000003)      # not compared
    alice, seven = c.int('alice', 0), c.int('seven', 0)
    mine = c.int('mine', 0)
    x = c.int('x', 0)
    names = [('root', 0), ('alice', alice), ('7', seven), ('alice2', 5)]
    wrong = [('root', 1000001), ('alice', 1000001), ('7', 1000001), ('8', 1000001)]
    u = flag == '-u'
    infos = [info(p, uids=ids[i] if u else other, gids=other if u else ids[i]) for i, p in enumerate(pids_of(c, n))]
    system = System(infos, names if u else wrong, wrong if u else names, mine if u else 1000002, 1000002 if u else mine)
    id = {'alice': alice, '7': seven, '8': 8, None: mine, '(ARG)': x, 'bob': None, 'Alice': None}[arg]
    run(c, how, flag, arg, {'ARG': x}, system, [id is not None and bool(disj([y == id for y in ids[i]])) for i in range(n)], id is None)


def by_pid(c, how, flag, arg, n):
    x = c.int('x', 0)
    pids = pids_of(c, n)
    system = System([info(p, ppid=p + 1) for p in pids], [], [], 0, 0)
    id = {'(ARG)': x, '12': 12, 'abc': None, '1.5': None}[arg]
    run(c, how, flag, arg, {'ARG': x}, system, [id is not None and bool(p == id) for p in pids], id is None)


def by_command(c, how, shapes, k):
    """shapes: for each process, the lengths of its name, exe (None: not accessible), and those of the words of its command line"""
    infos = []
    for i, (p, (name, exe, words)) in enumerate(zip(pids_of(c, len(shapes)), shapes)):
        infos.append(info(p, name=None if name is None else c.string(f'name{i}', name, LETTERS), exe=None if exe is None else c.string(f'exe{i}', exe, LETTERS),
                          cmdline=None if words is None else [c.string(f'w{i}_{j}', w, LETTERS) for j, w in enumerate(words)], username='abab', status='ab', cwd='/abab',
                          environ={'a': 'abab'}))
    x = c.string('x', k, LETTERS)

    def contains(text):
        return text is not None and any(bool(same(text[i:i + k], x)) for i in range(len(text) - k + 1))
    system = System(infos, [], [], 0, 0)
    run(c, how, '-c', '(ARG)', {'ARG': x}, system, [contains(p['name']) or contains(p['exe']) or any(contains(w) for w in p['cmdline'] or ()) for p in infos], False)


def all_processes(c, how, n):
    system = System([info(p, uids=Ids(*c.ints(f'u{i}_', 3, 0)), name=name) for i, (p, name) in enumerate(zip(pids_of(c, n), ('a', None, 'b')))], [], [], 0, 0)
    run(c, how, None, None, {}, system, [True] * n, False)


# -- Process objects ---------------------------------------------------------------------------------------------------

def processes(c, xs, **kw):
    import marcel.object.process
    import psutil
    with System([info(x, **kw) for x in xs], [], [], 0, 0) as system:
        return [marcel.object.process.Process(p) for p in psutil.process_iter()]


def compared(c, how):
    """Comparisons are those of the pids. Other objects are different, whatever they are"""
    a, b = c.int('a', 0), c.int('b', 0)
    p, = processes(c, [a], name='p')
    q, = processes(c, [b], name='q')
    if how == 'history':
        import marcel.object.historyrecord
        p, q = [marcel.object.historyrecord.HistoryRecord(x, f'command{i}') for i, x in enumerate((a, b))]
    elif how == 'files':
        import marcel.object.file
        a, b = [c.pick(x, ('/tmp/a', '/tmp/b', '/tmp/a/c', '/tmp/a-b', '/')) for x in ('f', 'g')]
        a, b = pathlib.Path(a), pathlib.Path(b)
        p, q = marcel.object.file.File(a), marcel.object.file.File(b)
        c.check(a != b or hash(p) == hash(q), 'Hash codes of equal files')
    if how in ('order', 'history', 'files'):
        for x, y, op in ((p == q, a == b, '=='), (p != q, a != b, '!='), (p < q, a < b, '<'), (p <= q, a <= b, '<='), (p > q, a > b, '>'), (p >= q, a >= b, '>=')):
            c.check(same(bool(x), bool(y)), f'{a} {op} {b}: {x}')
    elif how == 'hash':
        c.assume(a == b)
        c.check(same(p.__hash__(), q.__hash__()), 'Hash codes of equal processes')
    else:
        import marcel.object.file
        import marcel.object.historyrecord
        f = marcel.object.file.File(pathlib.Path('/tmp/x'))
        h = marcel.object.historyrecord.HistoryRecord(3, 'command')
        for x, others in ((p, (a, 'x', None, f, h, f.path)), (f, (p, f.path, '/tmp/x', None, 1, h)), (h, (p, 3, 'command', None, f))):
            for y in others:
                c.check((x == y) is False and (y == x) is False and (x != y) is True and (y != x) is True, f'{type(x).__name__} compared to {type(y).__name__}')
                for op in (operator.lt, operator.le, operator.gt, operator.ge):
                    for l, r in ((x, y), (y, x)):
                        try:
                            c.fail(f'{op.__name__} of {type(l).__name__} and {type(r).__name__} is {op(l, r)}')
                        except TypeError:
                            pass
    c.reach('done')


def streams(c, text, n):
    """Operators that compare and hash items, of different types"""
    import marcel.object.file
    import marcel.object.historyrecord
    xs = [c.small(f'x{i}', 1, 2) for i in range(n)]
    kinds = [c.pick(f'kind{i}', ('process', 'int', 'file', 'path', 'history') if i < 2 else ('process', 'int', 'history')) for i in range(n)]
    items = []
    for i, (x, kind) in enumerate(zip(xs, kinds)):
        path = pathlib.Path(f'/tmp/x{x}')
        items.append(processes(c, [x], name='p')[0] if kind == 'process' else x if kind == 'int' else path if kind == 'path' else
                     marcel.object.file.File(path) if kind == 'file' else marcel.object.historyrecord.HistoryRecord(x, f'command {i}'))
    keys = list(zip(xs, kinds))
    half = n // 2
    s = cli()
    s.env.setvar('ITEMS', items)
    first = f'gen {n} | map (i: ITEMS[i])'
    try:
        left, right = f'gen {half} | map (i: ITEMS[i])', f'gen {n - half} {half} | map (i: ITEMS[i])'
        if text == 'unique':
            out = s.gather(f'{first} | unique')
            expected = list(dict.fromkeys(keys))
        elif text == 'sort':
            try:
                out, killed = s.gather(f'{first} | sort'), False
            except d.Killed:
                out, killed = [], True
            c.check(killed == (len(set(kinds)) > 1), f'sort of {kinds}: killed: {killed}')
            if killed:
                return c.reach('killed')
            expected = sorted(keys)
        elif text == 'intersect':
            out = s.gather(f'{left} | intersect (| {right} |)')
            rest = keys[half:]
            expected = []
            for k in keys[:half]:
                if k in rest:
                    rest.remove(k)
                    expected.append(k)
        elif text == 'difference':
            out = s.gather(f'{left} | difference (| {right} |)')
            rest = keys[half:]
            expected = []
            for k in keys[:half]:
                if k in rest:
                    rest.remove(k)
                else:
                    expected.append(k)
        elif text == 'filter':
            out = s.gather(f'{left} | filter (| {right} |)')
            expected = [k for k in keys[:half] if k in keys[half:]]
    finally:
        s.env.delvar('ITEMS')

    def key(item):
        name = type(item).__name__
        return ((item.pid, 'process') if name == 'Process' else (item.id, 'history') if name == 'HistoryRecord' else (item, 'int') if name == 'int' else (int(str(item)[-1]), 'file') if name == 'File' else (int(item.name[1:]), 'path'))
    c.check([key(x) for x in out] == expected, f'{first} | {text}: {out}, expected {expected}')
    c.reach('done')


ESCAPE = re.compile('\x1b\\[[0-9;]*m')


def displayed(c, color, cmdline):
    """All of the columns are displayed; colors do not change the text"""
    import marcel.object.color
    pid, ppid = c.small('pid', 0, 3) ** 9, c.small('ppid', 0, 2) * 1234567
    user, status = c.pick('user', ('me', 'averylonguser')), c.pick('status', ('idle', 'disk-sleep-long'))
    p, = processes(c, [pid], ppid=ppid, username=user, status=status, cmdline=cmdline, name='name')
    scheme = None
    if color:
        scheme = marcel.object.color.ColorScheme()
        for i, key in enumerate(('process_pid', 'process_ppid', 'process_user', 'process_status', 'process_command')):
            setattr(scheme, key, marcel.object.color.Color(i, 5 - i, 3, i % 4))
    text = p.render_full(scheme)
    plain = ESCAPE.sub('', text)
    command = ' '.join(cmdline) if cmdline is not None else ''
    c.check(plain.split() == [str(pid), str(ppid), user, status] + command.split(), f'Displayed: {plain}')
    c.check(plain.endswith('  ' + command), f'Displayed: {plain}')
    c.check((plain != text) == bool(color), f'Colors: {text!r}')
    if color:
        for i, field in enumerate((str(pid), str(ppid), user, status)):
            c.check(re.search(f'\x1b\\[[0-9;]*m *{re.escape(field)} *\x1b', text) is not None, f'Colors: {text!r}')
    c.check(p.command == command and str(pid) in p.render_compact(), 'command')
    c.reach('done')


def signalled(c, how):
    import pickle
    pid, signal = c.int('pid', 0), c.int('signal', 0)
    p, = processes(c, [pid], name='p')
    if how == 'pickled':
        pid = c.small('x', 1, 3)
        p, = processes(c, [pid], name='p')
        p = pickle.loads(pickle.dumps(p))
        c.check(p.name == 'p' and p.uids == Ids(0, 0, 0) and p.pid == pid, 'pickled')
    with System([], [], [], 0, 0) as system:
        p.signal(signal)
    c.check(same(system.signals, [(pid, signal)]), f'Signals sent: {system.signals}, expected {(pid, signal)}')
    c.reach('done')


@prop('P40', ['Ps', 'ps', 'Process', 'uid', 'gid', 'File.__eq__', 'HistoryRecord.__eq__'],
      {'quick': '0..3 processes, whose pids, user and group ids (real, effective and saved) are arbitrary integers; names, executables and words of command lines are '
                'arbitrary strings of up to 3 characters, or not accessible; 4 users and groups, one with a numeric name; unique, sort, intersect and filter of up to 4 Processes, integers, Files and Paths',
       'thorough': 'up to 4 processes, strings of up to 4 characters, and 5 items'},
      ['processes, users and groups (psutil, pwd, grp, os.getuid, os.kill) are simulated'], strings=True)
def p40(tier):
    q = tier == 'quick'
    cases = []
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        for how in ('short', 'api', 'twice'):
            cases.append(case(f'all-{how}-{n}', all_processes, how, min(n, 3)))
    for how in ('short', 'long', 'api', 'twice'):
        for n in (1, 2) if q else (1, 2, 3):
            for flag in ('-u', '-g'):
                for arg in ('alice', '7', '8', None, '(ARG)', 'bob', 'Alice'):
                    if how != 'short' and n > 1 and arg not in ('7', '(ARG)'):
                        continue
                    cases.append(case(f'id{flag}-{arg}-{how}-{n}', by_id, how, flag, arg, n))
            for arg in ('(ARG)', '12', 'abc', '1.5'):
                cases.append(case(f'pid-{arg}-{how}-{n}', by_pid, how, '-p', arg, n))
    shapes = [(1, 1, [1]), (2, None, [2]), (3, 2, None), (2, 0, []), (None, None, [1, 2]), (None, 3, None), (None, None, None)]
    for k in (0, 1, 2) if q else (0, 1, 2, 3):
        for i, shape in enumerate(shapes):
            if k == 0 and shape[2] is None and shape[0] is None:
                continue
            for how in ('short', 'api') if i < 2 else ('short',):
                cases.append(case(f'command-{how}-{k}-{i}', by_command, how, [shape], k))
        if k:
            cases.append(case(f'command-two-{k}', by_command, 'long', [(1, None, [2]), (None, 2, [1])], k))
    for how in ('order', 'history', 'files', 'hash', 'other'):
        cases.append(case(f'compare-{how}', compared, how))
    for text in ('unique', 'sort', 'intersect', 'difference', 'filter'):
        for n in (2, 3) if q else (2, 3, 4):
            cases.append(case(f'stream-{text}-{n}', streams, text, n))
    for color in (False, True):
        for i, cmdline in enumerate((None, [], ['a'], ['cmd', '-x', 'y  z'])):
            cases.append(case(f'display-{color}-{i}', displayed, color, cmdline))
    for how in ('plain', 'pickled'):
        cases.append(case(f'signal-{how}', signalled, how))
    return cases
