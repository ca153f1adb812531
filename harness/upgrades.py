"""Starting marcel: installation, upgrades, damaged workspaces"""
import os
import shutil
import threading

import marceldrv as d
from simproc import Machine
from vcore import case, prop
from streams import cli

LAYOUTS = ('none', 'original', 'xdg', 'ws1', 'ws2', 'ws3', 'pt')
PT = '\n# 2025-04-02 16:54:22.895547\n+ls\n\n# 2025-04-02 16:54:23\n+ls | map (f: f.name)\n'
# Contents of histories, and whether their format is that of prompt_toolkit
HISTORIES = {
    'empty': (b'', True),
    'new': (PT.encode(), True),
    'new0': (b'\n# 2025-04-02 16:54:22\n+ls\n', True),
    'multi': (b'\n# 2025-04-02 16:54:22.895547\n+gen 3 | \n+map (x: x)\n', True),
    'unicode': ('\n# 2025-04-02 16:54:22.895547\n+é\n'.encode(), True),
    'old': (b'ls\ngen 3\n', False),
    'blank': (b'\nls\n', False),
    'short': (b'\n# 2\n', False),
    'comment': (b'\n# 2025 is the year\n', False),
    'latin1': (b'echo \xe9\n', False),
    'one': (b'\n', None),
}
NOTICE = b'History from before'


class Home(object):
    """A HOME of its own"""

    def __init__(self):
        self.path = os.path.join(os.path.realpath(d.scratch_dir()), 'upgrade')
        self.config = os.path.join(self.path, '.config', 'marcel')
        self.data = os.path.join(self.path, '.local', 'share', 'marcel')
        self.default = {}

    def __enter__(self):
        cli()
        from marcel.object.workspace import Workspace, WorkspaceDefault
        self.saved = os.environ['HOME'], Workspace.__dict__['default'], os.getcwd(), Workspace.DEFAULT
        self.remove()
        os.makedirs(self.path)
        os.chdir(self.path)
        os.environ['HOME'] = self.path
        Workspace.DEFAULT = None

        def default():
            # Each simulated process has its own
            thread = threading.current_thread()
            if thread not in self.default:
                self.default[thread] = WorkspaceDefault()
            return self.default[thread]
        Workspace.default = staticmethod(default)
        return self

    def __exit__(self, *a):
        from marcel.object.workspace import Workspace
        os.environ['HOME'], Workspace.default, cwd, Workspace.DEFAULT = self.saved
        os.chdir(cwd)
        self.remove()
        return False

    def remove(self):
        if os.path.lexists(self.path):
            shutil.rmtree(self.path)

    def write(self, path, content):
        path = os.path.join(self.path, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(content)

    def files(self, *path):
        result = {}
        top = os.path.join(*path)
        for dir, dirs, files in os.walk(top):
            for name in files:
                with open(os.path.join(dir, name), 'rb') as f:
                    result[os.path.relpath(os.path.join(dir, name), top)] = f.read()
        return result

    # Layouts, see storagelayout

    def build(self, layout, names, histories, version, reservoirs=True):
        """histories: workspace name (None: default) -> kind, or None if missing. Returns what has to be preserved"""
        c, s = self.config, self.data
        keep = {}

        def workspace(name, config, data):
            self.write(os.path.join(config, 'startup.py'), f'# startup of {name}\n'.encode())
            keep[name, 'startup.py'] = f'# startup of {name}\n'.encode()
            if histories[name] is not None:
                self.write(os.path.join(data, 'history'), HISTORIES[histories[name]][0])
                keep[name, 'history'] = HISTORIES[histories[name]]

        def marked(name, config, data, hist=True):
            workspace(name, config, data)
            self.write(os.path.join(config, '.WORKSPACE'), b'')
            os.chmod(os.path.join(config, '.WORKSPACE'), 0)
            if reservoirs:
                os.makedirs(os.path.join(data, 'reservoirs'), exist_ok=True)
            if name is not None:
                for file in ('env.pickle', 'properties.pickle') + (('reservoirs/r.pickle',) if reservoirs else ()):
                    self.write(os.path.join(data, file), f'{file} of {name}'.encode())
                    keep[name, file] = f'{file} of {name}'.encode()

        if layout == 'original':
            self.write('.marcel.py', b'# startup of None\n')
            keep[None, 'startup.py'] = b'# startup of None\n'
            if histories[None] is not None:
                self.write('.marcel_history', HISTORIES[histories[None]][0])
        elif layout == 'xdg':
            workspace(None, c, s)
            os.makedirs(s, exist_ok=True)
        elif layout == 'ws1':
            marked(None, c, s)
            for name in names:
                marked(name, os.path.join(c, name), os.path.join(s, name))
        elif layout in ('ws2', 'ws3', 'pt'):
            sub, default = ('', '__DEFAULT_WORKSPACE__') if layout == 'ws2' else ('workspace', '__DEFAULT__')
            marked(None, os.path.join(c, sub, default), os.path.join(s, sub, default))
            for name in names:
                marked(name, os.path.join(c, sub, name), os.path.join(s, sub, name))
            if layout != 'ws2':
                for base in (c, s):
                    os.makedirs(os.path.join(base, 'broken'))
        if layout not in ('none', 'original') and version is not None:
            self.write(os.path.join(c, 'VERSION'), version.encode())
        return keep


def ensure_current():
    import marcel.persistence.storagelayout
    marcel.persistence.storagelayout.ensure_current()


def start(script="('started')"):
    """Starts marcel. Returns its output"""
    import marcel.main
    ensure_current()
    with d.Capture() as out:
        marcel.main.main_script_run(script)
    return out.out.getvalue(), out.err.getvalue()


def version_key(v):
    return tuple(int(x) for x in v.split('.')) if v and all(x.isdigit() for x in v.split('.')) else ()


def check_version(c, home, before, what):
    import marcel.version
    with open(os.path.join(home.config, 'VERSION')) as f:
        v = f.read().strip()
    current = marcel.version.VERSION
    expected = before if before is not None and version_key(before.strip()) > version_key(current) else current
    c.check(v == expected.strip(), f'{what}: VERSION is {v}, expected {expected}')


def check_kept(c, home, keep, what, new):
    config, data = home.files(home.config, 'workspace'), home.files(home.data, 'workspace')
    for (name, file), content in keep.items():
        path = os.path.join('__DEFAULT__' if name is None else name, file)
        actual = (config if file == 'startup.py' else data).get(path)
        c.check(actual is not None, f'{what}: {file} of workspace {name} is missing')
        if file == 'history':
            content, fmt = content
            if fmt is False:
                c.check(actual == b'' or NOTICE in actual, f'{what}: history of {name}: {actual}')
            elif fmt or new:
                c.check(actual == content, f'{what}: history of workspace {name}: {actual}, expected {content}')
        else:
            c.check(actual == content, f'{what}: {file} of workspace {name}: {actual}, expected {content}')


def check_valid(c, home, what):
    import marcel.persistence.persistence
    problems = []
    marcel.persistence.persistence.validate_all(lambda names, errors: problems.extend(errors))
    c.check(not problems, f'{what}: {problems}')
    for base in (home.config, home.data):
        c.check(not os.listdir(os.path.join(base, 'broken')), f'{what}: considered broken: {os.listdir(os.path.join(base, "broken"))}')


def startable(c, what):
    try:
        out, err = start()
    except BaseException as e:
        if isinstance(e, AssertionError) or isinstance(e, Exception) or isinstance(e, SystemExit):
            c.fail(f'{what}: marcel does not start: {type(e).__name__}: {e}')
        raise
    c.check(out.strip() == 'started' and err.strip() == '', f'{what}: output {out!r}, {err!r}')


def upgrade(c, layout, names, crashes):
    """Files of some version, marcel is started, killed, and started again"""
    kinds = [None, 'old', 'new', 'empty'] if layout in ('ws3', 'pt') else [None, 'old', 'empty']
    if layout == 'pt':
        kinds = ['new', 'empty', 'multi', 'unicode', 'new0']
    elif layout == 'ws3':
        kinds = ['old', 'latin1', 'short', 'comment', 'blank', 'empty']
    histories = {name: c.pick(f'history{i}', kinds) if crashes == 0 and i < 2 else kinds[0] for i, name in enumerate((None,) + names)}
    version = c.pick('version', [None, '0.9.0', '0.20.1', '0.37.3', '']) if layout not in ('none', 'original') and crashes == 0 and not names else None
    if layout == 'pt' and version is None:
        version = '0.37.3\n'
    what = f'{layout}, {histories}, {version}'
    with Home() as home:
        keep = home.build(layout, names, histories, version)
        if crashes:
            with Machine([home.path]) as m:
                for i in range(crashes + 1):
                    p = m.spawn(f'p{i}', lambda p: ensure_current())
                    n = m.run(c, 0, 1 if i < crashes else 0, prefix=f'p{i}')
                    c.check(p.error is None, f'{what}: start {i} fails: {type(p.error).__name__}: {p.error}')
                    if p.alive:
                        break
                    c.reach('crashed')
                    what += ', killed, started again'
        for i in range(2):
            startable(c, what)
            check_kept(c, home, keep, what, layout == 'pt')
            check_valid(c, home, what)
            check_version(c, home, version, what)
            what += ', started again'
        if layout in ('none',):
            default = home.files(home.config, 'workspace', '__DEFAULT__')
            import marcel.persistence.defaultinitialconfig
            c.check(default.get('startup.py') == marcel.persistence.defaultinitialconfig.CONFIG.encode(), f'{what}: {default}')
    c.reach('done')


def together(c, layout, names, n, switches):
    """Several processes are started at the same time"""
    with Home() as home:
        keep = home.build(layout, names, {name: 'new' for name in (None,) + names}, '0.37.3')
        with Machine([home.path]) as m:
            for i in range(n):
                m.spawn(f'p{i}', lambda p: ensure_current())
            schedule = m.run(c, switches, 0)
            for p in m.processes:
                c.check(p.error is None, f'{layout}: {p} fails: {type(p.error).__name__}: {p.error}: {schedule}')
        startable(c, f'{layout}: {schedule}')
        check_kept(c, home, keep, f'{layout}: {schedule}', True)
        check_valid(c, home, f'{layout}: {schedule}')
    c.reach('done')


DAMAGE = ['startup', 'env', 'properties', 'history', 'reservoirs', 'notdir', 'config', 'data', 'moreconfig', 'moredata', 'marker', 'owned', 'none']


def damage(home, name, kind):
    """Returns whether the workspace is to be set aside"""
    ws = '__DEFAULT__' if name is None else name
    c, s = os.path.join(home.config, 'workspace', ws), os.path.join(home.data, 'workspace', ws)
    if kind in ('startup', 'env', 'properties', 'history'):
        path = os.path.join(c, 'startup.py') if kind == 'startup' else os.path.join(s, {'history': 'history'}.get(kind, f'{kind}.pickle'))
        if not os.path.exists(path):
            return False
        os.unlink(path)
    elif kind in ('reservoirs', 'config', 'data', 'notdir'):
        path = {'config': c, 'data': s}.get(kind, os.path.join(s, 'reservoirs'))
        if not os.path.isdir(path):
            return False
        shutil.rmtree(path)
        if kind == 'notdir':
            with open(path, 'w'):
                pass
    elif kind in ('moreconfig', 'moredata'):
        path = os.path.join(c if kind == 'moreconfig' else s, 'more')
        if not os.path.exists(os.path.dirname(path)):
            return False
        with open(path, 'w'):
            pass
    elif kind == 'marker':
        if os.path.exists(os.path.join(c, '.WORKSPACE')):
            os.unlink(os.path.join(c, '.WORKSPACE'))
        return False
    elif kind == 'owned':
        if os.path.exists(os.path.join(c, '.WORKSPACE')):
            os.rename(os.path.join(c, '.WORKSPACE'), os.path.join(c, f'.WORKSPACE.{Machine.DEAD}'))
        return False
    else:
        return False
    return True


def damaged(c, n, which):
    """Some files of some workspaces are missing, and others shouldn't be there"""
    names = ('v', 'w')
    with Home() as home:
        home.build('pt', names, {name: 'new' for name in (None,) + names}, '0.37.3')
        bad = set()
        history = []
        for i in range(n):
            name = c.pick(f'ws{i}', which)
            kind = c.pick(f'damage{i}', DAMAGE)
            history.append((name, kind))
            if damage(home, name, kind):
                bad.add(name)
        before = {}
        for name in (None,) + names:
            ws = '__DEFAULT__' if name is None else name
            before[name] = {('c', f): x for f, x in home.files(home.config, 'workspace', ws).items() if not f.startswith('.WORKSPACE')}
            before[name].update({('d', f): x for f, x in home.files(home.data, 'workspace', ws).items()})
        try:
            out, err = start()
        except BaseException as e:
            if isinstance(e, (Exception, SystemExit)):
                c.fail(f'{history}: marcel does not start: {type(e).__name__}: {e}')
            raise
        c.check(out.strip() == 'started', f'{history}: {out!r}, {err!r}')
        for name, files in before.items():
            ws = '__DEFAULT__' if name is None else name
            broken = {}
            for key, base in (('c', home.config), ('d', home.data)):
                for path, x in home.files(base, 'broken').items():
                    parts = path.split(os.sep)
                    if ws in parts[1:]:
                        rest = parts[1:]
                        while rest and rest[0] == ws:
                            rest = rest[1:]
                        if not rest[0].startswith('.WORKSPACE'):
                            broken[key, os.sep.join(rest)] = x
            current = {('c', f): x for f, x in home.files(home.config, 'workspace', ws).items() if not f.startswith('.WORKSPACE')}
            current.update({('d', f): x for f, x in home.files(home.data, 'workspace', ws).items()})
            if name in bad and name is not None:
                c.check(not current and broken == files, f'{history}: {name}: {sorted(current)}, broken: {sorted(broken)}, expected {sorted(files)}')
                c.check(name in err or not files, f'{history}: damage of {name} is not reported: {err}')
            elif name is None and name in bad:
                # Either repaired, or set aside
                for file, x in files.items():
                    c.check(broken.get(file) == x or current.get(file) == x, f'{history}: {file} of the default workspace is lost')
                c.check(('c', 'startup.py') in current and ('d', 'history') in current, f'{history}: default workspace: {sorted(current)}')
            else:
                c.check(current == files and not broken, f'{history}: {name}: {sorted(current)}, broken: {sorted(broken)}, expected {sorted(files)}')
        c.check(bool(err.strip()) == bool(bad) or {x for x in bad if before[x]} <= {None}, f'{history}: {err}')
        if bad:
            c.reach('damaged')
        startable(c, f'{history}, started again')
    c.reach('done')


@prop('P39', ['ensure_current', 'storage_layout', 'StorageLayoutOriginal', 'StorageLayoutXDG', 'StorageLayoutWS1', 'StorageLayoutWS2', 'StorageLayoutWS3',
              'StorageLayoutPromptToolkit', 'Locations', 'Workspace.create_on_disk', 'validate_all', 'WorkspaceValidater', 'WorkspaceDefaultValidater',
              'Workspace.mark_broken', 'handle_persistence_validation_errors', 'main_script_run'],
      {'quick': 'the files of each of 6 versions of the storage layout, or none, with 0..2 named workspaces; histories of 11 kinds or missing; 5 versions; '
                'killed before any file operation of starting; 2 processes installing, with one context switch; '
                '2 of 12 kinds of damage to 3 workspaces',
       'thorough': 'killed twice; 3 processes, 2 or 3 context switches; 3 kinds of damage'},
      ['File system operations are atomic, and what has been written is not lost; HOME and the directories of configuration and data are on one file system',
       'Processes that upgrade the files of an old version do not run at the same time',
       'Workspaces named workspace or broken, of versions before 0.28, are not considered'])
def p39(tier):
    q = tier == 'quick'
    cases = []
    for layout in LAYOUTS:
        for names in ((), ('v', 'w')) if layout not in ('none', 'original', 'xdg') else ((),):
            if not (layout == 'none' and names):
                cases.append(case(f'{layout}-{len(names)}', upgrade, layout, names, 0, reach=['done']))
            for crashes in (1, 2):
                if q and crashes == 2:
                    continue
                cases.append(case(f'{layout}-{len(names)}-killed-{crashes}', upgrade, layout, names, crashes, reach=['done', 'crashed'] if layout != 'pt' else ['done']))
    for n, switches in ((2, 1), ) if q else ((2, 3), (3, 2)):
        cases.append(case(f'together-none-{n}', together, 'none', (), n, switches, reach=['done']))
        cases.append(case(f'together-pt-{n}', together, 'pt', ('v',), n, 1, reach=['done']))
    for which in ((None, 'v'), ('v', 'w')):
        cases.append(case(f'damaged-{which[0]}', damaged, 2 if q else 3, list(which), reach=['done', 'damaged']))
    return cases
