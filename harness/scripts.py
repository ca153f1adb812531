"""Scripts, the arguments of scripts, and startup scripts"""
import io
import os
import sys

import marceldrv as d
import symex
from symex import SymInt, same
from vcore import case, prop
from streams import cli
import workspaces
from workspaces import plain, remove

# Lines of a script: (text, continues in the next line?)
LINES = ['(1)', 'x = (x + 1)', '(x)', '', '   ', '# (4)', '(5) # (6)', '(7 // 0)', ')', 'nosuch', '  (8)  ', 'gen 2 \\', '| map (y: y + 10)', '\\', 'gen 2 | \\']


def joined(lines):
    """The commands of a script"""
    commands = []
    command = ''
    for line in lines:
        if line.strip() == '':
            continue
        if line.endswith('\\'):
            command += line[:-1]
        else:
            commands.append(command + line)
            command = ''
    if command:
        commands.append(command)
    return commands


ALONE = {}      # Command -> the output


class State(object):

    def __init__(self):
        self.x = 0


def response(command, state):
    """What a command prints"""
    if command == 'x = (x + 1)':
        state.x += 1
        return ''
    if command == '(x)':
        return f'{state.x}\n'
    if '(x' in command or 'x =' in command:
        return None
    if command not in ALONE:
        s = cli()
        out, err = s.run(command)
        ALONE[command] = plain(out + err)
    return ALONE[command]


class Terminated(Exception):
    pass


def execute(mode, text, args=()):
    """Runs text as marcel does. Returns what it prints"""
    import atexit
    import builtins
    import marcel.exception
    import marcel.main
    cli()   # For initialization
    path = os.path.join(os.environ['HOME'], 'script')
    with open(path, 'w') as f:
        f.write(text)
    handlers = []
    saved = atexit.register, atexit.unregister, sys.argv, sys.stdin, builtins.input, sys.stdout, sys.stderr
    atexit.register = handlers.append
    atexit.unregister = lambda f: [handlers.remove(h) for h in list(handlers) if h == f]
    out = io.StringIO()
    sys.stdout = sys.stderr = out
    sys.argv = ['marcel', path, *args]
    lines = iter(text.split('\n'))

    def input(*prompt):
        for line in lines:
            return line
        raise EOFError()
    try:
        if mode == 'script':
            marcel.main.main_script_run(marcel.main.read_script(sys.argv[1]))
        elif mode == 'stdin':
            sys.stdin = io.StringIO(text)
            marcel.main.main_script_run(marcel.main.read_heredoc())
        elif mode == 'interactive':
            import marcel.job
            sys.stdin = io.StringIO(text)
            builtins.input = input
            marcel.job.JobControl.only = None
            marcel.main.main_interactive_run()
        for h in reversed(list(handlers)):
            h()
    except marcel.exception.KillShellException as e:
        out.write(f'KILLED: {e}')
    finally:
        atexit.register, atexit.unregister, sys.argv, sys.stdin, builtins.input, sys.stdout, sys.stderr = saved
    return plain(out.getvalue())


def script(c, n, mode):
    lines = [LINES[c.small(f'line{i}', 0, len(LINES) - 1)] for i in range(n)]
    newline = '\n' if c.flag('newline') else ''
    text = 'x = (0)\n' + '\n'.join(lines) + newline
    if mode == 'startup':
        with startup_scripts({None: text}):
            out = execute('script', '')
    else:
        out = execute(mode, text)
    state = State()
    expected = ''
    for command in joined(lines):
        r = response(command, state)
        if r is None:
            # x is used in a command put together from several lines
            c.reach('done')
            return
        expected += r
    c.check(out == expected, f'{mode}: {text!r}: {out!r}, expected {expected!r}')
    c.reach('done')


class startup_scripts(object):
    """Workspace name -> startup script run by its startup.py. (None: default workspace)"""

    def __init__(self, scripts):
        self.scripts = scripts

    def __enter__(self):
        import marcel.object.workspace
        import marcel.locations
        cli()
        self.saved = {}
        for name, text in self.scripts.items():
            W = marcel.object.workspace.Workspace
            w = W.default() if name is None else W(name)
            path = marcel.locations.Locations().config_ws_startup(w)
            with open(path) as f:
                original = f.read()
            self.saved[path] = original
            with open(path, 'w') as f:
                f.write(original)
                for t in text if isinstance(text, list) else [text]:
                    f.write(f'\nrun_on_startup({t!r})\n')

    def __exit__(self, *args):
        for path, text in self.saved.items():
            with open(path, 'w') as f:
                f.write(text)


ACTIONS = ['ws wa', 'ws wb', 'ws -c', '(s)', 's = (s + "!")', '(t)']


def startup(c, n, mode):
    """Workspaces with startup scripts, opened and closed in any order"""
    which = c.small('which', 0, 2)
    scripts = {None: ['("S") \ns = ("default")'], 'wa': ['("A1") \nt = ("wa") \n', '("A2")'], 'wb': [''] if which == 0 else ['s = ("wb")']}
    if which == 2:
        del scripts[None]
    actions = [ACTIONS[c.small(f'a{i}', 0, len(ACTIONS) - 1)] for i in range(n)]
    for name in ('wa', 'wb'):
        remove(name)
    vars = {None: {}, 'wa': {}, 'wb': {}}
    expected = []
    current = None

    def opened():
        """The startup scripts have been run"""
        if current in scripts:
            if current is None:
                expected.append('S')
                vars[None]['s'] = 'default'
            elif current == 'wa':
                expected.extend(['A1', 'A2'])
                vars['wa']['t'] = 'wa'
            elif which != 0:
                vars['wb']['s'] = 'wb'
    try:
        # A new workspace has a copy of the startup.py of the default workspace
        for name in ('wa', 'wb'):
            workspaces.new_workspace(name)
        with startup_scripts(scripts):
            opened()
            for a in actions:
                v = vars[current]
                if a.startswith('ws'):
                    name = None if a == 'ws -c' else a[3:]
                    if current is not None:
                        pass
                    if name != current:
                        if a == 'ws -c':
                            # Variables of the default workspace are those of the session
                            vars[None] = {}
                        elif current is None:
                            vars[None] = {}
                        current = name
                        expected.append(f'Workspace({name or ""})')
                        opened()
                    else:
                        expected.append(None)
                elif a == '(s)':
                    expected.append(v.get('s'))
                elif a == '(t)':
                    expected.append(v.get('t'))
                elif 's' in v:
                    v['s'] += '!'
                else:
                    expected.append(None)
            out = execute(mode, '\n'.join(actions))
        lines = out.split('\n')
        assert lines.pop() == ''
        # None: an error, or nothing
        actual = [x for x in lines if not ('Error' in x or x.startswith('Warning:'))]
        c.check(actual == [x for x in expected if x is not None], f'{mode}, startup scripts {scripts}: {actions}: {lines}, expected {expected}')
        c.reach('done')
    finally:
        for name in ('wa', 'wb'):
            remove(name)


def codes(c, text):
    """The characters of a symbolic string, as integers"""
    import symstr
    return [SymInt(symstr.code(ch)) if symstr.is_place(ch) else ord(ch) for ch in text] if c.symbolic else [ord(ch) for ch in text]


def parse(spec, words):
    """The values of the variables, or None. words are lists of character codes"""
    def eq(word, text):
        return len(word) == len(text) and all(bool(a == ord(b)) for a, b in zip(word, text))

    def is_flag(word):
        return len(word) > 0 and bool(word[0] == ord('-'))

    values = {var: default for var, (kind, flags, default, required) in spec.items() if not required}
    anon = []
    words = list(words)
    while words:
        word = words.pop(0)
        if not is_flag(word):
            anon.append(word)
            continue
        var = next((v for v, (kind, flags, default, required) in spec.items() if any(eq(word, f) for f in flags)), None)
        if var is None:
            return None
        kind = spec[var][0]
        if kind == 'boolean_flag':
            values[var] = True
            continue
        if not words or is_flag(words[0]):
            return None
        value = words.pop(0)
        if kind == 'int_flag':
            digits = value[1:] if len(value) > 0 and bool(value[0] == ord('+')) else value
            if not digits or not all(bool(48 <= x) and bool(x <= 57) for x in digits):
                return None
            n = 0
            for x in digits:
                n = n * 10 + (x - 48)
            value = n
        values[var] = value
    for var, (kind, flags, default, required) in spec.items():
        if kind == 'anon':
            values[var] = anon
        elif var not in values:
            return None
    return values


SPECS = {
    'flags': {'a': ('flag', ('-a', '--all'), None, False), 'b': ('boolean_flag', ('-b', '--bool'), False, False), 'x': ('anon', (), None, False)},
    'ints': {'n': ('int_flag', ('-n', '--num'), 3, False), 'r': ('int_flag', ('-r',), None, True), 'x': ('anon', (), None, False)},
    'required': {'r': ('flag', ('-r', '--req'), None, True), 'a': ('flag', ('--all',), 'dflt', False), 'b': ('boolean_flag', ('-b',), False, False)},
    'none': {'x': ('anon', (), None, False)},
}


def spec_text(spec):
    args = []
    for var, (kind, flags, default, required) in spec.items():
        params = [repr(f) for f in flags]
        if kind != 'anon' and required:
            params.append('required=True')
        elif default is not None and kind != 'boolean_flag':
            params.append(f'default={default!r}')
        args.append(f'{var}={kind}({", ".join(params)})')
    return ', '.join(args)


def arguments(c, name, n, how):
    spec = SPECS[name]
    if how == 'chars':
        words = [c.string(f'w{i}_', c.small(f'length{i}', 1, 2), [ord(x) for x in '-abnr7x']) for i in range(n)]
    else:
        pool = sorted({f for s in spec.values() for f in s[1]}) + ['7', 'x', '-z', '-', '--', '0', 'a=b', '', '+4', '12']
        words = [pool[c.small(f'w{i}', 0, len(pool) - 1)] for i in range(n)]
    s = cli()
    import marcel.exception
    saved = sys.argv
    for var in (*spec, 'ARGV'):
        s.env.setvar(var, 'unset')
    try:
        sys.argv = ['marcel', 'script', *words]
        try:
            with d.Capture():
                out = s.gather(f'(parse_args("usage", {spec_text(spec)}))')
            killed = False
        except marcel.exception.KillShellException as e:
            killed = True
            out = []
        values = {var: s.env.getvar(var) for var in spec}
        argv = s.env.getvar('ARGV')
    finally:
        sys.argv = saved
        for var in (*spec, 'ARGV'):
            s.env.delvar(var)
    expected = parse(spec, [codes(c, w) for w in words])
    if expected is None:
        c.check(killed, f'{name} {words}: {values}, instead of an error')
        c.check(all(v == 'unset' for v in values.values()), f'{name} {words}: {values}')
        c.reach('rejected')
        return

    def agree(x, y):
        """x: from marcel, y: expected, with strings being lists of codes"""
        if isinstance(x, list):
            return isinstance(y, list) and len(x) == len(y) and all(agree(a, b) for a, b in zip(x, y))
        if isinstance(x, str):
            if isinstance(y, str):
                return x == y
            return isinstance(y, list) and len(x) == len(y) and all(bool(a == b) for a, b in zip(codes(c, x), y))
        if x is None or isinstance(x, bool):
            return x is y
        return not isinstance(y, (str, list)) and y is not None and bool(x == y)
    c.check(not killed, f'{name} {words}: rejected, expected {expected}')
    for var in spec:
        c.check(agree(values[var], expected[var]), f'{name} {words}: {var} is {values[var]}, expected {expected[var]}')
    c.check(agree(argv, [[ord(x) for x in 'script']] + [codes(c, w) for w in words]), f'{words}: ARGV is {argv}')
    c.reach('accepted')


@prop('P36', ['main_script_run', 'commands_in_script', 'read_script', 'read_heredoc', 'MainScript.run_startup_scripts', 'ConfigScript', 'MainInteractive.run',
              'main_interactive_run', 'CommandLine.parse', 'parse_args'],
      {'quick': f'scripts of up to 2 lines of {len(LINES)} kinds, from a file, stdin and as a startup script; 3 actions on 2 workspaces and the default one, with '
                f'startup scripts; 4 declarations of arguments, with 3 words of 1 or 2 arbitrary characters out of 7, or 3 words out of up to 16',
       'thorough': '3 lines, 4 actions, 4 words'},
      ['The interactive shell reads commands from stdin, which is not a terminal'], strings=True)
def p36(tier):
    q = tier == 'quick'
    cases = []
    for mode in ('script', 'stdin', 'startup'):
        for n in range(3 if q else 4):
            cases.append(case(f'script-{mode}-{n}', script, n, mode, reach=['done']))
    for mode in ('script', 'stdin', 'interactive'):
        for n in range(4 if q else 5):
            cases.append(case(f'startup-{mode}-{n}', startup, n, mode, reach=['done']))
    for name in SPECS:
        for how in ('chars', 'words'):
            for n in range(4 if q else 5):
                cases.append(case(f'arguments-{name}-{how}-{n}', arguments, name, n, how))
    return cases
