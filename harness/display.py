"""What is displayed: items and colors, the prompt, help"""
import importlib
import io
import os
import re
import sys

import listing
import marceldrv as d
from processes import System, info
from symex import same, conj, not_
from vcore import case, prop
from streams import cli

CHARS = (97, 65, 46, 32, 123, 125, 0x5b, 0x6d, 0x33, 0x39, 0x22, 0xe9)
PLAIN = (None, False, False)
SGR = re.compile('\x1b\\[([0-9;]*)m')


def screen(text):
    """What a terminal would display: the characters, and for each of them (color number, bold, italic)"""
    chars, styles = [], []
    color, bold, italic = PLAIN
    at = 0
    while at < len(text):
        m = SGR.match(text, at) if text[at] == '\x1b' else None
        if m is None:
            chars.append(text[at])
            styles.append((color, bold, italic))
            at += 1
            continue
        codes = [int(x or 0) for x in m.group(1).split(';')]
        while codes:
            x = codes.pop(0)
            if x == 0:
                color, bold, italic = PLAIN
            elif x == 1:
                bold = True
            elif x == 3:
                italic = True
            elif x == 38 and codes[0] == 5:
                color = codes[1]
                codes = codes[2:]
            elif x == 39:
                color = None
        at = m.end()
    return ''.join(chars), styles


def style_of(color):
    return PLAIN if color is None else (16 + 36 * color.r + 6 * color.g + color.b, bool(color.style & 1), bool(color.style & 2))


def ends_plain(text):
    """The state of the terminal after displaying text"""
    return screen(text + '.')[1][-1] == PLAIN


class Painted(object):
    """Expected text with colors"""

    def __init__(self):
        self.chars = []
        self.styles = []

    def add(self, text, color=None):
        self.chars.append(text)
        self.styles.extend([style_of(color)] * len(text))
        return self

    def text(self):
        return ''.join(self.chars)


def check_screen(c, text, expected, what, colored=True):
    shown, styles = screen(text)
    c.check(same(shown, expected.text()), f'{what}: displayed {shown!r}, expected {expected.text()!r}')
    if colored:
        for i, (ch, a, b) in enumerate(zip(shown, styles, expected.styles)):
            c.check(ch.isspace() or a == b, f'{what}: {ch!r} at {i} of {shown!r} displayed as {a}, expected {b}')
        c.check(ends_plain(text), f'{what}: {text!r} leaves a color on')
    else:
        c.check('\x1b' not in text, f'{what}: colors are not expected in {text!r}')


def Color(*args):
    import marcel.object.color
    return marcel.object.color.Color(*args)


def scheme_of(c, keys, extensions=None):
    """A color scheme in which any of keys may have a color"""
    import marcel.object.color
    scheme = marcel.object.color.ColorScheme()
    for i, key in enumerate(marcel.object.color.ColorScheme.KEYS):
        if key == 'file_extension':
            scheme.file_extension = extensions
        elif key not in keys:
            setattr(scheme, key, Color(5, 5, 5))
        elif c.flag(key):
            setattr(scheme, key, Color(i % 6, i // 6, 1, i % 4))
    return scheme


class Terminal(d.Capture):
    """Captures stdout, pretending that it is the terminal"""

    def __enter__(self):
        x = super().__enter__()
        self.real = sys.__stdout__
        sys.__stdout__ = sys.stdout
        return x

    def __exit__(self, *a):
        sys.__stdout__ = self.real
        return super().__exit__(*a)


def shown_by(s, command, where):
    """The output of command"""
    path = os.path.join(os.path.realpath(d.scratch_dir()), 'shown')
    if where == 'file':
        if os.path.exists(path):
            os.remove(path)
        command = f'{command} | write "{path}"'
    elif where == 'write':
        command = f'{command} | write'
    with (d.Capture() if where in ('redirected', 'file') else Terminal()) as cap:
        s.main.parse_and_run_command(command)
    if where == 'file':
        with open(path) as f:
            return f.read() + cap.stdout(), cap.stderr()
    return cap.stdout(), cap.stderr()


# Items ------------------------------------------------------------------------------------------------------------

def item_string(c, scheme, n):
    x = c.string('s', n, CHARS)
    return x, Painted().add(x)


def item_values(c, scheme, n):
    x = c.pick('x', (0, 12, -1, True, 1.5, None, b'x', {'a': 'b'}, {1: (2, 3)}, [], [1], (1,), ((),), print))
    # An item which is a list is the same as a tuple
    return x, Painted().add(str(x[0] if type(x) in (tuple, list) and len(x) == 1 else x))


def item_tuple(c, scheme, n):
    x = tuple(c.pick(f'x{i}', ('a', 1, None, (2, 'b'), [])) for i in range(2))
    if n == 3:
        x = list(x) + ['z']
    return x, Painted().add(str(x))


def item_error(c, scheme, n):
    import marcel.object.error
    message = c.string('s', n, CHARS)
    x = marcel.object.error.Error(message)
    label = c.pick('label', (None, 'host'))
    if label:
        x.set_label(label)
    return x, Painted().add(('Error' if label is None else 'Error(host)') + ': ' + message, scheme and scheme.error)


def item_history(c, scheme, n):
    import marcel.object.historyrecord
    id, command = c.small('id', 0, 2) * 123, c.string('s', n, CHARS)
    x = marcel.object.historyrecord.HistoryRecord(id, command)
    return x, Painted().add('  ').add(str(id), scheme and scheme.history_id).add(':  ').add(command, scheme and scheme.history_command)


def item_process(c, scheme, n):
    import marcel.object.process
    command = c.string('s', n, CHARS)
    user, status = c.pick('user', ('me', 'averylonguser')), c.pick('status', ('idle', 'disk-sleep-long'))
    system = System([info(7, ppid=1234567, username=user, status=status, cmdline=[command, 'b'])], [], [], 0, 0)
    with system:
        x, = [p for p in d.gather(d.api().ps())]
    p = Painted()
    for text, key, pad in (('     7', 'pid', 0), ('1234567', 'ppid', 0), (user.ljust(8), 'user', 0), (status.ljust(10), 'status', 0), (command + ' b', 'command', 0)):
        p.add(text, scheme and getattr(scheme, 'process_' + key))
        if key != 'command':
            p.add('  ')
    return x, p


def item_workspace(c, scheme, n):
    import marcel.object.workspace
    x = marcel.object.workspace.Workspace(c.string('s', n, (97, 46, 32)))
    return x, Painted().add(f'Workspace({x.name})')


def item_color(c, scheme, n):
    r, g, b, style = [c.small(k, 0, hi) for k, hi in (('r', 5), ('g', 2), ('b', 1), ('style', 3))]
    suffix = ('', ', BOLD', ', ITALIC', ', BOLD | ITALIC')[style]
    return Color(r, g, b, style), Painted().add(f'Color({r}, {g}, {b}{suffix})')


KINDS = {
    'string': (item_string, ()), 'value': (item_values, ()), 'tuple': (item_tuple, ()), 'error': (item_error, ('error',)),
    'history': (item_history, ('history_id', 'history_command')),
    'process': (item_process, ('process_pid', 'process_ppid', 'process_user', 'process_status', 'process_command')),
    'workspace': (item_workspace, ()), 'color': (item_color, ())}


def item(c, kind, where, schemed, n):
    s = cli()
    build, keys = KINDS[kind]
    scheme = scheme_of(c, keys) if schemed else None
    saved = s.env.getvar('COLOR_SCHEME')
    s.env.assign_permanent('COLOR_SCHEME', scheme)
    try:
        x, expected = build(c, scheme, n)
        s.env.setvar('X', [x])
        out, err = shown_by(s, 'gen 1 | map (i: X[0])' if where != 'direct' else '(X[0])', where)
    finally:
        s.env.assign_permanent('COLOR_SCHEME', saved)
        s.env.delvar('X')
    what = f'{kind}, {where}'
    c.check(err == '', f'{what}: stderr: {err!r}')
    check_screen(c, out, expected.add('\n'), what, where not in ('redirected', 'file'))
    c.reach('done')


def in_between(c, where, schemed):
    """Items and errors are displayed in order, each on its own line"""
    s = cli()
    scheme = scheme_of(c, ('error',)) if schemed else None
    n = c.small('n', 1, 5)
    bad = c.small('bad', 0, 5)
    saved = s.env.getvar('COLOR_SCHEME')
    s.env.assign_permanent('COLOR_SCHEME', scheme)
    try:
        out, err = shown_by(s, f'gen {n} | map (i: 10 // (i - {bad}))', where)
    finally:
        s.env.assign_permanent('COLOR_SCHEME', saved)
    lines = out.split('\n')
    c.check(lines.pop() == '' and len(lines) == n, f'{n} items: displayed: {out!r}')
    for i, line in enumerate(lines):
        text, styles = screen(line)
        if i == bad:
            c.check(text.startswith('Error: '), f'Item {i}: {text!r}')
            color = style_of(scheme.error if scheme and where not in ('redirected', 'file') else None)
            c.check(all(x == color for x in styles), f'Error displayed as {styles[0]}, expected {color}')
        else:
            c.check(line == str(10 // (i - bad)), f'Item {i}: {line!r}')
    c.check(err == '', f'stderr: {err!r}')
    c.reach('done')


def killed(c, schemed):
    """What terminates a command is written to stderr, in the color of errors"""
    s = cli()
    scheme = scheme_of(c, ('error',)) if schemed else None
    saved = s.env.getvar('COLOR_SCHEME')
    s.env.assign_permanent('COLOR_SCHEME', scheme)
    command = c.pick('command', ('gen 3 | nosuchop', 'gen (x', 'sort 1 2 3', 'cd /nosuchdir'))
    try:
        with Terminal() as cap:
            s.main.parse_and_run_command(command)
    finally:
        s.env.assign_permanent('COLOR_SCHEME', saved)
    text, styles = screen(cap.stderr())
    color = style_of(scheme.error if scheme else None)
    c.check(cap.stdout() == '' and text.endswith('\n') and len(text) > 1, f'{command}: stdout {cap.stdout()!r}, stderr {text!r}')
    for ch, x in zip(text[:-1], styles):
        c.check(ch.isspace() or x == color, f'{command}: {text!r} displayed as {x}, expected {color}')
    c.check(ends_plain(cap.stderr()), f'{command}: a color is left on')
    c.reach('done')


def files_shown(c, kind, name, recursive, schemed, away):
    """The name of a file has the color of its extension if there is one, and otherwise that of its kind. The target of a link is displayed."""
    s = cli()
    base = listing.tree(c, (), (), 'cwd')
    path = f'{base}/cwd/{name}'
    if kind == 'executable':
        open(path, 'w').close()
        os.chmod(path, 0o700)
    else:
        listing.build(f'{base}/cwd', name, kind)
        if kind == 'file':
            os.chmod(path, 0o600)
    extensions = c.pick('extensions', (None, {}, {'txt': Color(1, 2, 3, 1)}, {'txt': Color(0, 0, 0), 'gz': Color(4, 4, 4), '': Color(3, 3, 3)})) if schemed else None
    scheme = scheme_of(c, ('file_file', 'file_dir', 'file_link', 'file_link_broken', 'file_executable'), extensions) if schemed else None
    saved = s.env.getvar('COLOR_SCHEME')
    s.env.assign_permanent('COLOR_SCHEME', scheme)
    if away:
        listing.enter(s, '/')
        # What the target of the link is must not be decided from here
        command = f'ls {"-0" if kind != "fifo" else ""} {path}'
    else:
        listing.enter(s, f'{base}/cwd')
        command = f'ls -0 {name}'
    try:
        out, err = shown_by(s, command, 'terminal')
    finally:
        s.env.assign_permanent('COLOR_SCHEME', saved)
        listing.enter(s, '/')
    c.check(err == '' and out.endswith('\n'), f'{command}: {out!r}, stderr {err!r}')
    text, styles = screen(out[:-1])
    extension = os.path.splitext(name)[1][1:].lower()
    color = extensions.get(extension) if extensions else None
    if scheme is not None and color is None:
        broken = kind == 'broken'
        color = (scheme.file_link_broken if broken else scheme.file_link) if os.path.islink(path) else \
            scheme.file_executable if kind in ('executable', 'dir', 'empty', 'deep') and os.access(path, os.X_OK) and kind == 'executable' else \
            None
        if color is None and not os.path.islink(path) and kind != 'executable':
            # A directory is executable, too
            color = scheme.file_dir if kind in ('dir', 'empty', 'deep') else scheme.file_file
    # A directory given to ls is displayed relative to itself
    directory = os.path.isdir(path)
    shown = '.' if directory else name
    parts = text.split('  ')
    if os.path.islink(path):
        target = os.readlink(path)
        c.check(text.endswith(f'  {shown}  ->  {target}'), f'{command}: {text!r}')
        at = text.rindex(f'  {shown}  ->') + 2
    else:
        at = len(text) - len(shown)
        c.check(parts[-1] == shown, f'{command}: {text!r}')
    end = at + len(shown)
    for i, (ch, x) in enumerate(zip(text, styles)):
        if at <= i < end:
            c.check(x == style_of(color), f'{command}: {text!r} at {i}: {x}, expected {style_of(color)}')
        elif i < at:
            c.check(x == PLAIN, f'{command}: {text!r}: metadata is colored')
    c.check(ends_plain(out), f'{command}: a color is left on')
    c.reach('done')


# Prompt -----------------------------------------------------------------------------------------------------------

_SHELL = []


def shell():
    if not _SHELL:
        _SHELL.append(d.Cli(interactive=True))
    return _SHELL[0]


def prompt(c, n, how):
    """The prompt consists of its strings and the values of its functions, each in the color which precedes it"""
    s = shell()
    pieces = []
    expected = Painted()
    color = None
    wrong = False
    for i in range(n):
        kind = c.pick(f'kind{i}', ('color', 'string', 'empty', 'function', 'none', 'color function', 'int function', 'wrong', 'failing', 'tuple'))
        x = None
        if kind in ('color', 'color function'):
            x = color = Color(i, 5 - i, 2, c.small(f'style{i}', 0, 3))
        elif kind == 'string':
            x = c.string(f's{i}', 1, CHARS)
            expected.add(x, color)
        elif kind == 'function':
            x = c.string(f's{i}', 1, CHARS)
            expected.add(x, color)
        elif kind == 'empty':
            x = ''
        elif kind == 'int function':
            x = 7
            expected.add('7', color)
        elif kind in ('wrong', 'tuple'):
            x = 5 if kind == 'wrong' else ('a', 'b')
            wrong = True
        elif kind == 'failing':
            wrong = True
        if kind in ('function', 'color function', 'int function', 'none'):
            pieces.append(lambda x=x: x)
        elif kind == 'failing':
            pieces.append(lambda: 1 // 0)
        else:
            pieces.append(x)
    saved = s.env.getvar('PROMPT')
    with d.Capture() as cap:
        try:
            if how == 'set_prompt':
                set_prompt(s)(*pieces)
            else:
                s.env.assign_permanent('PROMPT', pieces if how == 'list' else tuple(pieces))
            shown = s.env.prompt()
            again = s.env.prompt()
        finally:
            s.env.assign_permanent('PROMPT', saved)
    if wrong:
        c.check(shown == s.env.DEFAULT_PROMPT, f'Wrong prompt: {shown!r}')
        c.check(cap.stderr() != '', 'A wrong prompt is not reported')
        return c.reach('wrong')
    c.check(same(shown, again), f'Prompt {shown!r}, then {again!r}')
    check_screen(c, shown, expected, 'prompt')
    c.check(cap.stdout() == cap.stderr() == '', f'{cap.stdout()!r} {cap.stderr()!r}')
    c.reach('done')


def set_prompt(s):
    def f(*pieces):
        path = s.env.locations.config_ws_startup(s.env.workspace)
        s.env.assign_permanent('PROMPT', list(pieces))
    return f


def wrong_prompt(c):
    s = shell()
    saved = s.env.getvar('PROMPT')
    x = c.pick('x', (None, 5, 1.5, Color(1, 1, 1), print, True))
    with d.Capture() as cap:
        try:
            s.env.assign_permanent('PROMPT', x)
            shown = s.env.prompt()
        finally:
            s.env.assign_permanent('PROMPT', saved)
    c.check(shown == s.env.DEFAULT_PROMPT and cap.stderr() != '', f'PROMPT {x}: {shown!r}, stderr {cap.stderr()!r}')
    c.reach('done')


def prompt_directory(c, n, m, inside, workspace):
    """PROMPT_DIR: relative to the home directory of the user or workspace, if the current directory is in it"""
    s = shell()
    # pathlib, used for workspaces, needs concrete names
    name = (lambda x, k: c.string(x, k, (97, 98, 46, 32))) if workspace is None else (lambda x, k: ''.join(c.pick(f'{x}{i}', 'ab') for i in range(k)))
    home = '/h/a' + name('home', n)
    rest = name('x', c.small('m', 0, m))
    for i in range(c.small('depth', 0, 2)):
        rest += '/a' + name(f'rest{i}', c.small(f'm{i}', 0, m))
    dir = (home if inside else '/h/a') + rest
    saved = s.env.getvar('HOME'), s.env.getvar('PWD'), s.env.workspace
    try:
        s.env.assign_permanent('PWD', dir)
        if workspace is None:
            s.env.assign_permanent('HOME', home)
        else:
            s.env.workspace = Ws(home if workspace == 'home' else None)
            s.env.vars_workspace = saved[2]
        shown = prompt_dir(s, saved[2])
    finally:
        s.env.workspace = saved[2]
        s.env.assign_permanent('HOME', saved[0])
        s.env.assign_permanent('PWD', saved[1])
    within = len(dir) >= len(home) and bool(same(dir[:len(home)], home)) and dir[len(home):len(home) + 1] in ('', '/')
    c.check(type(shown) is str or isinstance(shown, str), f'PROMPT_DIR is a {type(shown)}')
    if workspace == 'nohome' or not within:
        expected = dir
    elif workspace is None:
        expected = '~' + dir[len(home):]
    else:
        expected = dir[len(home) + 1:]
    c.check(same(shown, expected), f'HOME {home!r}, in {dir!r}: PROMPT_DIR is {shown!r}, expected {expected!r}')
    c.reach('done')


def color_range(c):
    """Colors that can be displayed are accepted silently, others are reported. The code is that of the color"""
    r, g, b = [c.int(k) for k in ('r', 'g', 'b')]
    style = c.small('style', -1, 5)
    with d.Capture() as cap:
        color = Color(r, g, b, style)
    fine = conj([x >= 0 for x in (r, g, b)] + [x <= 5 for x in (r, g, b)] + [0 <= style <= 3])
    reported = cap.stderr() != '' or cap.stdout() != ''
    c.check(not_(fine) if reported else fine, f'Color({r}, {g}, {b}, {style}) is {"" if reported else "not "}reported')
    c.check(same(color.code, 16 + 36 * r + 6 * g + b), f'code of Color({r}, {g}, {b})')
    if not reported:
        c.check(color.bold() == (style in (1, 3)) and color.italic() == (style in (2, 3)), f'style {style}')
        c.reach('fine')
    else:
        c.reach('reported')


def scheme_values(c):
    """A color scheme has colors, and colors by extension, and nothing else"""
    import marcel.object.color
    keys = marcel.object.color.ColorScheme.KEYS
    scheme = marcel.object.color.ColorScheme()
    color = Color(1, 2, 3)
    key = c.pick('key', list(keys) + ['nosuchkey', 'File_dir', ''])
    value = c.pick('value', (color, None, {}, {'txt': color}, {'txt': 1}, {'txt': None}, 'red', 5, (1, 2, 3)))
    how = c.pick('how', ('attribute', 'set_color'))
    try:
        if how == 'attribute':
            setattr(scheme, key, value)
        else:
            c.check(scheme.set_color(key, value) is value, 'set_color')
        failed = False
    except marcel.object.color.ColorSchemeError as e:
        failed = True
        c.check(key in str(e) or 'txt' in str(e), f'{e}')
    ok = key in keys and (value is None or value is color or value == {} or value == {'txt': color})
    c.check(failed == (not ok), f'{key} = {value}: {"" if failed else "not "}rejected')
    for k in keys:
        expected = value if k == key and ok else None
        c.check(getattr(scheme, k) is expected, f'{k}: {getattr(scheme, k)} after {key} = {value}')
    if ok and value == {'txt': color}:
        scheme.file_extension = {'gz': color}
        other = Color(0, 0, 1)
        ext = c.pick('ext', ('gz', 'zip'))
        c.check(scheme.set_extension_color(ext, other) is other and scheme.file_extension == ({'gz': other} if ext == 'gz' else {'gz': color, 'zip': other}),
                f'{scheme.file_extension}')
    c.reach('rejected' if failed else 'set')


class Ws(object):

    def __init__(self, home):
        self._home = home

    def is_default(self):
        return False

    def home(self):
        return self._home


def prompt_dir(s, workspace):
    """Runs prompt() with the variables of workspace, and returns the value of PROMPT_DIR"""
    other = s.env.workspace
    if isinstance(other, Ws):
        other.__class__ = type('WsOf', (Ws,), {'__getattr__': lambda self, name: getattr(workspace, name)})
    with d.Capture():
        s.env.prompt()
    return s.env.getvar('PROMPT_DIR')


# Help -------------------------------------------------------------------------------------------------------------

class Item(object):
    """A paragraph, as specified: words with the white space in between, colors by non-blank character"""


def help_colors(scheme, format):
    f = format.lower()
    if f in 'rbin':
        return {'r': scheme.help_reference, 'b': scheme.help_bold, 'i': scheme.help_italic, 'n': scheme.help_name}[f]
    style = (1 if 'b' in f[4:] else 0) | (2 if 'i' in f[4:] else 0)
    return Color(int(f[1]), int(f[2]), int(f[3]), style)


def characters(text, scheme):
    """[(char, color)] without markup"""
    out = []
    color = None
    at = 0
    while at < len(text):
        ch = text[at]
        at += 1
        if ch == '\\':
            out.append((text[at], color))
            at += 1
        elif ch == '{':
            colon = text.index(':', at)
            color = help_colors(scheme, text[at:colon])
            at = colon + 1
        elif ch == '}':
            color = None
        else:
            out.append((ch, color))
    return out


PARAGRAPH = re.compile(r'(?<!\\)\{([pPlL][^}]*)\}[^\S\n]*\n?')


def paragraphs(text, scheme):
    """[(wrap, indents, [lines of (char, color)])]"""
    default = (True, 0, 0)
    blocks = []
    at = 0
    current = default
    for m in PARAGRAPH.finditer(text):
        blocks.append((current, text[at:m.start()]))
        fields = m.group(1).split(',')
        wrap, indents = True, (0, 0) if fields[0] in 'pP' else (4, 6)
        for x in fields[1:]:
            key, _, value = x.partition('=')
            if key.lower() == 'wrap':
                wrap = value.lower() in ('', 't')
            else:
                indents = [int(y) for y in value.split(':')]
                indents = (indents[0], indents[-1])
        current = (wrap,) + tuple(indents)
        at = m.end()
    blocks.append((current, text[at:]))
    out = []
    for i, (format, block) in enumerate(blocks):
        if i == 0 and block == '':
            continue
        lines = [[]]
        for ch, color in characters(block, scheme):
            if ch == '\n':
                lines.append([])
            else:
                lines[-1].append((ch, color))
        if all(ch.isspace() for ch, _ in lines[-1]):
            lines.pop()
        runs = [(format, [])]
        for line in lines:
            blank = all(ch.isspace() for ch, _ in line)
            if runs[-1][1] and blank != (runs[-1][1][-1] == []):
                runs.append((default, []))
            runs[-1][1].append([] if blank else line)
        out.extend(runs)
    return out


def add_line(painted, chars):
    for ch, color in chars:
        painted.add(ch, color)


def strip(line):
    a, b = 0, len(line)
    while a < b and line[a][0].isspace():
        a += 1
    while b > a and line[b - 1][0].isspace():
        b -= 1
    return line[a:b]


def expected_help(text, scheme, width):
    """The displayed text. width may be symbolic"""
    out = []
    for (wrap, indent1, indent2), lines in paragraphs(text, scheme):
        if not wrap:
            for i, line in enumerate(lines):
                out.append([(' ', None)] * (indent1 if i == 0 else indent2) + line)
            if not lines:
                out.append([(' ', None)] * indent1)
            continue
        joined = []
        for line in lines:
            line = strip(line)
            if joined or lines[0] is not line:
                joined.extend([(' ', None)] if joined else [])
            joined.extend(line)
        joined = strip(joined)
        # Words, each with the white space before it
        words = []
        space, word = [], []
        for x in joined + [(' ', None)]:
            if x[0].isspace():
                if word:
                    words.append((space, word))
                    space, word = [], []
                space.append(x)
            else:
                word.append(x)
        line, filled = [(' ', None)] * indent1, False
        for space, word in words:
            if not filled:
                line, filled = line + word, True
            elif len(line) + len(space) + len(word) <= width:
                line = line + space + word
            else:
                out.append(line)
                line = [(' ', None)] * indent2 + word
        out.append(line if filled else [])
    return out


def check_help(c, shown, text, scheme, width, what):
    expected = Painted()
    for i, line in enumerate(expected_help(text, scheme, width)):
        if i:
            expected.add('\n')
        add_line(expected, line)
    a, b = [[x.rstrip() for x in y.split('\n')] for y in (screen(shown)[0], expected.text())]
    if a != b:
        i = [x == y for x, y in zip(a + [None], b + [None])].index(False)
        c.check(False, f'{what}: line {i}: {a[i:i + 2]}, expected {b[i:i + 2]}')
    marked = [[(ch, x) for ch, x in zip(*y) if not ch.isspace()] for y in (screen(shown), (expected.text(), expected.styles))]
    for x, y in zip(*marked):
        c.check(x == y, f'{what}: {x} displayed, expected {y}')
    c.check(ends_plain(shown), f'{what}: a color is left on')


class Console(object):
    """Sets the width of the terminal"""

    def __init__(self, columns):
        self.columns = columns

    def __enter__(self):
        import marcel.util
        self.saved = marcel.util.console_width
        marcel.util.console_width = lambda: self.columns

    def __exit__(self, *a):
        import marcel.util
        marcel.util.console_width = self.saved


def width_of(columns):
    width = (70 if columns is None else columns) * 9 // 10
    return 1 if width < 1 else width


def help_scheme():
    import marcel.object.color
    scheme = marcel.object.color.ColorScheme()
    for i, key in enumerate(('help_reference', 'help_bold', 'help_italic', 'help_name')):
        setattr(scheme, key, Color(i + 1, 0, 5 - i, i))
    return scheme


def topics():
    """All ops having help, and the other topics"""
    root = d.REPO + '/marcel/'
    names = []
    for directory, prefix in (('op', ''), ('doc', 'help_')):
        for x in sorted(os.listdir(root + directory)):
            if x.startswith(prefix) and x.endswith('.py') and x[len(prefix):-3] not in names:
                with open(f'{root}{directory}/{x}') as f:
                    if re.search('^HELP *=', f.read(), re.M):
                        names.append(x[len(prefix):-3])
    return names


def topic(c, name, lo, hi):
    """The help of marcel, whatever the width of the console"""
    s = cli()
    text = s.env.op_modules[name].help() if name in s.env.op_modules else importlib.import_module('marcel.doc.help_' + name).HELP
    scheme = help_scheme()
    columns = c.int('columns', lo, hi)
    saved = s.env.getvar('COLOR_SCHEME')
    s.env.assign_permanent('COLOR_SCHEME', scheme)
    try:
        with Console(columns), Terminal() as cap:
            s.main.parse_and_run_command(f'help {name}')
    finally:
        s.env.assign_permanent('COLOR_SCHEME', saved)
    c.check(cap.stderr() == '', f'help {name}: {cap.stderr()!r}')
    out = cap.stdout()
    c.check(out.endswith('\n\n'), f'help {name}: {out[-20:]!r}')
    check_help(c, out[:-2], text, scheme, width_of(columns), f'help {name}')
    c.reach('done')


def no_topic(c):
    s = cli()
    name = c.pick('name', ('nosuchtopic', 'gather', 'fork_manager', '..', 'marcel.op', ''))
    with Terminal() as cap:
        s.main.parse_and_run_command(f"help '{name}'")
    c.check(cap.stdout() == '' and cap.stderr() != '', f'help {name!r}: {cap.stdout()[:50]!r} {cap.stderr()!r}')
    c.reach('done')


def default_topic(c):
    s = cli()
    with Terminal() as cap:
        s.main.parse_and_run_command('help')
    with Terminal() as cap2:
        s.main.parse_and_run_command(c.pick('x', ('help marcel', 'help MARCEL', 'help (topic)', 'help "marcel"')) if False else 'help marcel')
    c.check(cap.stdout() == cap2.stdout() and len(cap.stdout()) > 100, 'help is not help marcel')
    c.reach('done')


MARKUPS = ('', '{p}', '{p,indent=2}', '{L}', '{L,indent=1:3}', '{p,wrap=F}\n', '{L,indent=2:1,wrap=F}', '{P,indent=1,wrap=T}\n', '{l,wrap}  \n')
PIECES = ('ab', 'c', '\\{x\\}', '{r:cd}', '{b:e fg}', '{c123:h}', '{C450bi:ij k}', '{c005B:q}', '{c015I:q}', '{n:lm}n', 'o{i:p}', '  ', ' \n ', '\n', '\n\n', '\n \n\n', 'abcdefghijk', '\\\\', '{r:x\ny}')


SOME = ('ab', '\\{x\\}', '{r:cd}', '{b:e fg}', '{C450bi:ij k}', 'o{i:p}', ' \n ', '\n\n', 'abcdefghijk', '{r:x\ny}')


def formatted(c, blocks, k, markup):
    """Generated texts"""
    import marcel.helpformatter
    text = ''
    spaces = c.flag('spaces')
    for b in range(blocks):
        text += markup if b == 0 else c.pick(f'm{b}', ('', '{L}', '{p,wrap=F}\n', '{L,indent=2:1,wrap=F}'))
        for i in range(k):
            text += c.pick(f'p{b}_{i}', PIECES if blocks * k == 1 else SOME if b == 0 else SOME[:6])
            if spaces:
                text += ' '
        if b < blocks - 1:
            text += '\n'
    columns = c.int('columns', 0, 20)
    scheme = help_scheme()
    with Console(columns):
        shown = marcel.helpformatter.HelpFormatter(scheme).format(text)
    check_help(c, shown, text, scheme, width_of(columns), repr(text))
    c.reach('done')


def console(c):
    """The width of the console, as reported by stty"""
    import marcel.util
    import subprocess
    out, expected = c.pick('out', ((b'24 80\n', 80), (b'', None), (b'24 0\n', None), (b'0 0\n', None), (b'1 1\n', 1), (b'5 1234', 1234)))

    class Done(object):
        stdout = out
        returncode = 0 if out else 1
    saved = subprocess.run
    subprocess.run = lambda *a, **k: Done
    try:
        width = marcel.util.console_width()
    finally:
        subprocess.run = saved
    c.check(width == expected, f'stty: {out}: {width}, expected {expected}')
    c.reach('done')


def colors(c, lo, hi):
    """colorize"""
    import marcel.util
    color = Color(c.small('r', lo, hi), c.small('g', 0, 5), c.small('b', 0, 5), c.small('style', 0, 3))
    text = c.string('s', 2, CHARS)
    check_screen(c, '<' + marcel.util.colorize(text, color) + '>', Painted().add('<').add(text, color).add('>'), str(color))
    c.check(marcel.util.colorize(text, None) is text or same(marcel.util.colorize(text, None), text), 'no color')
    c.reach('done')


def schemes(c):
    """Only Colors can be assigned to the keys of a color scheme, or dicts of them"""
    import marcel.object.color
    import marcel.exception
    scheme = marcel.object.color.ColorScheme()
    key = c.pick('key', ('file_file', 'error', 'file_extension', 'nosuchkey', 'File_file', ''))
    value = c.pick('value', (None, Color(1, 2, 3), {}, {'a': Color(1, 1, 1)}, {'a': 5}, 5, 'red', (1, 2, 3), {'a': Color(1, 1, 1), 'b': None}))
    ok = key in scheme.KEYS and (value is None or type(value) is marcel.object.color.Color or
                                 (type(value) is dict and all(type(x) is marcel.object.color.Color for x in value.values())))
    before = dict(scheme.__dict__)
    how = c.pick('how', ('assign', 'set_color'))
    try:
        if how == 'assign':
            setattr(scheme, key, value)
        else:
            scheme.set_color(key, value)
        accepted = True
    except marcel.exception.KillShellException:
        accepted = False
    c.check(accepted == ok, f'{key} = {value}: accepted: {accepted}')
    c.check(scheme.__dict__ == ({**before, key: value} if ok else before), f'{key} = {value}: {scheme}')
    if c.flag('more'):
        scheme.file_extension = {'b': Color(1, 1, 1), 'a': Color(2, 2, 2)}
        if c.flag('set'):
            c.check(scheme.set_extension_color('c', Color(3, 3, 3)) is scheme.file_extension['c'], 'set_extension_color')
    # Displayed as a dict
    painting = scheme_of(c, ('color_scheme_key', 'color_scheme_value')) if c.flag('painted') else None
    k_color, v_color = (painting.color_scheme_key, painting.color_scheme_value) if painting else (None, None)
    p = Painted().add('{\n')
    for i, k in enumerate(sorted(scheme.KEYS)):
        comma = ',' if i < len(scheme.KEYS) - 1 else ''
        v = getattr(scheme, k)
        p.add('    ').add(k, k_color).add(': ')
        if type(v) is dict:
            p.add('{\n')
            for j, x in enumerate(sorted(v)):
                p.add('        ').add(x, k_color).add(': ').add(str(v[x]), v_color).add(',\n' if j < len(v) - 1 else '\n')
            p.add('    }')
        else:
            p.add(str(v), v_color)
        p.add(comma + '\n')
    check_screen(c, scheme.render_full(painting), p.add('}'), 'color scheme')
    c.reach('done')


@prop('P41', ['DefaultWriter', 'render_full', 'colorize', 'ColorScheme', 'EnvironmentInteractive.prompt', 'prompt_string', 'HelpFormatter', 'TextMarkup', 'Paragraph', 'Help', 'console_width'],
      {'quick': 'items of 9 kinds containing strings of up to 2 arbitrary characters, and 10 kinds of files, with any subset of the applicable keys of the color scheme; prompts of up to 3 pieces of 10 kinds; '
                'home and current directories with up to 5 arbitrary characters; all help topics, on consoles of any width between 72 and 82; generated help texts with up to 2 paragraphs or 2 pieces (9 kinds of paragraphs, 17 kinds of pieces), on consoles of any width up to 20',
       'thorough': 'strings of up to 3 characters, prompts of up to 4 pieces, all help topics on consoles of any width up to 250, and texts of 2 paragraphs of 3 pieces'},
      ['stty is simulated', 'marked text of help is not empty, and markup is balanced'], strings=True)
def p41(tier):
    q = tier == 'quick'
    cases = []
    for kind in KINDS:
        for where in ('terminal', 'write', 'redirected', 'file', 'direct'):
            if where == 'direct' and kind in ('tuple', 'value', 'error'):
                continue
            if kind == 'error' and where == 'file':
                continue
            for schemed in (False, True):
                for n in (1, 2, 3) if kind in ('tuple',) or not q else (0, 2):
                    if kind in ('value', 'color') and n or kind == 'workspace' and not n:
                        continue
                    cases.append(case(f'item-{kind}-{where}-{int(schemed)}-{n}', item, kind, where, schemed, n))
    for schemed in (False, True):
        for where in ('terminal', 'write', 'redirected', 'file'):
            cases.append(case(f'errors-{where}-{int(schemed)}', in_between, where, schemed))
        cases.append(case(f'killed-{int(schemed)}', killed, schemed))
    for kind in ('file', 'executable', 'empty', 'link_file', 'link_dir', 'link_up', 'broken'):
        for name in ('x', 'x.txt', 'x.TXT', 'a.tar.gz', '.txt'):
            for schemed in (False, True):
                if q and schemed is False and name != 'x.txt':
                    continue
                for away in (False, True):
                    cases.append(case(f'file-{kind}-{name}-{int(schemed)}-{int(away)}', files_shown, kind, name, False, schemed, away))
    for n in range(4 if q else 5):
        for how in ('list', 'tuple') if n < 3 else ('list',):
            cases.append(case(f'prompt-{how}-{n}', prompt, n, how))
    cases.append(case('prompt-wrong', wrong_prompt))
    cases.append(case('colors', color_range, reach=['fine', 'reported']))
    cases.append(case('scheme', scheme_values, reach=['rejected', 'set']))
    for n in (1, 2):
        for m in range(2 if q and n == 2 else 3):
            for inside in (True, False):
                for workspace in (None, 'home', 'nohome'):
                    cases.append(case(f'dir-{workspace}-{int(inside)}-{n}-{m}', prompt_directory, n, m, inside, workspace))
    for name in topics():
        for lo, hi in ((72, 82),) if q else ((0, 20), (21, 40), (41, 60), (61, 80), (81, 100), (101, 150), (151, 250)):
            cases.append(case(f'help-{name}-{lo}', topic, name, lo, hi))
    cases.append(case('help-unknown', no_topic))
    cases.append(case('help-default', default_topic))
    for blocks, k in ((1, 1), (1, 2), (2, 1)) if q else ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2)):
        for i, markup in enumerate(MARKUPS):
            if q and blocks == 2 and i in (1, 2, 7, 8):
                continue
            cases.append(case(f'format-{blocks}-{k}-{i}', formatted, blocks, k, markup))
    cases.append(case('console', console))
    for lo, hi in ((0, 1), (2, 3), (4, 5)):
        cases.append(case(f'colors-{lo}', colors, lo, hi))
    cases.append(case('schemes', schemes))
    return cases
