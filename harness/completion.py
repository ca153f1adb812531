"""Tab completion: symbolic strings"""
import os
import shutil

import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from symstr import ASCII, WIDE
from vcore import case, prop
from text import session, CONTEXTS, PARSED

# Characters of file names: all with a meaning on the command line, and others
NAME = tuple(map(ord, ' \t$!"&\'()*:;<>?@[\\`{|#,=-~.a')) + (0xE9, 0x4E2D)
OTHER = tuple(map(ord, 'ab \\"$')) + (0x4E2D,)
SIMPLE = tuple(map(ord, 'ab.-_1')) + (0xE9, 0x4E2D)


def complete(s, line):
    """The lines offered for a line"""
    import marcel.tabcompleter
    import marcel.util
    from prompt_toolkit.completion import CompleteEvent
    from prompt_toolkit.document import Document
    s.env.workspace.namespace.set_env(s.env)
    trouble = []
    saved = marcel.util.print_stack_of_current_exception
    marcel.util.print_stack_of_current_exception = lambda *a, **k: trouble.append(True)
    try:
        with d.Capture():
            completer = marcel.tabcompleter.TabCompleter(s.env)
            out = []
            for x in completer.get_completions(Document(line), CompleteEvent(completion_requested=True)):
                assert x.start_position <= 0 and -x.start_position <= len(line), x
                out.append(line[:len(line) + x.start_position] + x.text)
    finally:
        marcel.util.print_stack_of_current_exception = saved
    return out, bool(trouble)


def scratch(names):
    base = os.path.join(d.scratch_dir(), 'completion')
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, 'cwd'))
    os.chdir(os.path.join(base, 'cwd'))
    return os.path.join(base, 'cwd')


def no_crash(c, prefix, n, alphabet):
    s = session()
    os.chdir(scratch([]))
    open('a', 'w').close()
    open('b c', 'w').close()
    text = prefix + c.string('s', n, alphabet)
    out, trouble = complete(s, text)
    c.check(not trouble, f'{text!r}: stack trace')
    c.reach('completed')
    for x in out:
        c.check(len(x) >= len(text), f'{text!r} completed by {x!r}')


def escaped(ch, style):
    return '\\' + ch if style == 'escape' else ch


STYLES = {
    # Known finding: = is not escaped
    'equals': ((61,), lambda s: s, ''),
    'escape': (tuple(x for x in NAME if x != 61), lambda s: ''.join('\\' + ch for ch in s), ''),
    'bare': (SIMPLE, lambda s: s, ''),
    'single': (tuple(x for x in NAME if x != 39), lambda s: "'" + s, "'"),
    'double': (tuple(x for x in NAME if x not in (34, 92)), lambda s: '"' + s, '"'),
}


def filenames(c, style, typed, length, others, place):
    """The files offered are those that begin with what has been typed; the completed argument is that file"""
    s = session()
    s.run('opF = (| a: gen 1 | map (x: a) |)')
    base = scratch([])
    alphabet, write, close = STYLES[style]
    name = c.string('s', length, alphabet)
    names = [name] + [c.string(f'o{i}', k, tuple(x for x in OTHER if x in alphabet)) for i, k in enumerate(others)]
    where = {'cwd': '', 'sub': 'sub/', 'absolute': base + '/', 'relative': '../cwd/', 'space': 's p/'}[place]
    for x in names:
        c.assume(not_(disj([same(x, y) for y in ('.', '..')])))
        if where == '':
            # That would be a flag, or a home directory
            c.assume(not_(disj([same(x[0], '-'), same(x[0], '~')])))
    for i in range(len(names)):
        for j in range(i):
            c.assume(not_(same(names[i], names[j])))
    directory = os.path.join(base, where)
    os.makedirs(directory, exist_ok=True)
    kinds = []
    for i, x in enumerate(names):
        kind = c.pick(f'kind{i}', ['file', 'dir', 'link'])
        kinds.append(kind)
        if kind == 'file':
            open(os.path.join(directory, x), 'w').close()
        elif kind == 'link':
            os.symlink('/usr', os.path.join(directory, x))
        else:
            os.mkdir(os.path.join(directory, x))
    prefix = name[:typed]
    line = 'opF ' + write(where + prefix)
    if style in ('escape', 'bare', 'equals'):
        line = 'opF ' + where.replace(' ', '\\ ') + write(prefix)
    out, trouble = complete(s, line)
    c.check(not trouble, f'{line!r}: stack trace')
    seen = []
    for x in out:
        c.check(len(x) >= 4, f'{x!r}')
        ends = x.endswith('/')
        # The argument, as seen by an operator
        text = x + close if ends else x
        value = s.gather(text)
        c.check(len(value) == 1, f'{text!r}: {value!r}')
        value = value[0]
        found = [i for i, y in enumerate(names) if bool(same(value, where + y + ('' if kinds[i] == 'file' else '/')))]
        c.check(len(found) == 1, f'{line!r} completed by {x!r}: {value!r} is none of {names}')
        seen.append(found[0])
        c.reach(kinds[found[0]])
        c.check(ends or x.endswith(close + ' '), f'{x!r}: not terminated')
    expected = [i for i, y in enumerate(names) if len(y) >= typed and bool(same(y[:typed], prefix))]
    # Hidden files too
    c.check(sorted(seen) == expected, f'{line!r}: {[names[i] for i in seen]} offered instead of {[names[i] for i in expected]}')
    os.chdir(d.scratch_dir())


LETTERS = tuple(range(97, 123)) + (45,)


def op_names(c, before, n):
    import marcel.op
    s = session()
    os.chdir(scratch([]))
    prefix = c.string('s', n, LETTERS)
    saved = os.environ['PATH']
    os.environ['PATH'] = ''
    try:
        out, trouble = complete(s, before + prefix)
    finally:
        os.environ['PATH'] = saved
    c.check(not trouble, 'stack trace')
    expected = [op for op in marcel.op.public if bool(same(op[:n], prefix)) and len(op) >= n]
    c.check(same(out, [before + op + ' ' for op in expected]), f'{prefix!r}: {out}')
    c.reach('some' if out else 'none')


def executables(c, before, n):
    """Executables are offered if no operator starts with what was typed. PATH may have anything in it."""
    import marcel.op
    import marcel.util
    import text
    s = session()
    base = scratch([])
    os.chdir(base)
    kinds = [c.pick(f'entry{i}', ('dir', 'file', 'missing', 'loop', 'same')) for i in range(2)]
    present = []
    path = []
    for i, kind in enumerate(kinds):
        entry = os.path.join(os.path.dirname(base), f'p{i}')
        if kind == 'same' and i:
            entry = path[0]
        elif kind == 'dir' or kind == 'same':
            os.mkdir(entry)
            for name, mode in ((f'zx{i}', 0o755), ('zz', 0o755), ('zy', 0o644), ('qqls', 0o755)):
                with open(os.path.join(entry, name), 'w') as f:
                    f.write('')
                os.chmod(entry + '/' + name, mode)
                if mode == 0o755 and name not in present:
                    present.append(name)
        elif kind == 'file':
            with open(entry, 'w') as f:
                f.write('')
        elif kind == 'loop':
            os.symlink(entry, entry)
        path.append(entry)
    unset = kinds == ['missing', 'missing'] and c.flag('unset')
    prefix = c.string('s', n, tuple(map(ord, 'zqxyl')))
    saved = os.environ['PATH']
    if unset:
        del os.environ['PATH']
    else:
        os.environ['PATH'] = ':'.join(path)
    # Looking for a symbolic name in the file system is not possible
    marcel.util.is_executable = lambda x: text.is_executable(x) if type(x) is str else bool(disj([same(x, y) for y in present]))
    try:
        out, trouble = complete(s, before + prefix)
    finally:
        os.environ['PATH'] = saved
        marcel.util.is_executable = lambda x: False
    c.check(not trouble, 'stack trace')
    expected = [op for op in marcel.op.public if bool(same(op[:n], prefix)) and len(op) >= n]
    c.reach('op' if expected else 'executable' if present else 'none')
    if not expected and not unset:
        # Not specified: executables of the directory of this process
        expected = [x for x in present if len(x) >= n and bool(same(x[:n], prefix))]
    elif unset and not expected:
        return
    c.check(same(sorted(out), [before + x + ' ' for x in sorted(expected)]), f'{kinds} {prefix!r}: {out}, expected {expected}')


def flags(c, op, n):
    s = session()
    os.chdir(scratch([]))
    parser = s.env.op_modules[op].args_parser(s.env)
    prefix = '-' + c.string('s', n, LETTERS)
    out, trouble = complete(s, f'gen 1 | {op} {prefix}')
    c.check(not trouble, 'stack trace')
    expected = sorted(f for f in parser.flags() if len(f) >= n + 1 and bool(same(f[:n + 1], prefix)))
    expanded = n > 1 and not expected and out == []
    c.check(expanded or same(out, [f'gen 1 | {op} {f} ' for f in expected]), f'{op} {prefix}: {out}, expected {expected}')
    c.reach('done')


def topics(c, n):
    import marcel.doc
    import marcel.op
    s = session()
    prefix = c.string('s', n, LETTERS)
    out, trouble = complete(s, f'help {prefix}')
    expected = sorted(x for x in list(marcel.doc.topics) + marcel.op.public if len(x) >= n and bool(same(x[:n], prefix)))
    c.check(not trouble, 'stack trace')
    c.check(same([x.rstrip() for x in out], [f'help {x}' for x in expected]), f'help {prefix}: {out}, expected {expected}')
    c.reach('done')


@prop('P25', ['TabCompleter', 'FilenameHandler', 'HelpTopicHandler', 'marcel.parser', 'marcel.util.unescape'],
      {'quick': '19 contexts followed by any 0..2 characters of 24; file names of 1..3 characters (31 characters, including all with '
                'a meaning on the command line), of which 0..2 have been typed, in 4 styles (escaped, bare, quoted) and 5 places, '
                'next to another file, directory or link to one (7 characters); operators, flags and help topics: 0..2 letters typed',
       'thorough': '3 characters; file names of up to 4 characters, two other files'},
      ['No file name begins with - or ~ (that would be a flag, or a home directory); file names in quotes do not contain the quote; in double quotes, no backslash; not in quotes, no = (known finding)'], strings=True)
def p25(tier):
    q = tier == 'quick'
    cases = []
    for i, (prefix, suffix) in enumerate(CONTEXTS):
        for n in range(3 if q else 4):
            cases.append(case(f'context{i}-{n}', no_crash, prefix, n, PARSED, reach=['completed']))
    cases.append(case('equals', filenames, 'equals', 0, 1, (), 'sub'))
    for style in ('escape', 'bare', 'single', 'double'):
        for place in ('cwd', 'sub', 'absolute', 'relative', 'space'):
            for typed, length, others in ((0, 1, ()), (1, 1, ()), (1, 2, ()), (1, 2, (2,)), (2, 3, ()), (2, 3, (1,))) + (() if q else ((2, 4, (3,)), (1, 2, (2, 1)))):
                if q and place != 'cwd' and (others or length == 3):
                    continue
                cases.append(case(f'{style}-{place}-{typed}-{length}-{len(others)}', filenames, style, typed, length, others, place, reach=['file', 'dir', 'link']))
    for i, before in enumerate(('', 'gen 3 | ', 'ls | args (| ', 'ls | args (| d: ')):
        for n in range(3):
            cases.append(case(f'op{i}-{n}', op_names, before, n))
    for i, before in enumerate(('', 'ls | args (| ')):
        for n in range(1, 3):
            cases.append(case(f'exe{i}-{n}', executables, before, n, reach=['op', 'executable', 'none'][n - 1:]))
    for op in ('ls', 'window', 'write', 'read', 'reverse', 'fork'):
        for n in range(2 if q else 3):
            cases.append(case(f'flag-{op}-{n}', flags, op, n, reach=['done']))
    for n in range(3):
        cases.append(case(f'help-{n}', topics, n, reach=['done']))
    return cases
