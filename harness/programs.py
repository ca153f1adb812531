"""Programs of the operating system, in pipelines"""
import marceldrv as d
import simshell
from symex import same, conj, disj, not_, implies, ite, total, b2i
from symstr import ASCII, WIDE
from vcore import case, prop
from streams import expect, cli, cli_source, bind


def lines_of(data):
    text = data.decode('utf-8', 'surrogateescape').replace('\r\n', '\n').replace('\r', '\n')
    lines = text.split('\n')
    if lines[-1] == '':
        lines.pop()
    return lines


CHUNKS = [b'a\n', b'bc', b'\n', b'\xc3', b'\xa9', b'x\ny\nz', b'\r', b'\xff\n', b'\n\n', b' q \r\n']


def cat():
    while True:
        line = yield 'read',
        if not line:
            return
        yield 'write', 1, line


def tee():
    while True:
        line = yield 'read',
        if not line:
            return
        yield 'write', 1, line
        yield 'write', 2, line


def head(n):
    for i in range(n):
        line = yield 'read',
        if not line:
            return
        yield 'write', 1, line
    yield 'step',


def count(chunk):
    n = 0
    while True:
        line = yield 'read',
        if not line:
            break
        n += 1
    yield 'write', 1, b'%d%s' % (n, chunk)


def closed():
    yield 'closein',
    yield 'write', 1, b'done\n'


def echo(chunks, exit=0):
    for stream, chunk in chunks:
        yield 'write', stream, chunk
    return exit


def endless(chunk):
    while True:
        yield 'write', 1, chunk


def daemon(chunks, late):
    def background():
        if late:
            yield 'write', 1, b'late\n'
        yield 'never',
    yield 'fork', background()
    for stream, chunk in chunks:
        yield 'write', stream, chunk


def execute(c, s, text, program, capacity, preemptions, choices, **kw):
    with simshell.World(c, program, capacity, preemptions, choices) as world:
        try:
            out = s.gather(text, **kw)
        except simshell.Deadlock as e:
            c.fail(f'the command does not end: {e}')
        c.check(not world.uncaught, f'a thread failed: {world.uncaught}')
    return out, world


def split(c, out):
    errors = [x for x in out if d.is_error(x)]
    return [x for x in out if not d.is_error(x)], [str(e) for e in errors]


def output(c, n, streams, how, follow, preemptions, choices):
    """A command's output"""
    s = cli()
    chunks = []
    for i in range(n):
        stream = c.pick(f'stream{i}', [1, 2]) if streams == 2 else 1
        chunks.append((stream, c.pick(f'chunk{i}', CHUNKS if how != 'late' else [b'a\n', b'x\ny\n'])))
    out_lines = lines_of(b''.join(x for k, x in chunks if k == 1))
    err_lines = lines_of(b''.join(x for k, x in chunks if k == 2))
    exit = c.pick('exit', [0, 1]) if n < 2 else 0
    program = {'echo': lambda x: echo(chunks, exit),
               'daemon': lambda x: daemon(chunks, False),
               'late': lambda x: daemon(chunks, True)}[how]
    out, world = execute(c, s, f'bash program x {follow}', program, 2, preemptions, choices)
    c.check(world.commands == ['program x'], f'{world.commands}')
    good, errors = split(c, out)
    if follow:
        out_lines = [('got', x) for x in out_lines]
    if how == 'late':
        # What the command has not written itself may be missing
        good = [x for x in good if x != 'late']
    c.check(good == out_lines, f'{good}, expected {out_lines}')
    c.check(len(errors) == len(err_lines) and all(x in e for e, x in zip(errors, err_lines)), f'errors {errors}, expected {err_lines}')
    c.reach('done')


ITEMS = [('0', ['0']), ("'a b'", ['a b']), ("''", ['']), ('None', ['None']), ('(1, 2)', ['(1, 2)']), ("'p\\nq'", ['p', 'q']), ("'é'", ['é'])]


def piped(c, n, which, capacity, preemptions, choices):
    """A command reading the items of the pipeline"""
    s = cli()
    picked = [c.pick(f'item{i}', ITEMS) for i in range(n)]
    items = [eval(x) for x, _ in picked]
    lines = [y for _, x in picked for y in x]
    bind('ITEMS', items)
    programs = {'cat': cat, 'tee': tee, 'head0': lambda: head(0), 'head1': lambda: head(1), 'head2': lambda: head(2),
                'count': lambda: count(b''), 'closed': closed, 'one': lambda: echo([(1, b'x\ny')])}
    expected = {'cat': lines, 'tee': lines, 'head0': [], 'head1': lines[:1], 'head2': lines[:2], 'count': [str(len(lines))],
                'closed': ['done'], 'one': ['x', 'y']}[which]
    source = f'gen {n} | map (i: ITEMS[i])' if n else 'gen 1 | select (i: False)'
    out, world = execute(c, s, f'{source} | bash program', lambda x: programs[which](), capacity, preemptions, choices)
    good, errors = split(c, out)
    c.check(good == expected, f'{good}, expected {expected}')
    c.check(len(errors) == (len(lines) if which == 'tee' else 0) and all(x in e for e, x in zip(errors, lines)), f'errors {errors}')
    c.check(world.commands == ['program'], f'{world.commands}')
    if which in ('cat', 'tee', 'count'):
        c.check(world.started[0].lines == [x.encode() + b'\n' for x in lines], f'stdin: {world.started[0].lines}')
    c.reach('done')


def several(c, text, ks, preemptions, choices):
    """A pipeline run repeatedly"""
    s = cli()
    K = list(ks)
    bind('K', K)

    def program(command):
        name, *args = command.split()
        if name == 'cat':
            return cat()
        return echo([(1, b'%s-%d\n' % (args[0].encode(), i)) for i in range(K[int(args[0])])])
    if text == 'args':
        text = f'gen {len(K)} | args (| x: bash echo (x) |)'
        expected = [f'{i}-{j}' for i, k in enumerate(K) for j in range(k)]
        commands = [f'echo {i}' for i in range(len(K))]
    elif text == 'pipe':
        text = f'bash echo 0 | bash cat | bash cat'
        expected = [f'0-{j}' for j in range(K[0])]
        commands = ['cat', 'cat', 'echo 0']
    elif text == 'case':
        text = f'gen {len(K)} | case (x: K[x] == 1) (| bash cat |) (x: K[x] == 2) (| map (x: -x) |)'
        expected = [-i for i, k in enumerate(K) if k == 2] + [str(i) for i, k in enumerate(K) if k == 1]
        commands = None
    out, world = execute(c, s, text, program, 2, preemptions, choices)
    if text.startswith('gen') and 'case' in text:
        c.check(sorted(out, key=str) == sorted(expected, key=str), f'{out}, expected {expected}')
    else:
        c.check(out == expected, f'{out}, expected {expected}')
        c.check(sorted(world.commands) == sorted(commands), f'{world.commands}, expected {commands}')
    for p in world.started:
        c.check(p.exitcode is not None, 'a command has not ended')
    c.reach('done')


def failing(c, n, preemptions, choices):
    """Operators before and after a command fail on some items"""
    s = cli()
    before = [c.flag(f'before{i}') for i in range(n)]
    after = [c.flag(f'after{i}') for i in range(n)]
    bind('BEFORE', before)
    bind('AFTER', after)
    text = f'gen {n} | map (i: i // (0 if BEFORE[i] else 1)) | bash cat | map (i: int(i) // (0 if AFTER[int(i)] else 1))'
    out, world = execute(c, s, text, lambda x: cat(), 2, preemptions, choices)
    good, errors = split(c, out)
    c.check(good == [i for i in range(n) if not before[i] and not after[i]], f'{good}')
    c.check(len(errors) == len([i for i in range(n) if before[i] or after[i]]), f'errors: {errors}')
    c.reach('done')


def first(c, which, preemptions, choices):
    """Only the first line of output is used"""
    a = d.api()
    programs = {'endless': lambda: endless(b'y\n'), 'two': lambda: echo([(1, b'y\n'), (1, b'z')]), 'both': lambda: echo([(1, b'y\n'), (2, b'z')]),
                'cat': cat}
    with simshell.World(c, lambda x: programs[which](), 2, preemptions, choices) as world:
        try:
            out = a.first((a.gen(3) | a.map(lambda x: 'y') | a.bash('program')) if which == 'cat' else a.bash('program'))
        except simshell.Deadlock as e:
            c.fail(f'the command does not end: {e}')
        c.check(not world.uncaught, f'a thread failed: {world.uncaught}')
        c.check(out == 'y', f'{out}')
        c.check(world.started[0].exitcode is not None, 'the command has not ended')
    c.reach('done')


def interactive(c, text, how, preemptions, choices):
    """A program using the terminal"""
    s = cli()
    exit = c.pick('exit', (0, 1, -2))
    n = c.small('steps', 0, 2)
    executables = s.env.getvar('INTERACTIVE_EXECUTABLES')
    before = list(executables)

    def program(command):
        for i in range(n):
            yield 'step',
        return exit
    try:
        if how == 'listed':
            executables[:] = ['another', 'cat']
            run = 'cat x'
        else:
            run = 'bash -i cat x'
        expected, message = {'alone': (['cat x'], ''), 'first': (['cat x'], ''), 'args': (['cat x 0', 'cat x 1'], ''),
                             'input': ([], 'input'), 'before': ([], '0'), 'empty': ([], '')}[text]
        text = {'alone': run, 'first': run + ' | map (x: 5)', 'args': f'gen 2 | args (| i: {run} (i) |)', 'input': f'gen 2 | {run}',
                'before': run + ' | head 0', 'empty': f'gen 1 | select (x: False) | {run}'}[text]
        with simshell.World(c, program, 2, preemptions, choices) as world:
            try:
                out, err = s.run(text)
            except simshell.Deadlock as e:
                c.fail(f'the command does not end: {e}')
            c.check(not world.uncaught, f'a thread failed: {world.uncaught}')
            c.check(world.commands == expected, f'{text}: {world.commands}, expected {expected}')
            for p in world.started:
                c.check(p.exitcode is not None, f'{text}: the program has not ended')
        c.check(out == '', f'{text}: {out!r}')
        c.check((err != '') == (message != '') and message in err and 'None' not in err, f'{text}, exit {exit}: {err!r}')
    finally:
        executables[:] = before
    c.reach('done')


BARE = tuple(ord(x) for x in 'abzAZ059_./%+^~?*[]{}$@,:=;&-') + (0xE9, 0x4E2D)
FIRST = tuple(x for x in BARE if chr(x) not in '=,:@')
QUOTED = tuple(x for x in WIDE if x >= 32)
# A segment of a word: alphabet, source text
SEGMENTS = {
    'b': (BARE, '{}'),
    's': (tuple(x for x in QUOTED if x != 39), "'{}'"),
    'd': (tuple(x for x in QUOTED if x not in (34, 92)), '"{}"'),
    'e': (QUOTED, '\\{}'),
}


def typed(c, words, form):
    """The shell gets a command as it was typed"""
    s = cli()
    text = []
    for i, word in enumerate(words):
        segments = []
        for j, kind in enumerate(word):
            alphabet, source = SEGMENTS[kind.lower()]
            if i == 0 and j == 0 and kind == 'b':
                # These would be marcel syntax
                alphabet = FIRST
            segments.append(source.format(c.string(f's{i}_{j}', 1 if kind.islower() else 2, alphabet)))
        text.append(''.join(segments))
    if form == 'plain':
        command, expected = 'cat ' + ' '.join(text), 'cat ' + ' '.join(text)
    elif form == 'spaces':
        command, expected = '  cat   ' + '   '.join(text) + '  ', 'cat ' + ' '.join(text)
    elif form == 'piped':
        command, expected = 'cat ' + ' '.join(text) + '|map (x: x)', 'cat ' + ' '.join(text)
    elif form == 'nested':
        command, expected = 'gen 1 | args (| z: cat ' + ' '.join(text) + ' |)', 'cat ' + ' '.join(text)
    elif form == 'expression':
        command, expected = 'cat (1 + 2) ' + ' '.join(text), 'cat 3 ' + ' '.join(text)
    elif form == 'comment':
        command, expected = 'cat ' + ' '.join(text) + ' # comment', 'cat ' + ' '.join(text)
    out, world = execute(c, s, command, lambda x: echo([(1, b'x')]), 2, 0, 0)
    c.check(len(world.commands) == 1 and same(world.commands[0], expected), f'{command!r}: {world.commands}')
    c.check(out == ['x'], f'{out}')
    c.reach('done')


@prop('P29', ['Bash', 'NonInteractive', 'ProcessOutputHandler'],
      {'quick': 'commands writing up to 3 chunks out of 10 to stdout or stderr, with or without leaving a process in the background; up to 3 '
                'items (of 7 kinds) to commands reading all, some, or none of them; pipes with a capacity of 1 or 2 writes; '
                'schedules with 1 preemption and 2 unfair choices',
       'thorough': '4 chunks, 4 items, 3 preemptions, 4 unfair choices'},
      ['Programs, pipes, threads, locks, and selectors are simulated; a thread is preempted only when it interacts with a program, '
       'or waits'], strings=True)
def p29(tier):
    q = tier == 'quick'
    p, u = (1, 1) if q else (2, 3)
    cases = []
    for n in (0, 1, 2) if q else (0, 1, 2, 3):
        for streams in (1, 2):
            for how in ('echo', 'daemon', 'late'):
                few = n > 2 or n == 2 and q
                cases.append(case(f'output-{how}-{n}-{streams}', output, n, streams, how, '', 0 if few else p, 0 if few and streams == 2 else u, reach=['done']))
    cases.append(case('output-follow', output, 2, 1, 'echo', "| map (x: ('got', x))", 0, 1, reach=['done']))
    for which in ('cat', 'tee', 'head0', 'head1', 'head2', 'count', 'closed', 'one'):
        for n in (0, 1, 2, 3):
            for capacity in (1, 2):
                few = n >= 2
                if n <= 2 or capacity == 1:
                    cases.append(case(f'piped-{which}-{n}-{capacity}', piped, n, which, capacity, 0 if few else p, 1 if n < 2 else 0, reach=['done']))
    for ks in ((0,), (2,), (1, 2), (0, 1), (2, 1, 1)):
        for text in ('args', 'pipe', 'case'):
            if text != 'pipe' or len(ks) == 1:
                cases.append(case(f'several-{text}-{"".join(map(str, ks))}', several, text, ks, 0, 1, reach=['done']))
    for n in (1, 2, 3):
        cases.append(case(f'failing-{n}', failing, n, 0, 1 if n < 3 else 0, reach=['done']))
    for which in ('endless', 'two', 'both', 'cat'):
        cases.append(case(f'first-{which}', first, which, p, 2, reach=['done']))
    for text in ('alone', 'first', 'args', 'input', 'before', 'empty'):
        for how in ('flag', 'listed'):
            cases.append(case(f'interactive-{text}-{how}', interactive, text, how, p, u, reach=['done']))
    for form in ('plain', 'spaces', 'piped', 'nested', 'expression', 'comment'):
        for words in (['b'], ['s'], ['d'], ['e'], ['bb', 'e'], ['be'], ['eb'], ['sb'], ['bd'], ['b', 's'], ['ee'], ['S'], ['D']):
            if form == 'plain' or len(words) == 1 and len(words[0]) == 1 and words[0].islower() or not q:
                cases.append(case(f'typed-{form}-{"_".join(words)}', typed, words, form, reach=['done']))
    return cases
