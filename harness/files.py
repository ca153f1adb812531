"""Files: read and write, redirection"""
import os
import shutil

import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from symstr import ASCII, WIDE
from vcore import case, prop
from streams import expect, cli, cli_source, bind

# Line terminators separate rows; \r is a line terminator for files read as text.
TEXT = tuple(x for x in WIDE if x not in (10, 13))
# A character of each kind
FEW = tuple(map(ord, 'a" ,\t\'#\\')) + (0x85, 0x2028, 0x4E2D)


def directory(c):
    path = os.path.join(d.scratch_dir(), 'files')
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def field(c, name, kind, alphabet=FEW):
    if kind == 'int':
        return c.int(name)
    if kind == 'none':
        return None
    return c.string(name, int(kind), alphabet)


def text_of(x):
    return '' if x is None else x if isinstance(x, str) else str(x)


def rows_of(c, shape, name='f', alphabet=FEW):
    """shape: a string for each row, listing the kinds of fields"""
    return [tuple(field(c, f'{name}{i}_{j}', {'i': 'int', 'n': 'none'}.get(k, k), alphabet) for j, k in enumerate(row)) for i, row in enumerate(shape)]


def roundtrip(c, flag, shape, how):
    """What is written as CSV is read as CSV"""
    s = cli()
    path = os.path.join(directory(c), 'f')
    rows = rows_of(c, shape, alphabet=TEXT if how == 'wide' else FEW)
    out = s.gather(f'{cli_source(rows)} | write {flag} {path}', unwrap=False)
    expect(c, out, rows, 'write passes its input on')
    if how == 'append':
        more = rows_of(c, shape[:1], 'g')
        s.gather(f'{cli_source(more)} | write {flag} --append {path}')
        rows = rows + more
    out = s.gather(f'read {flag} {path}' if how != 'ls' else f'ls -f {path} | read {flag}', unwrap=False)
    expect(c, out, [tuple(text_of(x) for x in row) for row in rows], f'write {flag}, read {flag}')


def unquoted(c, flag, delimiter, shape, quoted):
    """Lines of another origin: fields in quotes, or not"""
    s = cli()
    path = os.path.join(directory(c), 'f')
    alphabet = tuple(x for x in FEW if chr(x) not in '"' + delimiter)
    rows = [tuple(field(c, f'f{i}_{j}', k, alphabet) for j, k in enumerate(row)) for i, row in enumerate(shape)]
    quotes = [['"' if quoted and c.flag(f'q{i}_{j}') else '' for j in range(len(row))] for i, row in enumerate(shape)]
    terminators = [c.pick(f't{i}', ['\n', '\r\n'] if i < len(shape) - 1 else ['\n', '']) for i in range(len(shape))]
    with open(path, 'w', newline='') as f:
        f.write(''.join(delimiter.join(q + x + q for q, x in zip(qs, row)) + t for qs, row, t in zip(quotes, rows, terminators)))
    out = s.gather(f'read {flag} {path}', unwrap=False)
    expect(c, out, [row if any(row) or len(row) > 1 or q[0] else () for row, q in zip(rows, quotes)], f'read {flag}')


def lines(c, shape, options, n_files):
    """read outputs lines, without terminators"""
    s = cli()
    base = directory(c)
    expected = []
    for k in range(n_files):
        texts = [c.string(f'l{k}_{i}', n, FEW) for i, n in enumerate(shape)]
        ends = [c.pick(f't{k}_{i}', ['\n', '\r\n'] + (['\r'] if shape[i + 1] else []) if i < len(shape) - 1 else ['\n', '\r\n', '']) for i in range(len(shape))]
        with open(os.path.join(base, f'f{k}'), 'w', newline='') as f:
            f.write(''.join(t + e for t, e in zip(texts, ends)))
        for i, text in enumerate(texts):
            if text != '' or ends[i] != '':
                expected.append((f'f{k}', text))
    names = ' '.join(os.path.join(base, f'f{k}') for k in range(n_files))
    if options == 'dir':
        out = s.gather(f'read {base}')
    elif options == 'input':
        out = s.gather(f'ls -f {names} | read')
    elif options == 'label':
        out = s.gather(f'read -l {names} | map (f, x: (f.name, x))')
        return expect(c, out, expected, 'read --label')
    else:
        out = s.gather(f'read {names}')
    expect(c, out, [x for f, x in expected], 'read')


HEADINGS = {
    'plain': (['a', 'b'], ['a', 'b']),
    'invalid': (['a b', 'c-d'], ['a_b', 'c_d']),
    'spaces': ([' a ', 'b  '], ['a', 'b']),
    'unicode': (['é', 'b%'], ['é', 'b_']),
    'three': (['x', 'yy', 'Z_1'], ['x', 'yy', 'Z_1']),
    'digit': (['1', 'b'], None),
    'duplicate': (['a', 'a'], None),
    'keyword': (['class', 'b'], None),
    'empty': (['', 'b'], None),
}


def headings(c, kinds, widths, option, label, flag='-c', delimiter=','):
    s = cli()
    base = directory(c)
    n_files = len(kinds)
    expected = []
    errors = 0
    for k, kind in enumerate(kinds):
        columns, names = HEADINGS[kind]
        rows = [tuple(c.string(f'f{k}_{i}_{j}', 1, (97, 32, 0x4E2D)) for j in range(w)) for i, w in enumerate(widths)]
        with open(os.path.join(base, f'f{k}'), 'w') as f:
            f.write('\n'.join(delimiter.join(row) for row in [columns] + rows) + '\n')
        if option == '-h' and names is None:
            errors += 1
        for row in rows:
            item = ((f'f{k}',) if label else ()) + row
            if option == '-h' and names is not None:
                if len(row) > len(names):
                    errors += 1
                    continue
                item += (None,) * (len(names) - len(row))
                expected.append((tuple((['LABEL'] if label else []) + names), item))
            else:
                expected.append((None, item))
    out = s.gather(f'read {flag} {option} {"-l" if label else ""} {base}/f*', unwrap=False)
    # A named tuple is a single value
    out = [x[0] if type(x) is tuple and len(x) == 1 and hasattr(x[0], '_fields') else x for x in out]
    good = [x for x in out if not d.is_error(x)]
    c.check(len(out) - len(good) == errors, f'{errors} errors expected: {out}')
    c.check(len(good) == len(expected), f'expected {expected}, got {good}')
    for x, (names, item) in zip(good, expected):
        fields = getattr(type(x), '_fields', None)
        c.check(fields == names, f'fields {fields}, expected {names}')
        if label:
            c.check(x[0].name == item[0], f'label {x[0]}')
            c.check(same(tuple(x[1:]), item[1:]), f'{x}, expected {item}')
        else:
            c.check(same(tuple(x), item), f'{x}, expected {item}')
    c.reach('read')


# What is in the file after writing, and how to find out
FORMATS = {
    'text': ('', '', lambda x: str(x)),
    'csv': ('--csv', '--csv', lambda x: (str(x),)),
    'tsv': ('-t', '--tsv', lambda x: (str(x),)),
    'pickle': ('-p', '--pickle', lambda x: (x,)),
    'format': ('-f "<{}>"', '', lambda x: f'<{x}>'),
}


def history(c, n, how):
    """Writing to a file several times, replacing or appending"""
    s = cli()
    path = os.path.join(directory(c), 'f')
    fmt = 'text' if how == 'redirect' else c.pick('format', list(FORMATS))
    write, read, value = FORMATS[fmt]
    content = None
    for i in range(n):
        k = c.small(f'n{i}', 0, 2)
        xs = [c.int(f'x{i}_{j}') for j in range(k)]
        append = c.flag(f'append{i}')
        source = cli_source(xs)
        if how == 'redirect':
            s.gather(f'{source} {">>" if append else ">"} {path}')
        else:
            out = s.gather(f'{source} | write {write} {"-a" if append else ""} {path}')
            expect(c, out, xs, 'write passes its input on')
        content = (content or []) + xs if append else xs
        c.check(os.path.exists(path) or not xs, 'no file')
        if os.path.exists(path):
            if how == 'redirect' and c.flag(f'back{i}'):
                out = s.gather(f'{path} < map (x: x)')
            else:
                out = s.gather(f'read {read} {path}', unwrap=False)
                out = [x[0] if fmt in ('text', 'format') else x for x in out]
            expect(c, out, [value(x) for x in content], f'{fmt} after {i + 1} writes')
    c.reach('done')


def pickled(c, shape, label):
    """Pickle preserves all values, and Errors"""
    s = cli()
    path = os.path.join(directory(c), 'f')
    xs = []
    for i, kind in enumerate(shape):
        xs.append({'i': lambda: c.int(f'x{i}'), 's': lambda: c.string(f'x{i}', 2, WIDE), 'n': lambda: None,
                   't': lambda: (c.int(f'x{i}a'), (c.string(f'x{i}b', 1, WIDE), None)), 'l': lambda: [c.int(f'x{i}a')],
                   'e': lambda: 'error'}[kind]())
    bind('BAD', [kind == 'e' for kind in shape])
    bind('XS', xs)
    s.gather(f'gen {len(xs)} | map (i: XS[i // (0 if BAD[i] else 1)]) | write -p {path}')
    out = s.gather(f'read -p {"-l" if label else ""} {path}', unwrap=False)
    c.check(len(out) == len(xs), f'{out}, expected {xs}')
    for x, y, kind in zip(out, xs, shape):
        if label and not d.is_error(x):
            c.check(x[0].name == 'f', f'label: {x}')
            x = tuple(x[1:])
        if kind == 'e':
            if type(x) is tuple and len(x) == 1:
                x = x[0]
            c.check(d.is_error(x), f'{x} is not an Error')
        else:
            y = y if type(y) in (tuple, list) else (y,)
            c.check(type(x) is type(y) and same(x, y) if not label else same(x, tuple(y) if type(y) is tuple else (y,)), f'{x}, expected {y}')
    c.reach('done')


def failing(c, fmt, n):
    """Errors, and items that cannot be formatted, do not affect others"""
    s = cli()
    path = os.path.join(directory(c), 'f')
    V = c.ints('v', n)
    bad = [c.flag(f'bad{i}') for i in range(n)]
    wide = [fmt == 'format' and c.flag(f'wide{i}') for i in range(n)]
    bind('V', V)
    bind('BAD', bad)
    bind('WIDE', wide)
    flag = {'format': '-f "{1}"', 'csv': '-c', 'text': '', 'tsv': '-t'}[fmt]
    out = s.gather(f'gen {n} | map (i: (i, V[i // (0 if BAD[i] else 1)]) if not WIDE[i] or BAD[i] else i) | write {flag} {path}')
    good = [i for i in range(n) if not bad[i]]
    c.check([x if not isinstance(x, tuple) else x[0] for x in out if not d.is_error(x)] == good, f'{out}')
    content = s.gather(f'read {"" if fmt in ("format", "text") else flag} {path}') if os.path.exists(path) else []
    expected = [i for i in range(n) if not bad[i] and not wide[i]]
    if fmt in ('csv', 'tsv'):
        content = [x for x in content if len(x) == 2 and x[0] in [str(i) for i in range(n)]]
        expect(c, content, [(str(i), str(V[i])) for i in expected], f'write {flag}')
    else:
        values = [str(V[i]) if fmt == 'format' else str((i, V[i])) for i in expected]
        # Lines of Errors are between
        c.check(len(content) >= len(values), f'{content}, expected {values}')
        k = 0
        for line in content:
            if k < len(values) and line == values[k]:
                k += 1
        c.check(k == len(values), f'{content}, expected {values}')
    c.reach('done')


UNDECODABLE = ['\udcff', 'a\udc80b', '\udce9', 'é']


def undecodable(c, flag, n, last):
    """File names that are not valid UTF-8; and strings that no file can contain"""
    s = cli()
    path = os.path.join(directory(c), 'f')
    xs = [c.pick(f'x{i}', UNDECODABLE + (['\ud800'] if flag != '-p' else [])) for i in range(n)]
    bind('XS', xs)
    text = f'gen {n} | map (i: XS[i]) | write {flag} {path}'
    good = [x for x in xs if x != '\ud800']
    if last:
        out, err = s.run(text)
        c.check('KILLED' not in err and 'Traceback' not in err, f'{err}')
        c.check(err.count('Error') == n - len(good), f'{n - len(good)} errors expected: {err}')
    else:
        out = s.gather(text)
        c.check([x for x in out if not d.is_error(x)] == xs, f'{out}')
        c.check(len([x for x in out if d.is_error(x)]) == n - len(good), f'{n - len(good)} errors expected: {out}')
    out = s.gather(f'read {flag} {path}')
    if flag == '-c':
        out = [x[0] if type(x) is tuple else x for x in out]
    c.check(out == good, f'{out}, expected {good}')
    c.reach('done')


@prop('P24', ['Read', 'CSVReader', 'TextReader', 'PickleReader', 'Write', 'CSVWriter', 'DefaultWriter', 'PickleWriter',
              'PythonWriter', 'FilenamesOp', 'PickleFile', 'Parser.redirect_in_op', 'Parser.redirect_out_op'],
      {'quick': 'CSV, TSV: rows of 0..3 fields (strings of 0..3 characters of 10 or, for one field, of 105; unbounded integers, None), '
                'up to 2 rows; text: 1..3 lines of 0..2 characters, up to 2 files, all line terminators; 9 kinds of headings, '
                'files with up to 2 rows of 1..3 fields; pickle: 6 kinds of values; up to 3 writes of up to 2 items',
       'thorough': 'up to 3 rows, strings of up to 5 characters, 4 writes'},
      ['The csv module (C) is replaced by a transcription to Python, during symbolic execution'], strings=True)
def p24(tier):
    q = tier == 'quick'
    cases = []
    for flag in ('-c', '-t'):
        shapes = [['1'], ['2'], ['3'], ['11'], ['0'], ['i'], ['n'], ['1i1'], ['i', '2'], ['', '1'], ['1', 'n1'], ['101']]
        if not q:
            shapes += [['4'], ['5'], ['22'], ['11', '11'], ['1', '1', '1'], ['12', 'i1']]
        for shape in shapes:
            cases.append(case(f'trip{flag}-{"_".join(shape)}', roundtrip, flag, shape, ''))
        for shape in (['1'], ['2'], ['11']):
            cases.append(case(f'wide{flag}-{"_".join(shape)}', roundtrip, flag, shape, 'wide'))
        for how in ('append', 'ls'):
            cases.append(case(f'trip{flag}-{how}', roundtrip, flag, ['1i', 'n1'], how))
        for quoted in (False, True):
            for shape in (['11'], ['2', '1'], ['0', '10'], ['101']):
                cases.append(case(f'lines{flag}-{"_".join(shape)}-{quoted}', unquoted, flag, {'-c': ',', '-t': '\t'}[flag], [[x for x in row] for row in shape], quoted))
    for shape in (['1'], ['3'], ['i', '1'], ['0', '2']):
        for how in ('', 'append', 'ls', 'wide'):
            cases.append(case(f'trip-{"_".join(shape)}-{how}', roundtrip, '', shape, how))
    for options in ('', 'dir', 'input', 'label'):
        for shape in ((1,), (0,), (1, 0), (0, 2), (1, 1, 1), (0, 0, 0)) if options == '' or not q else ((1,), (1, 0)):
            for n_files in (1, 2) if sum(shape) < 2 else (1,):
                cases.append(case(f'text{options}-{"".join(map(str, shape))}-{n_files}', lines, shape, options, n_files))
    for option in ('-h', '-s'):
        for label in (False, True):
            for kind in HEADINGS:
                cases.append(case(f'headings{option}-{kind}-{label}', headings, [kind], [1, 2, 3], option, label, reach=['read']))
            for kinds in (['plain', 'digit'], ['three', 'plain'], ['digit', 'plain']):
                cases.append(case(f'headings{option}-{"-".join(kinds)}-{label}', headings, kinds, [2], option, label, reach=['read']))
        cases.append(case(f'headings{option}-tsv', headings, ['plain'], [2, 1], option, False, '-t', '\t', reach=['read']))
    for label in (False, True):
        for shape in ('isntle', 'i', 'ee', 'ts'):
            cases.append(case(f'pickle-{shape}-{label}', pickled, shape, label, reach=['done']))
    for how in ('write', 'redirect'):
        cases.append(case(f'history-{how}', history, 2 if q else 3, how, reach=['done']))
    for flag in ('', '-c', '-p'):
        for last in (False, True):
            cases.append(case(f'undecodable{flag}-{last}', undecodable, flag, 2, last, reach=['done']))
    for fmt in ('text', 'csv', 'tsv', 'format'):
        cases.append(case(f'failing-{fmt}', failing, fmt, 3, reach=['done']))
    return cases
