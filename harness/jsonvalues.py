"""JSON: parsing, formatting, and reading"""
import json
import os

import marceldrv as d
from symex import same
from vcore import case, prop
from files import directory
from streams import cli, bind

LEAVES = (None, True, False, 1, 0, -2.5, 'a', '', 'é"\\\n\t/\u2028\U0001f600', 10 ** 25, 1e-300)
KEYS = ('a', 'b_1', 'items', 'x y', '', 'class', 'assign', '__class__', 'é"', '1', 'A')


class Obj(list):
    """The members of an object"""


def structure(c, name, depth, width, leaves, keys):
    kinds = ('leaf', 'list', 'object') if depth else ('leaf',)
    kind = c.pick(f'{name}k', kinds)
    if kind == 'leaf':
        return c.pick(f'{name}v', leaves)
    n = c.small(f'{name}n', 0, width)
    children = [structure(c, f'{name}{i}', depth - 1, width, leaves, keys) for i in range(n)]
    if kind == 'list':
        return children
    start = c.pick(f'{name}key', range(0, len(keys), 2))
    return Obj((keys[(start + i) % len(keys)], x) for i, x in enumerate(children))


def text_of(x, space, ascii):
    """JSON, written independently of the json module"""
    if isinstance(x, Obj):
        return '{' + space + f'{space},{space}'.join(text_of(k, '', ascii) + space + ':' + space + text_of(v, space, ascii) for k, v in x) + space + '}'
    if isinstance(x, list):
        return '[' + space + f'{space},{space}'.join(text_of(v, space, ascii) for v in x) + space + ']'
    if x is None or x is True or x is False:
        return {None: 'null', True: 'true', False: 'false'}[x]
    if isinstance(x, str):
        def char(ch):
            n = ord(ch)
            if ch in '"\\':
                return '\\' + ch
            if n < 32 or ascii and n > 126:
                return ''.join(f'\\u{u:04x}' for u in ((n,) if n < 0x10000 else (0xd800 + (n - 0x10000 >> 10), 0xdc00 + (n - 0x10000 & 0x3ff))))
            return ch
        return '"' + ''.join(char(ch) for ch in x) + '"'
    return repr(x)


def check_value(c, value, x, what):
    """value is the Python value of x"""
    if isinstance(x, Obj):
        c.check(not isinstance(value, (dict, list, tuple, str)) and hasattr(value, '__dict__'), f'{what}: {value!r}, expected an object')
        c.check(list(value.__dict__) == [k for k, _ in x], f'{what}: members {list(value.__dict__)} of {x}')
        for k, v in x:
            check_value(c, value[k], v, f'{what}.{k}')
            if k != '__class__':
                c.check(getattr(value, k) is value[k], f'{what}.{k}')
        if not any(k == 'items' for k, _ in x):
            c.check([k for k, _ in value.items()] == [k for k, _ in x] and all(v is value[k] for k, v in value.items()), f'{what}: items() of {x}: {value.items()}')
        try:
            value['no such member']
            c.fail(f'{what}: an unknown member is accepted')
        except KeyError:
            pass
    elif isinstance(x, list):
        c.check(type(value) is list and len(value) == len(x), f'{what}: {value!r}, expected {x}')
        for i, (v, y) in enumerate(zip(value, x)):
            check_value(c, v, y, f'{what}[{i}]')
    else:
        c.check(type(value) is type(x) and value == x, f'{what}: {value!r}, expected {x!r}')


def parse(c, depth, width, leaves, keys, how):
    x = structure(c, 's', depth, width, leaves, keys)
    text = text_of(x, c.pick('space', ('', ' ', '\n ', '\t')), c.flag('ascii'))
    s = cli()
    bind('TEXT', text)
    if how == 'cli':
        value, = [r for r, in s.gather('gen 1 | map (i: (json_parse(TEXT),))', unwrap=False)]
    else:
        import marcel.builtin
        value = marcel.builtin.json_parse(text)
    check_value(c, value, x, text)
    import marcel.builtin
    again = marcel.builtin.json_format(value)
    c.check(type(again) is str, f'{again!r}')
    check_text(c, again, x, f'formatted: {text}')
    check_value(c, marcel.builtin.json_parse(again), x, f'parsed, formatted, and parsed: {text}')
    c.reach('object' if isinstance(x, Obj) else 'list' if isinstance(x, list) else 'leaf')


def plain(x):
    return Obj((k, plain(v)) for k, v in x) if isinstance(x, Obj) else [plain(v) for v in x] if isinstance(x, (list, tuple)) else x


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return isinstance(a, Obj) == isinstance(b, Obj) and len(a) == len(b) and all(
            equal(p[1], q[1]) and p[0] == q[0] if isinstance(a, Obj) else equal(p, q) for p, q in zip(a, b))
    return type(a) is type(b) and a == b


def check_text(c, text, x, what):
    try:
        value = json.loads(text, object_pairs_hook=Obj)
    except ValueError as e:
        c.fail(f'{what}: {text!r} is not JSON: {e}')
    c.check(equal(value, plain(x)), f'{what}: {text!r}, expected {x}')


def build(c, x, name):
    """Python values denoting x: objects or dicts, lists or tuples"""
    import marcel.structish
    if isinstance(x, Obj):
        members = {k: build(c, v, f'{name}{i}') for i, (k, v) in enumerate(x)}
        return marcel.structish.o(**members) if c.flag(f'{name}o') else members
    if isinstance(x, list):
        members = [build(c, v, f'{name}{i}') for i, v in enumerate(x)]
        return members if c.flag(f'{name}l') else tuple(members)
    return x


def format(c, depth, width, leaves, keys):
    import marcel.builtin
    x = structure(c, 's', depth, width, leaves, keys)
    text = marcel.builtin.json_format(build(c, x, 'b'))
    check_text(c, text, x, 'formatted')
    c.reach('object' if isinstance(x, Obj) else 'list' if isinstance(x, list) else 'leaf')


BROKEN = ('', '  ', '{', '[1,]', "{'a': 1}", '{"a" 1}', 'nul', '1 2', '"a', '"a\nb"', '[1]]', '{"a": 1,}', '\ufeff1')


def invalid(c):
    """Text that is not JSON is an Error of the item"""
    s = cli()
    xs = [c.pick(f'x{i}', BROKEN + ('[7]', ' 7 ')) for i in range(2)]
    bind('TEXTS', xs)
    out = s.gather('gen 2 | map (i: (i, json_parse(TEXTS[i])))')
    c.check(len(out) == 2, f'{out}')
    for i, (x, r) in enumerate(zip(xs, out)):
        expected = {'[7]': (i, [7]), ' 7 ': (i, 7)}.get(x)
        c.check(r == expected if expected else d.is_error(r), f'{x!r}: {r}, expected {expected or "an Error"}')
        c.reach('parsed' if expected else 'error')


def read(c, n, how, leaves, keys):
    """read --json outputs the value of each file, and an Error for a file that is not JSON"""
    s = cli()
    path = directory(c)
    expected = []
    for i in range(n):
        if c.flag(f'broken{i}'):
            text, x = c.pick(f'text{i}', BROKEN if n == 1 else BROKEN[:2]), 'broken'
        else:
            x = structure(c, f's{i}', 1, 1 if n > 1 else 2, leaves, keys)
            if type(x) is list:
                # A list is output as a tuple of its elements
                x = Obj([('top', x)])
            text = text_of(x, c.pick(f'space{i}', ('', '\n', '\r\n  ')[:4 - n]), n > 1 or c.flag(f'ascii{i}'))
        with open(os.path.join(path, f'f{i}'), 'w', encoding='utf-8', newline='') as f:
            f.write(text + ('\n' if n > 1 else c.pick(f'end{i}', ('', '\n'))))
        expected.append((f'f{i}', x))
    label = 'l' in how.replace('ls', '')
    if how.startswith('ls'):
        flags = '--json -l' if label else '-j'
        out = s.gather(f'ls -f "{path}"/* | sort (f: f.path) | read {flags}', unwrap=False)
    elif how.startswith('api'):
        a = d.api()
        out = d.gather(a.read(os.path.join(path, 'f*'), json=True, label=label) | a.map(lambda *x: (x,)) | a.map(lambda x: (x,)))
        out = [x if d.is_error(x) else x[0] if isinstance(x[0], tuple) else x for x in out]
    else:
        out = s.gather(f'read {how} "{path}"/*', unwrap=False)
    good = [x for x in out if not is_error(x)]
    errors = [x for x in out if is_error(x)]
    valid = [(name, x) for name, x in expected if not (isinstance(x, str) and x == 'broken')]
    c.check(len(good) == len(valid), f'{good}, expected {valid}')
    c.check(len(errors) == n - len(valid), f'{len(errors)} errors, expected {n - len(valid)}')
    if how.startswith('read') and n > 1:
        valid.sort(key=lambda p: p[0])
    names = [name for name, _ in valid]
    if label:
        c.check(sorted(x[0].path.name for x in good) == names, f'labels {[x[0].path.name for x in good]}, expected {names}')
        good = sorted(good, key=lambda x: x[0].path.name)
    for value, (name, x) in zip(good, valid):
        c.check(len(value) == 2 if label else len(value) == 1, f'{value}')
        check_value(c, value[-1], x, name)
    c.reach('error' if errors else 'good')


def is_error(x):
    return d.is_error(x) or isinstance(x, tuple) and len(x) == 1 and d.is_error(x[0])


@prop('P43', ['JSONUtil', 'Struct', 'json_parse', 'json_format', 'JSONReader'],
      {'quick': 'values nested up to 2 levels, with up to 2 elements or members (out of 11 names), 11 kinds of other values; 13 texts that are not JSON; up to 2 files',
       'thorough': 'up to 3 levels, 3 files'},
      ['The scanner of the json module is that of Python, and gets concrete text'])
def p43(tier):
    q = tier == 'quick'
    few = LEAVES[:1] + LEAVES[3:4] + LEAVES[8:9]
    cases = []
    for how in ('cli', 'call'):
        cases.append(case(f'parse-leaf-{how}', parse, 0, 0, LEAVES, KEYS, how, reach=['leaf']))
        cases.append(case(f'parse-flat-{how}', parse, 1, 1, LEAVES, KEYS, how, reach=['object', 'list']))
        cases.append(case(f'parse-wide-{how}', parse, 1, 2, few, KEYS, how, reach=['object', 'list']))
        cases.append(case(f'parse-deep-{how}', parse, 2, 2 if not q else 1, few, KEYS, how, reach=['object', 'list']))
    if not q:
        cases.append(case('parse-deeper', parse, 3, 1, few, KEYS[:4], 'call', reach=['object', 'list']))
    cases.append(case('format-flat', format, 1, 2, few, KEYS[:6], reach=['object', 'list']))
    cases.append(case('format-leaf', format, 1, 1, LEAVES, KEYS[:2], reach=['object', 'list']))
    cases.append(case('format-deep', format, 2, 2, (1,), ('a', 'c d'), reach=['object', 'list']))
    cases.append(case('invalid', invalid, reach=['error', 'parsed']))
    for how in ('-j', '--json -l', '-jl', 'ls', 'ls-label', 'api', 'api-label'):
        for n in (1, 2) if q else (1, 2, 3):
            cases.append(case(f'read-{how.replace(" ", "_")}-{n}', read, n, how, few if n == 1 else (1,), KEYS[:4] if n == 1 else ('a',), reach=['error', 'good']))
    return cases
