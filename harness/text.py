"""Command lines and other text: symbolic strings."""
import os

import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from symstr import ASCII, WIDE
from vcore import case, prop

_session = {}


def session(interactive=False):
    """One session per process. Without executables: whether a word is an executable depends on the file system."""
    if interactive not in _session:
        s = d.Cli(interactive)
        _session[interactive] = s
        import marcel.util
        global is_executable
        is_executable = marcel.util.is_executable
        marcel.util.is_executable = lambda x: False
        for line in ('opF = (| a: gen 1 | map (x: a) |)',
                     'opG = (| a, b: gen 1 | map (x: (a, b)) |)',
                     'opN = (| gen 1 |)'):
            out, err = s.run(line)
            assert err == '', err
    return _session[interactive]


# -- Robustness ----------------------------------------------------------------------------------------------------

PARSED = (9, 32, 34, 35, 36, 39, 40, 41, 44, 45, 58, 60, 61, 62, 64, 92, 97, 49, 124, 33, 123, 126, 0x3A9, 0x2028)


def parse(s, text):
    import marcel.parser
    s.env.workspace.namespace.set_env(s.env)
    return marcel.parser.Parser(text, s.env).parse()


def no_crash(c, prefix, n, suffix, alphabet):
    """Any text is either accepted, or rejected with an error message"""
    import marcel.exception
    s = session()
    text = prefix + c.string('s', n, alphabet) + suffix
    try:
        with d.Capture():
            parse(s, text)
        c.reach('parsed')
    except marcel.exception.KillCommandException as e:
        c.reach('rejected')
        str(e)
    c.check(True, 'parsed or rejected')


CONTEXTS = [('', ''), ('opF ', ''), ('gen ', ''), ('gen 3 | ', ''), ('opF (| ', ''), ('ls ', ''), ('map (', ''),
            ('x = ', ''), ('gen 3 | args (| ', ' |)'), ("opF 'a", ''), ('opF "a', ''), ('opF a\\', ''), ('gen 3 > ', ''),
            ('x < ', ''), ('! ', ''), ('@', ''), ('head -', ''), ('red ', ''), ('case (x: x > 1) ', '')]


CHEAP = (3, 5, 7, 9, 10, 11, 12, 13)


@prop('P15', functions=['marcel.parser', 'marcel.stringliteral', 'marcel.argsparser', 'marcel.function_args_parser'],
      bounds={'quick': '19 contexts (op, arguments, strings, expressions, redirection, nested pipeline), followed by any 0..2 '
                       'characters out of 24 representing each lexical class (0..3 in 8 of the contexts)',
              'thorough': 'any 0..3 characters (0..4 in 8 of the contexts)'},
      assumptions=['no word is the name of an executable in PATH', 'Python expressions are compiled with the concrete '
                   'characters of the path'], strings=True)
def p15(tier):
    q = tier == 'quick'
    cases = []
    for i, (prefix, suffix) in enumerate(CONTEXTS):
        for n in range(4 if i in CHEAP else 3) if q else range(5 if i in CHEAP else 4):
            cases.append(case(f'context{i}-{n}', no_crash, prefix, n, suffix, PARSED))
    return cases


# -- Quoting and escaping ------------------------------------------------------------------------------------------

ORDINARY = tuple(ord(x) for x in 'abzAZ059_./%+^~?*[]{}$') + (0xE9, 0x4E2D)
NOT_CONTROL = tuple(x for x in WIDE if x >= 32)


def without(alphabet, chars):
    return tuple(x for x in alphabet if chr(x) not in chars)


# How a string is written: (alphabet, source text, given the string)
WRITTEN = {
    'single': (without(WIDE, "'"), lambda c, s: f"'{s}'"),
    'double': (without(WIDE, '"\\'), lambda c, s: f'"{s}"'),
    'escaped': (WIDE, lambda c, s: ''.join('\\' + ch for ch in s)),
    'bare': (ORDINARY, lambda c, s: s),
    'mixed': (ORDINARY, lambda c, s: ''.join(('\\' + ch) if c.flag(f'escape{i}') else ch for i, ch in enumerate(s))),
    'joined': (without(WIDE, '\'"\\'), lambda c, s: ''.join(q + ch + q for q, ch in zip(('"\'"' if c.flag('double') else '\'"\''), s))),
}

# Where it is written: (command, minimum length)
PLACES = {
    'argument': 'opF {}',
    'second': 'opG x {} | map (x: x[1])',
    'flag': 'opF -a {}',
    'nested': 'gen 1 | args (| q: opF {} |)',
    'union': 'gen 1 | select (x: False) | union (| opF {} |)',
    'followed': 'opF {} | map (x: x)',
    'spaces': '  opF    {}   ',
    'comment': 'opF {} # comment',
}



def quoting(c, written, place, n):
    s = session()
    s.run('opF = (| a: gen 1 | map (x: a) |)')
    s.run('opG = (| a, b: gen 1 | map (x: [[(a, b)]]) | map (x: x[0]) |)')
    alphabet, write = WRITTEN[written]
    value = c.string('s', n, alphabet)
    if place == 'second':
        text = f'opG x {write(c, value)}'
    else:
        text = PLACES[place].format(write(c, value))
    out = s.gather(text)
    if place == 'second':
        c.check(len(out) == 1 and same(out[0], ('x', value)), f'{text!r}: {out!r}')
    else:
        c.check(len(out) == 1 and same(out[0], value), f'{text!r}: {out!r}')


def assigned(c, written, n):
    """The value of an assigned string"""
    s = session()
    alphabet, write = WRITTEN[written]
    value = c.string('s', n, alphabet)
    text = f'sv = {write(c, value)}'
    out, err = s.run(text)
    c.check(err == '', f'{text!r}: {err}')
    out = s.gather('(sv)')
    c.check(len(out) == 1 and same(out[0], value), f'{text!r}: {out!r}')


def adjacent(c, written, n, form):
    """Strings and expressions without space between them"""
    s = session()
    s.run('opF = (| a: gen 1 | map (x: a) |)')
    alphabet, write = WRITTEN[written]
    if n > 1:
        alphabet = tuple(x for x in alphabet if x in PARSED)
    value = c.string('s', n, alphabet)
    text = 'opF ' + {'before': '{}(1 + 2)', 'after': '(1 + 2){}', 'between': '(1){}("q")'}[form].format(write(c, value))
    out = s.gather(text)
    expected = {'before': value + '3', 'after': '3' + value, 'between': '1' + value + 'q'}[form]
    c.check(len(out) == 1 and same(out[0], expected), f'{text!r}: {out!r}')


EXPRESSIONS = {
    'single': (without(NOT_CONTROL, "'\\"), "gen 1 | map (x: '{}')"),
    'double': (without(NOT_CONTROL, '"\\'), 'gen 1 | map (x: "{}")'),
    'value': (without(NOT_CONTROL, '"\\'), '("{}")'),
    'nested parentheses': (without(NOT_CONTROL, '"\\'), 'gen 1 | map (x: (("{}")))'),
    'pipeline': (without(NOT_CONTROL, '"\\'), 'gen 1 | args (| q: gen 1 | map (x: "{}") |)'),
    'argument': (without(NOT_CONTROL, '"\\'), 'opF ("{}")'),
    'triple': (without(NOT_CONTROL, '\\'), 'gen 1 | map (x: """{}("""[:-1])'),
    'triplesingle': (without(NOT_CONTROL, '\\'), "gen 1 | map (x: '''{})'''[:-1]) | map (x: x)"),
    'two': (without(NOT_CONTROL, '"\\'), 'gen 1 | map (x: "{}") | map (x: x)'),
}


def expression(c, where, n):
    """A string literal in a Python expression"""
    s = session()
    s.run('opF = (| a: gen 1 | map (x: a) |)')
    alphabet, template = EXPRESSIONS[where]
    if n > 1:
        alphabet = tuple(x for x in alphabet if x in PARSED)
    value = c.string('s', n, alphabet)
    text = template.format(value)
    out = s.gather(text)
    c.check(len(out) == 1 and same(out[0], value), f'{text!r}: {out!r}')


@prop('P18', functions=['marcel.parser.Lexer', 'marcel.parser', 'marcel.stringliteral', 'marcel.argsparser', 'marcel.util'],
      bounds={'quick': 'strings of 1..3 characters (106 characters: ASCII and representatives of other classes), written in 6 '
                       'ways, in 8 places; assignments; next to expressions; strings of 0..2 characters in expressions in 9 places (2: of 22 characters)',
              'thorough': 'strings of 1..4 characters'},
      assumptions=['characters are those of the alphabets stated', 'no word is the name of an executable in PATH'], strings=True)
def p18(tier):
    q = tier == 'quick'
    cases = []
    for w in WRITTEN:
        for p in PLACES:
            for n in range(0 if w in ('single', 'double') else 1, 3 if q and w == 'joined' else 4 if q else 5):
                if q and n == 3 and p not in ('argument', 'nested'):
                    continue
                cases.append(case(f'{w}-{p}-{n}', quoting, w, p, n))
        for n in range(0 if w in ('single', 'double') else 1, 3 if q else 5):
            cases.append(case(f'assign-{w}-{n}', assigned, w, n))
            for form in ('before', 'after', 'between') if n > 0 else ():
                if n == 1 or form == 'between' and w in ('single', 'mixed'):
                    cases.append(case(f'adjacent-{form}-{w}-{n}', adjacent, w, n, form))
    for e in EXPRESSIONS:
        for n in range(3 if q or e.startswith('triple') else 4):
            cases.append(case(f'expression-{e}-{n}'.replace(' ', '_'), expression, e, n))
    return cases
