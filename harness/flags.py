"""Flags and arguments of operators, against their documented usage."""
import itertools

import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from text import session, parse
from vcore import case, prop


class Spec(object):
    """What HELP says. flags: '-s --long[=kind]' (a kind followed by ? may be omitted); groups: at most one of, exactly
    one of; args: kinds, optional ones in brackets, and a list followed by ..."""

    def __init__(self, flags='', args='', at_most=(), exactly=()):
        self.flags, self.kinds, self.spellings = [], {}, {}
        for f in flags.split(','):
            if f.strip():
                spellings, _, kind = f.strip().partition('=')
                spellings = spellings.split()
                name = spellings[-1]
                self.flags.append(name)
                self.kinds[name] = kind or None
                for x in spellings:
                    self.spellings[x] = name
        self.required = [x for x in args.split() if x[0] != '[' and not x.endswith('...')]
        self.optional = [x[1:-1] for x in args.split() if x[0] == '[']
        rest = [x[:-3] for x in args.split() if x.endswith('...')]
        self.rest = rest[0] if rest else None
        self.verbatim = self.rest == 'word'
        self.at_most = [g.split() for g in at_most]
        self.exactly = [g.split() for g in exactly]

    def arg_kind(self, i):
        anon = self.required + self.optional
        return anon[i] if i < len(anon) else self.rest


SPECS = {
    'args': Spec('-a --all', 'pipe'),
    'bash': Spec('-i --interactive', 'word...'),
    'bg': Spec('-j --job=int, -p --process=int', '[int]', exactly=['--job --process 0']),
    'cd': Spec('', '[str]'),
    'difference': Spec('', 'pipe'),
    'dirs': Spec('-c --clear', ''),
    'edit': Spec('-s --startup=any?', '[int]', ['--startup 0']),
    'env': Spec('-d --delete=any, -p --pattern=any, -b --builtins, -o --os', '[any]',
                ['--delete --pattern 0', '--delete --os', '--builtins --os']),
    'exit': Spec(),
    'expand': Spec('', '[int]'),
    'fg': Spec('-j --job=int, -p --process=int', '[int]', exactly=['--job --process 0']),
    'filter': Spec('-k --keep, -d --discard, -c --compare=func', 'pipe', ['--keep --discard']),
    'fork': Spec('', 'forkgen pipe'),
    'gen': Spec('-p --pad=int', '[int] [int]'),
    'head': Spec('', 'int'),
    'help': Spec('', '[str]'),
    'history': Spec('-c --command=any, -a --all', '[int]', ['--all 0']),
    'import': Spec('-a --as=any', 'any [any]'),
    'intersect': Spec('', 'pipe...'),
    'jobs': Spec(),
    'join': Spec('-k --keep', 'pipe'),
    'load': Spec('', 'any'),
    'ls': Spec('-0, -1, -r --recursive, -f --file, -d --dir, -s --symlink', 'str...', ['-0 -1 --recursive']),
    'map': Spec('', 'func'),
    'popd': Spec(),
    'ps': Spec('-u --user=any?, -g --group=any?, -p --pid=any, -c --command=any', '', ['--user --group --pid --command']),
    'pushd': Spec('', '[str]'),
    'pwd': Spec(),
    'read': Spec('-0, -1, -r --recursive, -c --csv, -t --tsv, -h --headings, -s --skip-headings, -p --pickle, -j --json, -l --label',
                 'str...', ['-0 -1 --recursive', '--csv --tsv --pickle --json', '--headings --skip-headings']),
    'red': Spec('-i --incremental', 'func...'),
    'reverse': Spec(),
    'run': Spec('', '[int]'),
    'select': Spec('', 'func'),
    'sort': Spec('', '[func]'),
    'sql': Spec('-d --db=any, -a --autocommit, -u --update-counts, -c --commit=int', 'any any...', ['--autocommit --commit']),
    'squish': Spec('', '[func]'),
    'store': Spec('-a --append', 'any'),
    'tail': Spec('', 'int'),
    'timer': Spec('', 'float'),
    'trace': Spec('-0 --off, -1 --on, -f --file=any', '', ['--off --on --file']),
    'union': Spec('', 'pipe...'),
    'unique': Spec('-c --consecutive', ''),
    'version': Spec(),
    'window': Spec('-o --overlap=int, -d --disjoint=int', '[func]', exactly=['--overlap --disjoint 0']),
    'write': Spec('-c --csv, -t --tsv, -p --pickle, -f --format=any, -a --append', '[str]', ['--csv --tsv --pickle --format']),
    'ws': Spec('-l --list, -n --new=any, -o --open=any, -c --close, -d --delete=any, -b --delete-broken, -h --home=any, -r --rename=any, '
               '-2 --copy=any, -e --export=any, -i --import=any', '[any]',
               ['--list --new --open --close --delete --delete-broken --home --rename --copy --export --import']),
}

# Values: source, and the kinds that it is a value of
VALUES = {
    '5': ('forkgen', 'int', 'float', 'str', 'any', 'word'),
    'abc': ('forkgen', 'str', 'any', 'word'),
    "'b c'": ('forkgen', 'str', 'any', 'word'),
    '(3)': ('forkgen', 'int', 'float', 'func', 'str', 'any', 'word'),
    # Evaluated when the command is run
    '(x: x)': ('int', 'float', 'str', 'word', 'forkgen', 'func', 'any'),
    '+': ('forkgen', 'func', 'str', 'any', 'word'),
    '(| gen 1 |)': ('pipe', 'any'),
    '2.5': ('forkgen', 'float', 'str', 'any', 'word'),
}
WORD = ('str', 'any', 'word', 'forkgen')
# Which value, of those given, shows that a kind is required
WRONG = {'int': 'abc', 'float': 'abc', 'func': 'abc', 'pipe': '5', 'str': '(| gen 1 |)', 'forkgen': '(| gen 1 |)', 'any': None, 'word': None}
RIGHT = {'int': ['5', '(3)'], 'float': ['5', '2.5'], 'func': ['(x: x)', '+'], 'pipe': ['(| gen 1 |)'], 'str': ['abc', "'b c'"],
         'forkgen': ['5', 'abc'], 'any': ['abc', "'b c'"], 'word': ['abc', "'b c'"]}


class Rejected(Exception):
    pass


def expand(spec, token):
    """-abc means -a -b -c"""
    if len(token) > 2 and token[0] == '-' and token[1] != '-' and all('-' + x in spec.spellings for x in token[1:]):
        return ['-' + x for x in token[1:]]
    return [token]


def oracle(spec, tokens):
    """The flags given, with their values, and the arguments; or Rejected"""
    flags, args, pending = {}, [], None
    todo = list(tokens)
    while todo:
        token = todo.pop(0)
        if spec.verbatim and args:
            args.append(token)
            continue
        parts = expand(spec, token)
        token, todo = parts[0], parts[1:] + todo
        name = spec.spellings.get(token)
        if name is not None or len(token) > 1 and token[0] == '-' and spec.flags and not args:
            if name is None:
                raise Rejected(f'unknown flag {token}')
            if args:
                raise Rejected(f'{token} after an argument')
            if name in flags:
                raise Rejected(f'{token} is given twice')
            if pending and not spec.kinds[pending].endswith('?'):
                raise Rejected(f'no value for {pending}')
            flags[name] = None
            pending = name if spec.kinds[name] else None
        elif pending:
            kind = spec.kinds[pending].rstrip('?')
            if kind not in VALUES.get(token, WORD):
                raise Rejected(f'{token} is not a {kind}')
            flags[pending] = token
            pending = None
        else:
            kind = spec.arg_kind(len(args))
            if kind is None:
                raise Rejected('too many arguments')
            if kind not in VALUES.get(token, WORD):
                raise Rejected(f'{token} is not a {kind}')
            args.append(token)
    if pending and not spec.kinds[pending].endswith('?'):
        raise Rejected(f'no value for {pending}')
    given = set(flags) | {str(i) for i in range(len(args))}
    for group in spec.at_most:
        if len(given & set(group)) > 1:
            raise Rejected(f'more than one of {group}')
    for group in spec.exactly:
        if len(given & set(group)) != 1:
            raise Rejected(f'not exactly one of {group}')
    if len(args) < len(spec.required):
        raise Rejected('missing argument')
    return flags, args


def canonical(spec, flags, args):
    out = []
    for f in spec.flags:
        if f in flags:
            out.append(f)
            if flags[f] is not None:
                out.append(flags[f])
    return out + args


# -- What an operator was given ------------------------------------------------------------------------------------

def state(x, depth=0):
    """The contents of an op, in terms of values"""
    import marcel.core
    import marcel.function
    import marcel.pipeline
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str):
        import marcel.util
        import marcel.stringliteral
        return marcel.util.string_value(x) if type(x) is marcel.stringliteral.StringLiteral else str(x)
    if isinstance(x, marcel.function.Function):
        return 'function', str(x)
    if isinstance(x, (list, tuple)):
        return [state(y, depth + 1) for y in x]
    if isinstance(x, marcel.core.Op) and depth < 12:
        return type(x).__name__, sorted((k, state(v, depth + 1)) for k, v in vars(x).items() if k not in ('owner', 'receiver'))
    if isinstance(x, (marcel.pipeline.PipelineExecutable, marcel.pipeline.Pipeline)):
        return 'pipeline', [state(op, depth + 1) for op in find_ops(x)]
    return type(x).__name__


def find_ops(x):
    """The ops of a pipeline, wherever it keeps them"""
    import marcel.core
    import marcel.pipeline
    if isinstance(x, marcel.core.Op):
        return [x]
    if isinstance(x, (list, tuple)):
        return [op for y in x for op in find_ops(y)]
    if isinstance(x, (marcel.pipeline.PipelineExecutable, marcel.pipeline.Pipeline)):
        return find_ops(list(vars(x).values()))
    return []


def given(s, op, tokens):
    import marcel.exception
    text = ' '.join([op] + tokens)
    try:
        with d.Capture():
            pipeline = parse(s, text)
    except marcel.exception.KillCommandException as e:
        raise Rejected(str(e))
    return repr(state(find_ops(pipeline)[0]))


def alphabet(op, letters):
    """Words that may follow the operator"""
    spec = SPECS[op]
    words = []
    kinds = [k.rstrip('?') for k in spec.kinds.values() if k] + spec.required + spec.optional + ([spec.rest] if spec.rest else [])
    words += list(spec.spellings)
    words += sorted({RIGHT[k][0] for k in kinds} | {WRONG[k] for k in kinds if WRONG[k]} | {'abc'})
    if spec.flags:
        words += ['--zz', '-Z']
    shorts = [x for x in spec.spellings if len(x) == 2]
    if letters:
        words += ['-' + a[1] + b[1] for a, b in itertools.permutations(shorts[:4], 2)][:8]
    return words


def line(c, op, n, letters=False):
    """Any n words"""
    s = session()
    spec = SPECS[op]
    words = alphabet(op, letters)
    tokens = [c.pick(f'word{i}', words) for i in range(n)]
    check_line(c, s, op, tokens)


def check_line(c, s, op, tokens):
    spec = SPECS[op]
    text = ' '.join([op] + tokens)
    try:
        expected = oracle(spec, tokens)
    except Rejected as e:
        expected, why = None, e
    try:
        actual = given(s, op, tokens)
    except Rejected as e:
        c.reach('rejected')
        c.check(expected is None, f'{text}: rejected: {e}')
        return
    c.reach('accepted')
    c.check(expected is not None, f'{text}: accepted, although: {why if expected is None else ""}')
    flags, args = expected
    same_as = canonical(spec, flags, args)
    c.check(actual == given(s, op, same_as), f'{text} does not mean the same as {op} {" ".join(same_as)}: {actual}')
    # Nothing is ignored
    for f in flags:
        fewer = canonical(spec, {k: v for k, v in flags.items() if k != f}, args)
        try:
            other = given(s, op, fewer)
        except Rejected:
            continue
        c.check(other != actual, f'{text} means the same as {op} {" ".join(fewer)}')
        for g in spec.flags:
            if g not in flags and spec.kinds[g] == spec.kinds[f]:
                changed = canonical(spec, {(g if k == f else k): v for k, v in flags.items()}, args)
                try:
                    other = given(s, op, changed)
                except Rejected:
                    continue
                c.check(other != actual, f'{text} means the same as {op} {" ".join(changed)}')
    if args:
        # A list that may be empty, or an argument that may be omitted
        fewer = canonical(spec, flags, args[:-1])
        try:
            other = given(s, op, fewer)
        except Rejected:
            return
        c.check(other != actual, f'{text} means the same as {op} {" ".join(fewer)}')


# -- Words of any characters -----------------------------------------------------------------------------------------

def word(c, op, n, long=False):
    """A word of any characters following the dash: accepted if it is a flag, or flags without values combined"""
    import symstr
    s = session()
    spec = SPECS[op]
    spellings = [x for x in spec.spellings if spec.kinds[spec.spellings[x]] is None]
    chars = sorted({ord(ch) for x in (spellings if long else spec.spellings) for ch in x.lstrip('-') if long or len(x) == 2} - {ord('-')} | {ord('Q'), ord('7')})
    if long:
        # Characters of a flag replaced by any others
        flag = c.pick('flag', [x for x in spellings if x.startswith('--')])
        i = c.pick('position', list(range(2, len(flag) - n + 1)))
        text = flag[:i] + c.string('w', n, tuple(chars)) + flag[i + n:]
    else:
        text = '-' + c.string('w', n, tuple(chars))
    tokens = [text] + [RIGHT[k][0] for k in spec.required]
    values = {name: RIGHT[kind][0] for name, kind in spec.kinds.items() if kind and not kind.endswith('?')}
    try:
        actual = given(s, op, tokens)
        c.reach('accepted')
    except Rejected as e:
        c.reach('rejected')
        actual = None
    text = symstr.concretize(text)
    tokens[0] = text
    try:
        flags, args = oracle(spec, tokens)
        c.check(actual is not None, f'{op} {" ".join(tokens)}: rejected')
    except Rejected as e:
        c.check(actual is None, f'{op} {" ".join(tokens)}: accepted, although: {e}')


def number(c, op, template, n):
    """An integer, written with any characters"""
    s = session()
    text = c.string('w', n, tuple(ord(x) for x in '0179a-+.'))
    if template.split()[0].startswith('-') or SPECS[op].flags:
        c.assume(not_(same(text[0], '-')))
    tokens = template.split()
    tokens = [text if x == '{}' else x for x in tokens]
    try:
        actual = given_values(s, op, tokens)
        c.reach('accepted')
    except Rejected as e:
        actual = None
    import symstr
    concrete = symstr.concretize(text)
    try:
        expected = int(concrete)
    except ValueError:
        expected = None
    shown = f'{op} {template.format(concrete)}'
    if expected is None:
        c.check(actual is None, f'{shown}: accepted')
    else:
        c.check(actual is not None, f'{shown}: rejected')
        c.check(any(type(x) is not bool and not isinstance(x, str) and bool(same(x, expected)) for x in actual),
                f'{shown}: the operator is given {actual}')


def given_values(s, op, tokens):
    import marcel.exception
    text = op
    for x in tokens:
        text = text + ' ' + x
    try:
        with d.Capture():
            pipeline = parse(s, text)
    except marcel.exception.KillCommandException as e:
        raise Rejected(str(e))
    return [x for k, x in vars(find_ops(pipeline)[0]).items() if not isinstance(x, (list, tuple)) and not k.startswith('_') and x is not None]


NUMBERS = [('gen', '{}'), ('gen', '1 {}'), ('gen', '-p {} 1'), ('gen', '--pad {} 1 2'), ('head', '{}'), ('tail', '{}'), ('expand', '{}'),
           ('window', '-o {}'), ('window', '--disjoint {}'), ('history', '{}'), ('run', '{}'), ('edit', '{}'), ('fg', '{}'), ('bg', '-j {}'),
           ('sql', '-c {} abc')]


@prop('P30', functions=['marcel.argsparser.ArgsParser', 'marcel.parser', 'marcel.opmodule', 'marcel.op.*ArgsParser'],
      bounds={'quick': 'all 46 operators with local effects: any 0..2 words (3 if the operator has few), out of its flags in each '
                       'spelling, combined flags, values of right and wrong kinds, and unknown flags; any 1..3 characters after - (2 if there are more than 7 flags), and '
                       'any character in place of one of a flag after --; numbers of any 1..3 characters out of 8',
              'thorough': 'any 0..3 words (4 if the operator has few)'},
      assumptions=['sudo, remote, upload, download: not included'], strings=True)
def p30(tier):
    q = tier == 'quick'
    cases = []
    for op, spec in SPECS.items():
        for n in range(6):
            if n and len(alphabet(op, n < 3)) ** n > (800 if q else 12000):
                break
            cases.append(case(f'{op}-{n}', line, op, n, n < 3))
        if spec.flags:
            for n in range(1, (4 if len(spec.flags) < 8 else 3) if q else 5):
                cases.append(case(f'{op}-letters-{n}', word, op, n, False))
            if any(x.startswith('--') and spec.kinds[spec.spellings[x]] is None for x in spec.spellings):
                cases.append(case(f'{op}-long', word, op, 1 if q else 2, True))
    for i, (op, template) in enumerate(NUMBERS):
        for n in range(1, 4):
            cases.append(case(f'number{i}-{op}-{n}', number, op, template, n))
    return cases
