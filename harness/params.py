"""Pipeline parameters and variables: binding of arguments, scopes."""
import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from vcore import case, prop
from streams import scalars, pairs, expect, cli, cli_source, bind

PARAMS = ['a', 'bb', 'c']


def binding_spec(params, args):
    """args: list of ('flag', name) and ('value', v). Returns tuple of values, or None if the call must be rejected."""
    bound, positional, i = {}, [], 0
    while i < len(args):
        kind, x = args[i]
        if kind == 'flag':
            if positional or i + 1 == len(args) or args[i + 1][0] == 'flag' or x not in params or x in bound:
                return None
            bound[x] = args[i + 1][1]
            i += 2
        else:
            positional.append(x)
            i += 1
    if len(positional) > len(params):
        return None
    for p, v in zip(params, positional):
        if p in bound:
            return None
        bound[p] = v
    return tuple(bound.get(p) for p in params)


def binding(c, k, m, form, few=False):
    """A pipeline with k parameters, given m arguments"""
    s = cli()
    params = PARAMS[:k]
    tokens, args = [], []
    values = scalars(c, m, name='v')
    bind('V', values)
    for i in range(m):
        # A value, a flag naming a parameter (with one or two dashes), or a flag naming nothing
        choice = c.pick(f'arg{i}', ['value'] + params + ([] if few else ['-' + p for p in params[:1]] + ['zz']))
        if choice == 'value':
            tokens.append(f'(V[{i}])')
            args.append(('value', values[i]))
        else:
            tokens.append(f'-{choice}')
            args.append(('flag', choice.lstrip('-')))
    expected = binding_spec(params, args)
    body = f'gen 1 | map (x: ({", ".join(params)},))'
    s.run(f'opF = (| {", ".join(params)}: {body} |)')
    call = f'opF {" ".join(tokens)}'
    text = {'first': call,
            'receiving': f'gen 1 | {call}',
            'nested': f'gen 1 | args (| q: {call} |)',
            'union': f'gen 1 | select (x: False) | union (| {call} |)'}[form]
    if form == 'receiving':
        s.run(f'opF = (| {", ".join(params)}: map (x: ({", ".join(params)},)) |)')
    try:
        out = s.gather(text, unwrap=False)
    except d.Killed as e:
        c.reach('rejected')
        c.check(expected is None, f'{text}: rejected: {e}')
        return
    c.check(expected is not None, f'{text}: accepted, output {out}')
    c.reach('accepted')
    expect(c, out, [expected], text)


def dangling(c):
    """Flag without a value at the end"""
    binding(c, 2, 1, 'first')


# -- Scopes --------------------------------------------------------------------------------------------------------

SCOPES = {
    # name: (definitions, command, expected)
    'param': (['opF = (| a: gen 1 | map (x: (a, b)) |)'], 'opF (V[0])', lambda a, b, V: [(V[0], b)]),
    'hide': (['opF = (| a: gen 1 | map (x: (a, b)) |)', 'opG = (| b: opF (b) |)'], 'opF (V[0]) | union (| opF (V[1]) |)',
             lambda a, b, V: [(V[0], b), (V[1], b)]),
    'lexical': ([], 'gen 1 | map (x: V[0]) | args (| a: gen 1 | map (x: V[1]) | args (| b: gen 1 | map (x: (a, b)) |) |)',
                lambda a, b, V: [(V[0], V[1])]),
    'shadow': ([], 'gen 1 | map (x: V[0]) | args (| a: gen 1 | map (x: V[1]) | args (| a: gen 1 | map (x: (a, b)) |) '
               '| map (x, y: (x, y, a)) |)', lambda a, b, V: [(V[1], b, V[0])]),
    'after inner': ([], 'gen 1 | map (x: V[0]) | args (| a: gen 2 | args (| a: gen 1 | map (x: a) |) | map (x: (x, a)) |)',
                    lambda a, b, V: [(0, V[0]), (1, V[0])]),
    'argument': (['opG = (| a: gen 1 | map (x: a) |)', 'opF = (| a: opG (a + W) | map (x: (x, a)) |)'], 'opF (V[0])',
                 lambda a, b, V: [(V[0] + V[2], V[0])]),
    'swap': (['opG = (| a, b: gen 1 | map (x: (a, b)) |)', 'opF = (| a, b: opG (b) (a) |)'], 'opF (V[0]) (V[1])',
             lambda a, b, V: [(V[1], V[0])]),
    'twice': (['opF = (| a: gen 1 | map (x: (a, b)) |)'], 'opF (V[0]) | union (| opF (V[1]) |) | union (| opF (a) |)',
              lambda a, b, V: [(V[0], b), (V[1], b), (a, b)]),
    'receiving': (['opF = (| a: map (*x: x + (a,)) |)'], 'gen 2 | opF (V[0]) | opF (V[1])',
                  lambda a, b, V: [(0, V[0], V[1]), (1, V[0], V[1])]),
    'downstream flush': (['opF = (| a: gen 2 | map (x: x + a) |)'],
                         'opF (V[0]) | sort (x: x * (1 if a > V[0] else -1)) | red (acc, x: a + x + (0 if acc is None else acc))',
                         lambda a, b, V: [(V[0] + V[0] + 1 + a + a,)]),
    'downstream args': (['opF = (| a: gen 1 | map (x: a) |)'],
                        'opF (V[0]) | args (| q: gen 1 | map (x: (q, a)) |) | map (x, y: (x, y, a))',
                        lambda a, b, V: [(V[0], a, a)]),
    'args downstream': ([], 'gen 3 | args (| a, b: gen 1 | map (x: a) |) | map (x: (x, b)) | sort (x, y: -x) '
                        '| map (x, y: (x, y, a))', lambda a, b, V: [(2, b, a), (0, b, a)]),
    'three levels': (['opF = (| a: gen 1 | map (x: a) |)', 'opG = (| b: opF (b + 1) | map (x: (x, a, b)) |)',
                      'opH = (| a: opG (a + 1) | map (*x: x + (a, b)) |)'],
                     'opH (V[0]) | map (*x: x + (a, b))',
                     lambda a, b, V: [(V[0] + 2, V[0], V[0] + 1, V[0], b, a, b)]),
    'receiving2': (['opF = (| a: map (*x: x + (a,)) |)'], 'gen 2 | opF (V[0]) | map (*x: x + (a,)) | opF (V[1])',
                   lambda a, b, V: [(0, V[0], a, V[1]), (1, V[0], a, V[1])]),
    'case': (['opF = (| a: case (x: x > 0) (| map (x: (x, a)) |) (| map (x: (a, x)) |) |)'], 'gen 2 | opF (V[0])',
             lambda a, b, V: [(V[0], 0), (1, V[0])]),
    'flush': (['opF = (| a: red (acc, x: a + x + (0 if acc is None else acc)) |)'],
              'gen 2 | map (x: x + V[1]) | opF (V[0])', lambda a, b, V: [(V[1] + V[1] + 1 + V[0] + V[0],)]),
    'tail': (['opF = (| a: tail 1 | map (*x: x + (a,)) |)'], 'gen 3 | opF (V[0]) | opF (V[1]) | map (*x: x + (a,))',
             lambda a, b, V: [(2, V[0], V[1], a)]),
    'sort': (['opF = (| a: sort (x: a - x) |)', 'opG = (| b: opF (b) | map (x: x + b) |)'], 'gen 2 | opG (V[0])',
             lambda a, b, V: [(1 + V[0],), (V[0],)]),
    'recursion': (['opR = (| n, r: (n) | case (n: n <= 0) (| map (n: r) |) (| args (| m: opR (m - 1) (r + W) |) |) |)'],
                  'opR (3) (V[0])', lambda a, b, V: [(V[0] + 3 * V[2],)]),
    'pipeline arg': (['opF = (| p, a: gen 1 | args (| x: p |) | map (x: (x, a)) |)'], 'opF (| gen 2 | map (x: x + V[0]) |) (V[1])',
                     lambda a, b, V: [(V[0], V[1]), (V[0] + 1, V[1])]),
    'other name': (['opF = (| zz: gen 1 | map (x: (a, zz)) |)'], 'opF (V[0])', lambda a, b, V: [(a, V[0])]),
    'none': (['opF = (| a, zz: gen 1 | map (x: (a, zz)) |)'], 'opF (V[0])', lambda a, b, V: [(V[0], None)]),
    'join': (['opF = (| a: gen 2 | map (i: (i, a)) |)'], 'opF (V[0]) | join (| opF (V[1]) |)',
             lambda a, b, V: [(0, V[0], V[1]), (1, V[0], V[1])]),
    'args args': (['opF = (| a, b: gen 1 | map (x: (a, b)) |)'],
                  'gen 3 | args (| b: opF (V[0]) (b) |)', lambda a, b, V: [(V[0], 0), (V[0], 1), (V[0], 2)]),
}
ENDINGS = {
    # How the execution ends. (definitions, command)
    'complete': None,
    'killed in setup': (['opK = (| a: gen 1 | head (boom(a)) |)'], 'opK (V[0])'),
    'killed, nested': (['opK = (| a: gen 1 | head (boom(a)) |)', 'opL = (| a: gen 2 | opK (a) |)'], 'opL (V[0])'),
    'error': (['opK = (| a: gen 1 | map (x: boom(a)) |)'], 'opK (V[0])'),
    'args killed': ([], 'gen 2 | args (| a: gen 1 | head (boom(a)) |)'),
    'bad call': (['opK = (| a: gen 1 |)'], 'opK (V[0]) (V[1])'),
    'args': ([], 'gen 3 | args (| a, b: gen 1 | map (x: boom(a)) |)'),
}


def scopes(c, name, defined):
    s = cli()
    ns = s.env.workspace.namespace
    a = b = None
    V = scalars(c, 3, name='v')
    bind('V', V)
    bind('W', V[2])

    def boom(x):
        raise ValueError('boom')
    bind('boom', boom)
    bind('GA', c.int('ga'))
    bind('GB', c.int('gb'))
    a, b = ns['GA'], ns['GB']
    s.run('a = (GA)')
    s.run('b = (GB)')
    for v in ('n', 'r', 'm', 'p', 'zz', 'q'):
        s.run(f'{v} = (GA + 1)')
    definitions, command, expected = SCOPES[name]
    for x in definitions:
        s.run(x)
    ending = c.pick('ending', sorted(ENDINGS))
    if ending == 'complete':
        expect(c, s.gather(command, unwrap=False), [x if type(x) is tuple else (x,) for x in expected(a, b, V)], command)
    else:
        defs, kill = ENDINGS[ending]
        for x in defs:
            s.run(x)
        try:
            s.gather(kill)
        except d.Killed:
            pass
        command = kill
        c.reach('abandoned')
    # Parameters are gone, variables they hid are back
    expect(c, s.gather('gen 1 | map (x: (a, b, n, r, m, p, zz, q))', unwrap=False),
           [(a, b) + (a + 1,) * 6], f'variables after {command}')
    s.run('a = (GB)')
    expect(c, s.gather('gen 1 | map (x: (a, b))', unwrap=False), [(b, b)], 'assignment following it')
    if ending == 'complete':
        # Once more, with the new value
        expect(c, s.gather(command, unwrap=False), [x if type(x) is tuple else (x,) for x in expected(b, b, V)], command)


@prop('P17', functions=['marcel.op.runpipeline', 'marcel.argsparser.PipelineArgsParser', 'marcel.pipeline.PipelineMarcel',
                        'marcel.nestednamespace', 'marcel.op.args', 'marcel.parser'],
      bounds={'quick': 'pipelines with 1..2 parameters and 0..3 arguments, 3 parameters and 0..2 arguments (values, flags, '
                       'unknown flags in any order), in 4 forms; 1..2 parameters and 4..5 arguments (values and flags); values are unbounded integers',
              'thorough': '1..3 parameters, 0..4 arguments'},
      assumptions=['argument values are integers (strings: P18)'])
def p17(tier):
    q = tier == 'quick'
    cases = []
    for k in (1, 2, 3):
        for m in range((4 if k < 3 else 3) if q else 5):
            for form in ('first', 'receiving', 'nested', 'union'):
                if form != 'first' and (m > 2 if q else m > 3):
                    continue
                cases.append(case(f'bind-{k}-{m}-{form}', binding, k, m, form,
                                  reach=(('accepted',) if m <= 2 * k else ()) + (('rejected',) if m else ())))
    if q:
        # Several flags
        for k in (1, 2):
            cases.append(case(f'bind-{k}-4-few', binding, k, 4, 'first', True, reach=['rejected'] + (['accepted'] if k == 2 else [])))
        cases.append(case(f'bind-2-5-few', binding, 2, 5, 'receiving', True, reach=['rejected']))
    for name in SCOPES:
        cases.append(case(f'scope-{name}'.replace(' ', '_'), scopes, name, True, reach=('abandoned',)))
    return cases
