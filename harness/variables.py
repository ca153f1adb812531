"""Variables: assignment, deletion, immutability, env"""
import marceldrv as d
from symex import same, conj, disj, not_, implies, ite, total, b2i
from vcore import case, prop
from streams import scalars, expect, cli, cli_source, bind

VARS = ['va', 'vb']

# Variables defined by marcel, and an expression showing the value
IMMUTABLE = {'HOME': 'HOME', 'PWD': 'PWD', 'USER': 'USER', 'HOST': 'HOST', 'MARCEL_VERSION': 'MARCEL_VERSION',
             'PROMPT': 'PROMPT', 'DIRS': 'DIRS', 'BOLD': 'BOLD', 'ITALIC': 'ITALIC', 'Color': 'Color',
             'COLOR_SCHEME': 'type(COLOR_SCHEME).__name__', 'pos': 'callable(pos)'}


class Kind(object):

    def __init__(self, assignment, use, expected):
        self.assignment = assignment    # var, i -> command
        self.use = use                  # var -> command
        self.expected = expected        # vs, i -> what use outputs


def assignment(text):
    return lambda var, i: text.replace('VAR', var).replace('II', str(i))


KINDS = {
    'int': Kind(assignment('VAR = (V[II])'), '(VAR)', lambda v, i: [v[i]]),
    'list': Kind(assignment('VAR = ([V[II], None])'), '(VAR)', lambda v, i: [[v[i], None]]),
    'string': Kind(assignment('VAR = sII'), '(VAR)', lambda v, i: [f's{i}']),
    'none': Kind(assignment('VAR = (None)'), '(VAR)', lambda v, i: [None]),
    'function': Kind(assignment('VAR = (lambda x: (x, V[II]))'), 'gen 1 | map (i: VAR(i))', lambda v, i: [(0, v[i])]),
    'pipeline': Kind(assignment('VAR = (| p: map (x: (x, p, V[II])) |)'), 'gen 1 | VAR 5', lambda v, i: [(0, '5', v[i])]),
    'module': Kind(assignment('import -a VAR math'), '(VAR.sqrt(4))', lambda v, i: [2.0]),
    'symbol': Kind(assignment('import math sqrt -a VAR'.replace('math sqrt -a VAR', '-a VAR math sqrt')), '(VAR(9))', lambda v, i: [3.0]),
    'stored': Kind(assignment('gen 2 | map (x: V[x + II]) >$ VAR'), 'VAR <$', lambda v, i: v[i:i + 2]),
}

# Commands trying to assign, which fail
FAILING = {
    'exception': assignment('VAR = (1 // (II - II))'),
    'syntax': assignment('VAR = (1 +)'),
    'undefined': assignment('VAR = (no_such_variable)'),
    'nomodule': assignment('import -a VAR no_such_module'),
    'nosymbol': assignment('import -a VAR math no_such_symbol'),
}

ACTIONS = list(KINDS) + ['delete', 'fail', 'shadow', 'immutable', 'change', 'copy']


def fresh():
    s = cli()
    for var in VARS:
        s.run(f'env -d {var}')
    return s


def names(s):
    return [var for var, value in s.gather('env')]


def history(c, n, first, kinds, others):
    """Assignments and deletions of two variables. After each command, the variables have the values last assigned."""
    s = fresh()
    vs = c.ints('v', n + 2)
    bind('V', vs)
    base = names(s)
    # var -> (kind, i), pipelines and functions keep what they refer to
    model = {}
    log = []
    immutables = list(IMMUTABLE)
    actions = kinds + others

    def observe():
        now = names(s)
        c.check(now == sorted(base + list(model)), f'{log}: variables are {sorted(set(now) ^ set(base))}')
        for var in VARS:
            if var in model:
                kind, i = model[var]
                use = KINDS[kind].use.replace('VAR', var)
                try:
                    out = s.gather(use)
                except d.Killed as e:
                    c.fail(f'{log}: {use} failed: {e}')
                expected = KINDS[kind].expected(vs, i)
                c.check(len(out) == len(expected) and same(out, expected), f'{log}: {use}: {out}, expected {expected}')
                c.reach(kind)
                out, err = s.run(f'env {var}')
                c.check(err == '' and var in out, f'{log}: env {var}: {err}')
            else:
                out, err = s.run(f'env {var}')
                c.check(out == '' and err != '', f'{log}: env {var}: {out}')

    def value():
        """The variables as seen by env"""
        return {var: x for var, x in s.gather('env')}

    try:
        for i in range(n):
            action = first if i == 0 else c.pick(f'action{i}', actions)
            var = c.pick(f'var{i}', VARS) if i > 0 else VARS[0]
            if action in KINDS:
                text = KINDS[action].assignment(var, i)
                log.append(text)
                out, err = s.run(text)
                c.check(out == '' and err == '', f'{log} failed: {out}{err}')
                model[var] = (action, i)
            elif action == 'delete':
                text = f'env -d {var}'
                log.append(text)
                out, err = s.run(text)
                c.check(err == '' and (out != '') == (var in model), f'{log}: {out}{err}')
                model.pop(var, None)
            elif action == 'fail':
                text = FAILING[c.pick(f'failure{i}', list(FAILING)[:5 if i == 0 else 2])](var, i)
                log.append(text)
                before = value()
                out, err = s.run(text)
                c.check(out + err != '', f'{log}: no error')
                after = value()
                c.check(set(before) == set(after) and all(before[k] is after[k] for k in before),
                        f'{log}: failed, but variables were modified')
            elif action == 'shadow':
                # A parameter with the same name hides the variable
                log.append('shadow')
                s.run(f'opS = (| {var}: gen 1 | map (x: {var}) |)')
                out = s.gather(f'opS {i}{i}')
                c.check(out == [f'{i}{i}'], f'{log}: parameter {var} has value {out}')
                s.run('env -d opS')
            elif action == 'change':
                # The value itself is changed, not the variable
                if var not in model or model[var][0] != 'list':
                    continue
                log.append('change')
                s.gather(f'({var}.append(1))')
                out = s.gather(f'({var}.pop())')
                c.check(out == [1], f'{log}: {out}')
            elif action == 'copy':
                other = VARS[1 - VARS.index(var)]
                if other not in model or model[other][0] in ('stored', 'pipeline', 'module', 'symbol'):
                    continue
                text = f'{var} = ({other})'
                log.append(text)
                out, err = s.run(text)
                c.check(out == '' and err == '', f'{log} failed: {out}{err}')
                model[var] = model[other]
            elif action == 'immutable':
                name = c.pick(f'immutable{i}', immutables if n == 1 else immutables[:2])
                way = c.pick(f'way{i}', ['int', 'string', 'function', 'pipeline', 'module', 'symbol', 'stored', 'delete', 'append'][:9 if n == 1 else 2])
                text = (f'env -d {name}' if way == 'delete' else f'gen 1 >>$ {name}' if way == 'append' else
                        KINDS[way].assignment(name, i))
                log.append(text)
                before = value()
                shown = s.gather(f'({IMMUTABLE[name]})')
                out, err = s.run(text)
                c.check(out == '' and err != '', f'{log}: immutable variable modified without an error: {out}')
                after = value()
                c.check(set(before) == set(after) and all(before[k] is after[k] for k in before),
                        f'{log}: immutable, but was modified')
                c.check(s.gather(f'({IMMUTABLE[name]})') == shown, f'{log}: immutable, but modified')
                c.reach('immutable')
            observe()
    finally:
        fresh()


PATTERN_VARS = ['vx', 'vxy', 'wyx', 'Vx', 'v_x', 'xx', 'y']


def patterns(c, n):
    """env -p PATTERN"""
    s = cli()
    for var in PATTERN_VARS:
        s.run(f'{var} = abc')
    pattern = c.string('p', n, tuple(ord(ch) for ch in 'vVxyw_z'))
    def contains(var):
        return disj([same(var[i:i + n], pattern) for i in range(len(var) - n + 1)])
    expected = [var for var in PATTERN_VARS if contains(var)]
    out = s.gather(f'env -p {pattern}')
    out = [(var, value) for var, value in out if var in PATTERN_VARS]
    for var in PATTERN_VARS:
        s.run(f'env -d {var}')
    c.check(out == [(var, 'abc') for var in sorted(expected)], f'env -p {pattern}: {out}, expected {expected}')
    c.reach('some' if expected else 'none')


MEMBERS = ['a', 'a_', 'A', '_a', '__a', '_', '__a__', 'aa']


def imports(c, form, k):
    """import of a module having any k of some names"""
    import sys
    import types
    s = cli()
    vs = c.ints('v', k)
    w = c.ints('w', 1)
    bind('W', w)
    members = {c.pick(f'member{i}', MEMBERS): vs[i] for i in range(k)}
    module = types.ModuleType('verif_module')
    module.__dict__.update(members)
    sys.modules['verif_module'] = module
    old = c.pick('old', ('', 'a', '_a', '_'))
    observed = MEMBERS + ['verif_module', 'other']
    try:
        for name in observed:
            s.run(f'env -d {name}')
        base = names(s)
        model = {}
        if old:
            s.run(f'{old} = (W[0])')
            model[old] = w[0]
        symbol = c.pick('symbol', ('a', '_a', 'a_')) if 'SYM' in form else None
        text = form.replace('SYM', symbol or '')
        failed = False
        if form == 'import verif_module':
            model['verif_module'] = module
        elif form == 'import -a other verif_module':
            model['other'] = module
        elif symbol is not None and symbol not in members or form in ('import -a other verif_module *', 'import verif_module a.a', 'import -a 1a verif_module', 'import verif_module a a'):
            failed = True
        elif symbol is not None:
            model['other' if '-a' in form else symbol] = members[symbol]
        else:
            model.update({name: x for name, x in members.items() if name[0] != '_'})
        out, err = s.run(text)
        c.check((out + err != '') == failed, f'{list(members)}: {text}: {out}{err}')
        now = names(s)
        c.check(now == sorted(base + list(model)), f'{list(members)}, {old}: {text}: variables modified: {set(now) ^ set(base + list(model))}')
        for name, x in model.items():
            out = s.gather(f'({name})' if x is not module else f'({name}.__name__)')
            c.check(len(out) == 1 and same(out[0], x if x is not module else 'verif_module'), f'{list(members)}, {old}: {text}: {name} is {out}')
        c.reach('failed' if failed else 'imported')
    finally:
        for name in observed:
            s.run(f'env -d {name}')
        del sys.modules['verif_module']


IMPORTS = {'import verif_module': ['imported'], 'import -a other verif_module': ['imported'], 'import verif_module *': ['imported'], 'import verif_module SYM': ['imported', 'failed'],
           'import -a other verif_module SYM': ['imported', 'failed'], 'import -a other verif_module *': ['failed'], 'import verif_module a.a': ['failed'],
           'import -a 1a verif_module': ['failed'], 'import verif_module a a': ['failed']}


@prop('P22', ['Assign', 'Env', 'Import', 'Store', 'VarHandler.setvar', 'VarHandler.delvar', 'VarHandler.check_mutability',
              'NestedNamespace', 'Scope'],
      {'quick': 'histories of 2 commands (9 kinds of assignment, deletion, 5 failing assignments, parameters hiding variables, '
                'assigning one of 12 immutable variables in 9 ways) on two variables, of 3 commands with 3 kinds; values are '
                'unbounded integers within; env -p with patterns of 1..2 of 7 characters; '
                'import, in 9 forms, of a module having any 1 or 2 of 8 names, next to any of 4 variables',
       'thorough': 'histories of 3 commands, of 4 with 3 kinds; patterns of 1..3 characters'},
      ['Script usage (commands run in the main process)'], strings=True)
def p22(tier):
    q = tier == 'quick'
    cases = []
    n = 2 if q else 3
    few = ['int', 'stored', 'pipeline']
    others = ['delete', 'fail', 'shadow', 'immutable', 'change', 'copy']
    for k in ACTIONS:
        if k not in ('change', 'copy'):
            cases.append(case(f'history-{k}', history, n, k, list(KINDS), others))
    for k in few:
        cases.append(case(f'history-more-{k}', history, n + 1, k, few, ['delete', 'copy'], reach=[k]))
    cases.append(case('immutable', history, 1, 'immutable', [], others, reach=['immutable']))
    for i, (form, reach) in enumerate(IMPORTS.items()):
        cases.append(case(f'import-{i}', imports, form, (2 if q else 3) if form.endswith('verif_module *') else 1, reach=reach))
    for i in range(1, 3 if q else 4):
        cases.append(case(f'pattern-{i}', patterns, i, reach=['some', 'none']))
    return cases
