"""The directory stack"""
import os
import pathlib
import shutil

import marceldrv as d
from symex import same
from vcore import case, prop
from streams import cli

# A scratch tree. @ is its root.
TREE = ['home/h', 'a/b/c', 'd', 'e f']
LINKS = [('to_b', 'a/b'), ('a/up', '..')]
TARGETS = ['a', 'b', 'c', '..', '.', '../..', '~', '~/h', '@', '@/d', '@/to_b', '@/a/b/c', '@/a/up', 'to_b', "'e f'", 'e\\ f', '@/a*', '@/*b', '@/?', '@/f*', '@/nothing', 'file', '@/file', '@/a/b/.././/../d/', '/']
COMMANDS = ['cd', 'pushd', 'popd', 'dirs', 'dirs -c', 'pwd']


class Model(object):
    def __init__(self, base):
        self.base = base
        self.home = base + '/home'
        self.stack = [base]   # Last: top

    def resolve(self, target):
        """The directory denoted, or None"""
        t = target.replace('@', self.base).replace('\\', '').strip("'")
        if '*' in t:
            import fnmatch
            parent, pattern = t.rsplit('/', 1)
            found = [x for x in os.listdir(parent) if fnmatch.fnmatchcase(x, pattern)]
            if len(found) != 1:
                return None
            t = parent + '/' + found[0]
        if t == '~' or t.startswith('~/'):
            t = self.home + t[1:]
        t = os.path.realpath(os.path.normpath(os.path.join(self.stack[-1], os.path.normpath(t))))
        return t if os.path.isdir(t) else None

    def run(self, op, target, denied):
        """The output, or None if the command must be rejected"""
        stack = list(self.stack)
        if op in ('cd', 'pushd'):
            if target is None and op == 'pushd':
                stack[-2:] = reversed(stack[-2:])
            else:
                to = self.home if target is None else self.resolve(target)
                if to is None:
                    return None
                if op == 'cd':
                    stack[-1] = to
                else:
                    stack.append(to)
        elif op == 'popd':
            if len(stack) > 1:
                stack.pop()
        elif op == 'dirs -c':
            stack = stack[-1:]
        if stack[-1] == denied and op in ('cd', 'pushd', 'popd'):
            # The current directory could be changed already
            return None if stack != self.stack else self.show(op)
        self.stack = stack
        return self.show(op)

    def show(self, op):
        if op == 'cd':
            return []
        if op == 'pwd':
            return self.stack[-1:]
        return self.stack[::-1]


def build(c):
    base = os.path.join(os.path.realpath(d.scratch_dir()), 'dirs')
    os.chdir('/')
    shutil.rmtree(base, ignore_errors=True)
    for x in TREE:
        os.makedirs(f'{base}/{x}')
    for x, y in LINKS:
        os.symlink(y, f'{base}/{x}')
    open(f'{base}/file', 'w').close()
    return base


def moves_of(targets, removals, fault):
    return ([(op, t) for op in ('cd', 'pushd') for t in targets] + [(op, None) for op in COMMANDS] +
            [('rmdir', x) for x in removals] + [('deny', x) for x in fault])


def history(c, steps, targets, removals, fault, first):
    s = cli()
    base = build(c)
    saved_home = os.environ['HOME']
    os.environ['HOME'] = base + '/home'
    saved_chdir = os.chdir
    denied = []

    def chdir(path):
        if denied and os.path.realpath(path) == denied[0]:
            raise PermissionError(13, 'Permission denied', str(path))
        return saved_chdir(path)
    try:
        os.chdir(base)
        s.env.assign_permanent('PWD', base)
        s.env.assign_permanent('DIRS', [base])
        m = Model(base)
        os.chdir = chdir
        if removals or fault:
            for x in ('d', 'a/b', ''):
                s.gather(f'pushd {base}/{x}')
                m.run('pushd', '@/' + x, None)
        moves = moves_of(targets, removals, fault)
        log = []
        for i in range(steps):
            op, target = c.pick(f'step{i}', moves if i else [moves[first]])
            log.append((op, target))
            if op == 'rmdir':
                path = f'{base}/{target}'
                if m.stack[-1] == path or m.stack[-1].startswith(path + '/') or not os.path.isdir(path):
                    continue
                shutil.rmtree(path)
                m.stack = [x for x in m.stack if x != path and not x.startswith(path + '/')]
                continue
            if op == 'deny':
                # Whether the current directory can be changed to itself does not matter
                if m.stack[-1] != f'{base}/{target}':
                    denied[:] = [f'{base}/{target}']
                continue
            text = op if target is None else f'{op} {target.replace("@", base)}'
            expected = m.run(op, target, denied[0] if denied else None)
            try:
                out = s.gather(text, unwrap=False)
                import marcel.object.file
                assert all(type(x[0]) is marcel.object.file.File for x in out), out
                out = [str(x[0].path) for x in out]
            except d.Killed as e:
                out = None
            c.check(out == expected, f'{log}: output {out}, expected {expected}')
            if out is not None:
                c.reach(op)
            c.check(os.getcwd() == m.stack[-1], f'{log}: in {os.getcwd()} instead of {m.stack[-1]}')
            c.check(s.gather('(PWD)') == [m.stack[-1]], f'{log}: PWD')
            c.check(s.gather('dirs | (f: str(f.path))') == m.stack[::-1], f'{log}: dirs')
            c.check(s.gather('pwd | (f: str(f.path))') == m.stack[-1:], f'{log}: pwd')
            value = s.gather('((0, DIRS))')
            c.check(value == [(0, m.stack)], f'{log}: DIRS = {value}')
    finally:
        os.chdir = saved_chdir
        os.environ['HOME'] = saved_home
        os.chdir('/')


@prop('P27', ['Cd', 'Pushd', 'Popd', 'Dirs', 'Pwd', 'DirectoryState', 'Filenames.normalize'],
      {'quick': 'all histories of 2 commands with 25 forms of the operand, and of 3 with 4, in a tree of 9 directories, 2 links and a file; directories removed, and refused, at any point, starting with a stack of 4',
       'thorough': 'histories of 3 with 25 operands, and of 4 with 4'},
      ['The current directory itself is not removed', '.. is resolved before symbolic links, as documented in filenames.py'])
def p27(tier):
    q = tier == 'quick'
    few = ['a', '..', '@/d', '@/to_b']
    cases = []
    for name, steps, targets, removals, fault in (('targets', 2 if q else 3, TARGETS, [], []),
                                                  ('deep', 3 if q else 4, few, [], []),
                                                  ('removed', 3 if q else 4, ['@/d', '@/a/b'], ['d', 'a'], []),
                                                  ('refused', 3 if q else 4, ['@/d', '@/a/b'], [], ['d', 'a/b'])):
        for i, (op, target) in enumerate(moves_of(targets, removals, fault)):
            cases.append(case(f'{name}-{i}', history, steps, targets, removals, fault, i, reach=COMMANDS))
    return cases
