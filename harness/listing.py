"""ls"""
import fnmatch
import os
import pathlib
import pickle
import shlex
import shutil
import socket
import stat

import marceldrv as d
from symex import same
from vcore import case, prop
from streams import cli

KINDS = ['absent', 'file', 'empty', 'dir', 'deep', 'link_file', 'link_dir', 'link_up', 'broken', 'fifo']
DEPTHS = {'': 1, '-0': 0, '-1': 1, '-r': 99, '--recursive': 99}
TYPES = {'f': 'file', 'd': 'dir', 's': 'symlink'}


def build(where, name, kind):
    path = f'{where}/{name}'
    if kind == 'file':
        open(path, 'w').close()
    elif kind in ('empty', 'dir', 'deep'):
        os.mkdir(path)
        if kind != 'empty':
            open(path + '/x', 'w').close()
            open(path + '/.h', 'w').close()
        if kind == 'deep':
            os.makedirs(path + '/w/v')
            open(path + '/w/u', 'w').close()
    elif kind == 'link_file':
        os.symlink('../target/t', path)
    elif kind == 'link_dir':
        os.symlink('../target', path)
    elif kind == 'link_up':
        os.symlink('..', path)
    elif kind == 'broken':
        os.symlink('nothing', path)
    elif kind == 'fifo':
        os.mkfifo(path)


def tree(c, slots, kinds, name='cwd'):
    base = os.path.join(os.path.realpath(d.scratch_dir()), 'ls')
    os.chdir('/')
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(f'{base}/{name}')
    os.makedirs(f'{base}/target/sub')
    for x in ('target/t', 'target/sub/s'):
        open(f'{base}/{x}', 'w').close()
    for slot in slots:
        build(f'{base}/{name}', slot, c.pick(slot, kinds))
    return base


def enter(s, path):
    os.chdir(path)
    s.env.assign_permanent('PWD', path)
    s.env.assign_permanent('DIRS', [path])


def is_kind(path, kinds):
    mode = os.lstat(path).st_mode
    return ('f' in kinds and stat.S_ISREG(mode)) or ('d' in kinds and stat.S_ISDIR(mode)) or ('s' in kinds and stat.S_ISLNK(mode))


def parts(path):
    return pathlib.Path(path).parts


def roots_of(cwd, args):
    roots = []
    for arg in args:
        arg = arg.replace('~', os.environ['HOME'])
        if any(ch in arg for ch in '*?['):
            parent, pattern = os.path.split(os.path.normpath(os.path.join(cwd, arg)))
            if '*' in parent:
                parents = [x for x in roots_of(cwd, [parent]) if os.path.isdir(x)]
            else:
                parents = [parent] if os.path.isdir(parent) else []
            found = [os.path.join(p, x) for p in parents for x in os.listdir(p) if fnmatch.fnmatchcase(x, pattern)]
        else:
            path = os.path.normpath(os.path.join(cwd, arg))
            found = [path] if os.path.lexists(path) else []
        roots += [x for x in found if x not in roots]
    return roots


def listing(c, slots, kinds, depth, args, cwd_name='cwd', kind_flags=True):
    s = cli()
    base = tree(c, slots, kinds, cwd_name)
    cwd = f'{base}/{cwd_name}'
    saved_home = os.environ['HOME']
    os.environ['HOME'] = f'{base}/target'
    try:
        enter(s, cwd)
        chosen = ''.join(x for x in 'fds' if c.flag(f'flag_{x}')) if kind_flags else ''
        flags = ' '.join(('-' if slots[0] == 'p' else '--') + (x if slots[0] == 'p' else TYPES[x]) for x in chosen)
        text = f'ls {depth} {flags} {" ".join(a.replace("@", base) for a in args)}'
        roots = roots_of(cwd, [a.replace('@', base).replace("'", '').replace('\\', '') for a in args])
        try:
            out = s.gather(text, unwrap=False)
        except d.Killed as e:
            c.check(args and not roots, f'{text}: rejected: {e}')
            c.reach('rejected')
            return
        c.check(roots or not args, f'{text}: not rejected: {out}')
        import marcel.object.file
        c.check(all(len(x) == 1 and type(x[0]) is marcel.object.file.File for x in out), f'{text}: {out}')
        got = [str(x[0].path) for x in out]
        c.check(len(set(got)) == len(got), f'{text}: repeated in {got}')
        if not args:
            roots = [cwd]
        types = chosen or 'fds'
        level = DEPTHS[depth]
        # Directories that are links are searched too, unless already visited: which depends on the order
        must, may = [], set()
        expected(sorted(roots, key=parts), level, must, may)
        required = [x for x in must if is_kind(x, types)]
        missing = [x for x in required if x not in got]
        c.check(not missing, f'{text}: {missing} missing in {got}')
        extra = [x for x in got if x not in must and (x not in may or not is_kind(x, types))]
        c.check(not extra, f'{text}: {extra} not expected in {got}')
        wrong = [x for x in got if not is_kind(x, types)]
        c.check(not wrong, f'{text}: {wrong}')
        # Names are displayed relative to the deepest directory that contains all of the arguments, or is the only one
        common = os.path.commonpath(roots)
        if not os.path.isdir(common):
            common = os.path.dirname(common)
        for x, path in zip(out, got):
            name = os.path.relpath(path, common)
            c.check(shlex.split(str(x[0])) == [name], f'{text}: {path} is displayed as {x[0]}, expected {name}')
            full = x[0].render_full(None)
            c.check(full.split('  ->  ')[0].endswith('  ' + name), f'{text}: {path} is displayed as {full}, expected {name}')
        order = [x for x in got if x in must]
        c.check(order == required, f'{text}: {order} instead of {required}')
        c.reach('listed')
    finally:
        os.environ['HOME'] = saved_home
        os.chdir('/')


def expected(roots, depth, must, may):
    """must: in order, without passing links at levels below that of the roots. may: through links too."""
    def visit(path, level, through):
        if through:
            may.add(path)
        elif path not in must:
            must.append(path)
        if level < depth and os.path.isdir(path):
            # Links among the roots are followed
            link = os.path.islink(path)
            if link and len(seen) > 6:
                return
            if link:
                seen.append(path)
            for x in sorted(os.listdir(path)):
                visit(path + '/' + x, level + 1, through or (link and level > 0) or (link and len(roots) > 1))
            if link:
                seen.pop()
    seen = []
    for root in roots:
        visit(root, 0, False)


def order(c, n, alphabet):
    """Sorted, whatever the characters"""
    s = cli()
    base = tree(c, [], [])
    names = [c.string(f'n{i}', k, alphabet) for i, k in enumerate(n)]
    for i in range(len(names)):
        for j in range(i):
            c.assume(not same(names[i], names[j]))
        c.assume(not same(names[i], '.'))
        c.assume(not same(names[i], '..'))
    for x in names:
        open(f'{base}/cwd/{x}', 'w').close()
    enter(s, f'{base}/cwd')
    out = [str(x.path) for x in s.gather('ls')]
    c.check(same(out, [f'{base}/cwd'] + [f'{base}/cwd/' + x for x in sorted(os.listdir('.'))]), f'{out}')
    c.reach('listed')
    os.chdir('/')


def faults(c, depth, n_faults):
    """What cannot be read yields one Error, and everything else is listed"""
    s = cli()
    base = tree(c, [], [])
    for x in ('a', 'b'):
        build(f'{base}/cwd', x, 'deep')
    open(f'{base}/cwd/c', 'w').close()
    enter(s, f'{base}/cwd')
    everything = [str(x.path) for x in s.gather(f'ls {depth}')]
    relative = [x[len(base) + 5:] for x in everything[1:]]
    faulty = []
    for i in range(n_faults):
        x = c.pick(f'fault{i}', relative)
        if x not in [y for y, _ in faulty]:
            faulty.append((x, c.pick(f'how{i}', ['search', 'stat', 'vanished'])))
    how = {f'{base}/cwd/{x}': y for x, y in faulty}
    saved = pathlib.Path.iterdir, pathlib.Path.lstat, os.listdir, os.scandir, os.lstat, pathlib.Path.is_dir

    def check(path, searching):
        kind = how.get(str(path))
        if kind == 'search' and searching:
            raise PermissionError(13, 'Permission denied', str(path))
        if kind == 'stat' and not searching:
            raise PermissionError(13, 'Permission denied', str(path))
        if kind == 'vanished':
            raise FileNotFoundError(2, 'No such file or directory', str(path))

    def iterdir(self):
        check(self, True)
        return saved[0](self)

    def lstat(self):
        check(self, False)
        return saved[1](self)

    def is_dir(self, **kw):
        if how.get(str(self)) == 'vanished':
            return False
        if how.get(str(self)) == 'stat':
            check(self, False)
        return saved[5](self, **kw)
    pathlib.Path.iterdir, pathlib.Path.lstat, pathlib.Path.is_dir = iterdir, lstat, is_dir
    try:
        out = s.gather(f'ls {depth}', errors=None)
    finally:
        pathlib.Path.iterdir, pathlib.Path.lstat, pathlib.Path.is_dir = saved[0], saved[1], saved[5]
        os.chdir('/')
    got = [str(x.path) for x in out if not d.is_error(x)]
    errors = [x for x in out if d.is_error(x)]
    expected = []
    n_errors = 0
    hidden = []
    for x in everything:
        if any(x.startswith(y + '/') for y in hidden):
            continue
        kind = how.get(x)
        if kind in ('stat', 'vanished'):
            hidden.append(x)
            n_errors += kind == 'stat'
            continue
        if kind == 'search' and os.path.isdir(x) and (depth == '-r' or x == everything[0]):
            hidden.append(x)
            n_errors += 1
        expected.append(x)
    c.check(got == expected, f'{faulty}: {got} instead of {expected}')
    # What has vanished may be reported, or not
    vanished = sum(y == 'vanished' for y in how.values())
    c.check(n_errors <= len(errors) <= n_errors + vanished, f'{faulty}: {errors}')
    c.reach('fault')


def rendering(c, kind, triple):
    """The metadata shown, and what survives transmission, are those of the file"""
    s = cli()
    base = tree(c, [], [])
    path = f'{base}/cwd/p'
    if kind == 'socket':
        sock = socket.socket(socket.AF_UNIX)
        os.chdir(f'{base}/cwd')
        sock.bind('p')
        sock.close()
        os.chdir('/')
    else:
        build(f'{base}/cwd', 'p', kind)
    size = 0
    if kind == 'file':
        size = c.pick('size', [0, 1, 999999, 1000000])
        os.truncate(path, size)
    bits = c.pick('bits', list(range(8)))
    if not os.path.islink(path):
        os.chmod(path, 0o700 if triple < 0 else bits << (3 * triple))
        os.utime(path, (10 ** 9, c.pick('mtime', [0, 10 ** 9])))
    st = os.lstat(path)
    f = s.gather(f'ls -0 {path}')[0] if kind not in ('fifo', 'socket') else None
    import marcel.object.file
    if f is None:
        f = marcel.object.file.File(path)
        c.check(s.gather(f'ls -0 {path}') == [], 'ls only lists files, directories and links')
    letter = {'file': '-', 'empty': 'd', 'broken': 'l', 'link_dir': 'l'}.get(kind, '-')
    mode = letter + ''.join(ch if st.st_mode & (0o400 >> i) else '-' for i, ch in enumerate('rwxrwxrwx'))
    fields = f.render_full(None).split('  ')
    c.check(fields[0] == mode, f'{fields[0]} instead of {mode}')
    import pwd
    import grp
    import time
    text = f.render_full(None)
    words = text[len(mode):].split()
    c.check(words[:2] == [pwd.getpwuid(st.st_uid).pw_name, grp.getgrgid(st.st_gid).gr_name], text)
    c.check(words[2] == str(st.st_size), text)
    c.check(' '.join(words[3:7]) == time.strftime('%Y %b %d %H:%M:%S', time.localtime(st.st_mtime)), text)
    if os.path.islink(path):
        c.check(words[-2:] == ['->', os.readlink(path)], text)
    if kind not in ('fifo', 'socket'):
        attributes = dict(mode='st_mode', inode='st_ino', device='st_dev', links='st_nlink', uid='st_uid', gid='st_gid', size='st_size', atime='st_atime', mtime='st_mtime', ctime='st_ctime')
        pickled = pickle.dumps(f)
        moved = f'{base}/elsewhere'
        os.rename(path, moved)
        g = pickle.loads(pickled)
        for x in (f, g):
            for name, field in attributes.items():
                c.check(int(getattr(x, name)) == int(getattr(st, field)), f'{name}: {getattr(x, name)} instead of {getattr(st, field)}')
        c.check(g == f and hash(g) == hash(f) and str(g.path) == path and not g != f and not g < f and g <= f, 'the same file')
        c.check(g.render_compact() == f.render_compact() and (kind in ('link_dir', 'broken') or g.render_full(None) == f.render_full(None)), 'rendered the same')
    c.reach('rendered')


@prop('P28', ['Ls', 'FilenamesOp', 'Filenames.normalize', 'File'],
      {'quick': 'directories of 2 entries of 10 kinds (file, directory, link, ...); 5 depth options, 8 combinations of -f -d -s, 16 combinations of arguments; names of 2 characters of 13; one of any file or directory unreadable or vanishing; permissions, sizes',
       'thorough': '3 entries; 2 faults; names of 3 characters'},
      ['Links to directories are searched unless visited before; what is reachable only through them may be listed or not'], strings=True)
def p28(tier):
    q = tier == 'quick'
    cases = []
    slots = ['p', 'q'] if q else ['p', 'q', 'r']
    arguments = [[], ['p'], ['p', 'q'], ['q', 'p', 'p'], ['*'], ['p*', '?'], ['p/*'], ['.'], ['p', '.'], ['@/cwd/p', 'p'], ['..'], ['../cwd/p', 'q'], ['~/t', 'p'], ['none*', 'nothing'], ['[p-q]'], ["'p'", '\\q']]
    for i, args in enumerate(arguments):
        for depth in DEPTHS:
            if depth in ('-1', '--recursive') and args != []:
                continue
            cases.append(case(f'list{depth}-{i}', listing, slots, KINDS, depth, args, 'cwd', args in ([], ['*']) or not q))
    for i, name in enumerate(('a[b]', 'a*', '?', ' ', "it's", 'a#b', '-r')):
        cases.append(case(f'cwd-{i}', listing, ['long', 'p'], ['absent', 'file', 'dir'], '', ['p', 'l*'], name))
        cases.append(case(f'cwd-none-{i}', listing, ['long', 'p'], ['absent', 'file', 'dir'], '', [], name, reach=['listed']))
    cases.append(case('order', order, [1, 2] if q else [1, 2, 2], tuple(map(ord, 'aAbB.-_~0 ')) + (0xE9, 0x4E2D, 0x1F600), reach=['listed']))
    for depth in ('-r', '-1'):
        cases.append(case(f'faults{depth}', faults, depth, 1 if q else 2, reach=['fault']))
    for kind in ('file', 'empty', 'broken', 'link_dir', 'fifo', 'socket'):
        for triple in range(3):
            cases.append(case(f'render-{kind}-{triple}', rendering, kind, triple, reach=['rendered']))
    return cases
