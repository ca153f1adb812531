"""sql: statements, their arguments, and transactions"""
import marceldrv as d
from symex import same
from vcore import case, prop
from streams import cli


class Failed(Exception):
    pass


class Server(object):
    """A database with one table"""

    def __init__(self, rows, counts, fails, commit_fails):
        self.rows = rows
        self.counts = list(counts)          # of each statement that is executed
        self.fails = list(fails)            # Does it fail?
        self.commit_fails = commit_fails
        self.executed = []                  # (statement, args)
        self.committed = []                 # numbers of statements
        self.commits = []                   # numbers of statements executed before each commit
        self.connections = []

    def connect(self, **kwargs):
        if kwargs['dbname'] == 'none':
            raise Failed('no such database')
        connection = Connection(self)
        self.connections.append(connection)
        return connection


class Connection(object):
    """As that of psycopg2"""

    def __init__(self, server):
        self.server = server
        self.autocommit = False
        self.pending = []
        self.aborted = False
        self.open = True

    def cursor(self):
        assert self.open
        return Cursor(self)

    def commit(self):
        assert self.open
        if self.aborted:
            self.pending = []
            self.aborted = False
            return
        if self.pending or not self.server.commits:
            self.server.commits.append(len(self.server.executed))
        if self.server.commit_fails and self.pending:
            self.pending = []
            raise Failed('commit')
        self.server.committed.extend(self.pending)
        self.pending = []

    def rollback(self):
        assert self.open
        self.pending = []
        self.aborted = False

    def close(self):
        assert self.open
        self.open = False
        self.pending = []


class Cursor(object):

    def __init__(self, connection):
        self.connection = connection
        self.rowcount = -1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def execute(self, sql, args):
        connection, server = self.connection, self.connection.server
        if connection.aborted:
            raise Failed('current transaction is aborted')
        i = len(server.executed)
        server.executed.append((sql, args))
        if i < len(server.fails) and server.fails[i]:
            connection.aborted = not connection.autocommit
            raise Failed('statement')
        self.rowcount = server.counts[i] if i < len(server.counts) else 1
        if connection.autocommit:
            server.committed.append(i)
        else:
            connection.pending.append(i)

    def fetchall(self):
        return list(self.connection.server.rows)


class Psycopg2(object):

    def __init__(self, server):
        self.connect = server.connect


STATEMENTS = ['insert into t values (%s, %s)', '  INSERT into t values(%s, %s)', 'update t set x = %s where y = %s', 'create table t(x int)',
              'select x, y from t where x = %s', '\n Select* from t where y = %s', '(select 1)']
SELECTS = STATEMENTS[4:]


def run(c, n, statement, flags, args, how):
    """n rows of input (None: none)"""
    import marcel.object.db
    words = flags.split()
    V = c.ints('v', 2 * (n or 1))
    W = c.ints('w', 2)
    k = 1 if n is None else n
    counts = [c.int(f'count{i}') for i in range(k)]
    for x in counts:
        c.assume(x >= -1)
        c.assume(x <= 3)
    select = statement in SELECTS
    rows = [tuple(c.int(f'row{i}_{j}') for j in range(2)) for i in range(2)] if select else []
    fails = [c.flag(f'fails{i}') for i in range(k)] if how == 'fails' else []
    limit = c.int('limit') if '-c' in words or '--commit' in words else None
    if limit is not None:
        c.assume(limit >= 1)
        c.assume(limit <= 4)
    bad = [c.flag(f'bad{i}') for i in range(n)] if how == 'errors' else [False] * (n or 0)
    server = Server(rows, counts, fails, how == 'commit fails')
    s = cli()
    saved = marcel.object.db.psycopg2
    marcel.object.db.psycopg2 = Psycopg2(server)
    values = {'V': V, 'W': W, 'LIMIT': limit, 'BAD': bad, 'S': statement, 'DB': marcel.object.db.Database('psycopg2', 'db', 'me'),
              'NODB': marcel.object.db.Database('psycopg2', 'none', 'me'), 'DB_DEFAULT': marcel.object.db.Database('psycopg2', 'default', 'me')}
    for var, value in values.items():
        s.env.setvar(var, value)
    try:
        text = '' if n is None else f'gen {n or 1} | {"" if n else "select (x: False) | "}map (i: (V[2 * i], V[2 * i + 1] // (0 if BAD[i] else 1))) | '
        text += f'sql {flags} (S) {"(W[0]) (W[1])" if args else ""}'
        if how == 'followed':
            text += ' | map (*x: x)'
        try:
            out, killed = s.gather(text, unwrap=False), False
        except d.Killed:
            out, killed = [], True
    finally:
        marcel.object.db.psycopg2 = saved
        for var in values:
            s.env.delvar(var)
    if 'NODB' in words:
        c.check(killed and not server.executed, f'{text}: {out}')
        return c.reach('done')
    # Model
    executed, committed, pending, expected, commits = [], [], [], [], []
    total = 0
    expect_killed = False
    for i in range(k):
        if n is not None and bad[i]:
            expected.append('Error')
            continue
        j = len(executed)
        executed.append((statement, W if args else [] if n is None else V[2 * i: 2 * i + 2]))
        if j < len(fails) and fails[j]:
            expect_killed = True
            break
        if '-a' in words or '--autocommit' in words:
            committed.append(j)
        else:
            pending.append(j)
        if select:
            expected.extend(rows)
        else:
            if limit is not None:
                if counts[j] > 0:
                    total = total + counts[j]
                if total >= limit:
                    commits.append(len(executed))
                    total = 0
                    if how == 'commit fails':
                        expect_killed = True
                        break
                    committed.extend(pending)
                    pending = []
            if '-u' in words or '--update-counts' in words:
                expected.append((counts[j],))
    if not expect_killed:
        if how == 'commit fails' and pending:
            expect_killed = True
        else:
            committed.extend(pending)
    c.check(len(server.executed) == len(executed) and all(a[0] == b[0] and same(list(a[1] or []), list(b[1])) for a, b in zip(server.executed, executed)),
            f'{text}: {server.executed}, expected {executed}')
    c.check(server.committed == committed, f'{text}: committed {server.committed}, expected {committed}')
    if limit is not None and not select:
        c.check([x for x in server.commits if x < len(executed)] == [x for x in commits if x < len(executed)],
                f'{text}: committed after {server.commits} statements, expected {commits}')
    c.check(killed == expect_killed, f'{text}: killed: {killed}, expected {expect_killed}')
    if not killed:
        actual = ['Error' if d.is_error(x) or len(x) == 1 and d.is_error(x[0]) else x for x in out]
        c.check(len(actual) == len(expected) and same(actual, expected), f'{text}: {actual}, expected {expected}')
    c.check(len(server.connections) == 1 and not server.connections[0].open, f'{text}: connections {len(server.connections)}')
    c.reach('killed' if killed else 'done')


@prop('P37', ['Sql', 'SqlSelect', 'SqlInsert', 'SqlOther', 'SqlStatement', 'Connection', 'Database'],
      {'quick': f'{len(STATEMENTS)} statements, all combinations of flags, 0..2 rows of input (3 with -c), or none; values, update counts and commit limits are '
                'arbitrary integers (limits 1..4, counts -1..3); any statement or the commit fails, any item is an Error',
       'thorough': '0..4 rows'},
      ['the driver (psycopg2) and the database are simulated'])
def p37(tier):
    q = tier == 'quick'
    cases = []
    flags = [a + b + d for a in ('', '-a ', '-c (LIMIT) ', '--commit (LIMIT) ') for b in ('', '-u ', '--update-counts ') for d in ('', '-d DB ', '-d NODB ')]
    for n in (None, 0, 1, 2) if q else (None, 0, 1, 2, 3, 4):
        for i, statement in enumerate(STATEMENTS):
            for f in flags:
                plain = 'DB' not in f and '--' not in f
                for args in (False, True):
                    for how in ('ok', 'fails', 'commit fails', 'errors', 'followed'):
                        if how == 'errors' and n is None or not plain and (how != 'ok' or i not in (0, 4)):
                            continue
                        cases.append(case(f'{i}-{n}-{f.replace(" ", "")}-{args}-{how.replace(" ", "-")}', run, n, statement, f, args, how))
    if q:
        # Several commits
        for how in ('ok', 'fails', 'errors'):
            cases.append(case(f'0-3-commit-{how}', run, 3, STATEMENTS[0], '-c (LIMIT) ', False, how))
    return cases
