"""
symex: a small, deterministic, exhaustive symbolic executor for ordinary CPython code.

The code under test is executed by CPython itself, from /repo's current source. Inputs are proxy objects
(SymInt, SymBool, SymStr ...) that carry z3 terms. Whenever the interpreter needs a concrete truth value from a
symbolic condition (bool(...)), the engine asks z3 which outcomes are possible under the current path condition and
explores *all* feasible outcomes, by re-running the harness with a recorded prefix of decisions (depth-first). A run
of `explore` therefore partitions the whole input space (as declared by the harness) into path conditions; on each
path the harness states its assertion as a z3 term and the solver decides whether (path condition and not assertion)
is satisfiable. UNSAT on every path = the assertion holds for every input in the declared space. SAT = a concrete
counterexample, which the caller replays on the real code with ordinary Python values (ConcreteCtx).

Anything the solver cannot decide ('unknown') and any operation a proxy does not model is replayed with concrete values
from the path, and counted as 'undecided' in the evidence: it does not count as decided by the solver.
"""
import collections
import fractions
import os
import sys
import time
import traceback

import z3
import z3.z3


# Terms may become garbage in any thread (a simulated thread that ends, or the garbage collector), but z3 is not thread safe, and
# Python runs other threads during calls of z3. So what is to be freed is collected, and freed by the thread that uses the solver.
_garbage = collections.deque()


def _defer(real):
    def f(*args):
        _garbage.append((real, args))
    return f


def free_garbage():
    for i in range(len(_garbage)):
        real, args = _garbage.popleft()
        real(*args)


for _name in dir(z3.z3):
    if _name.startswith('Z3_') and _name.endswith('_dec_ref') and 'concurrent' not in _name:
        setattr(z3.z3, _name, _defer(getattr(z3.z3, _name)))


class PathAbort(BaseException):
    """Base of the engine's control-flow exceptions. BaseException, so that code under test doesn't swallow it."""


class Infeasible(PathAbort):
    """The path condition contradicts an assumption."""


class Unsupported(PathAbort):
    """A proxy was asked for something it doesn't model."""


class Unknown(PathAbort):
    """The solver gave up."""


class Budget(PathAbort):
    """Path or decision budget exhausted."""


class Violated(PathAbort):
    """An assertion has a counterexample."""

    def __init__(self, msg, values):
        super().__init__(msg)
        self.msg = msg
        self.values = values


_CTX = None


def ctx():
    return _CTX


# ---------------------------------------------------------------------------------------------------------------
# Proxies


def term(x):
    if isinstance(x, _Sym):
        return x.t
    if type(x) is bool:
        return z3.BoolVal(x)
    if type(x) is int:
        return z3.IntVal(x)
    raise Unsupported(f'term({type(x)})')


class _Sym(object):
    __slots__ = ('t',)


def _intarg(x):
    # Returns an ArithRef, or None if x is not an int-like thing
    tx = type(x)
    if tx is SymInt:
        return x.t
    if tx is int:
        return z3.IntVal(x)
    if tx is bool:
        return z3.IntVal(int(x))
    if tx is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return None


class SymBool(_Sym):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return _CTX.branch(self.t)

    def __and__(self, other):
        o = other.t if type(other) is SymBool else z3.BoolVal(other) if type(other) is bool else None
        return NotImplemented if o is None else SymBool(z3.And(self.t, o))

    __rand__ = __and__

    def __or__(self, other):
        o = other.t if type(other) is SymBool else z3.BoolVal(other) if type(other) is bool else None
        return NotImplemented if o is None else SymBool(z3.Or(self.t, o))

    __ror__ = __or__

    def __xor__(self, other):
        o = other.t if type(other) is SymBool else z3.BoolVal(other) if type(other) is bool else None
        return NotImplemented if o is None else SymBool(z3.Xor(self.t, o))

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, other):
        if type(other) is SymBool:
            return SymBool(self.t == other.t)
        if type(other) is bool:
            return SymBool(self.t if other else z3.Not(self.t))
        a, b = _intarg(self), _intarg(other)
        return SymBool(a == b) if b is not None else False

    def __ne__(self, other):
        r = self.__eq__(other)
        return not_(r)

    def __hash__(self):
        return 0 if _CTX is None or _CTX.lifted else hash(bool(self))

    def __int__(self):
        return 1 if _CTX.branch(self.t) else 0

    __index__ = __int__

    def __add__(self, other):
        return SymInt(_intarg(self)) + other

    __radd__ = __add__

    def __repr__(self):
        return '<symbool>'

    def __reduce_ex__(self, protocol):
        return _unpickle_sym, (_CTX.register(self),)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _unpickle_sym(i):
    return _CTX.registry[i]


class SymScaled(object):
    """A non-negative integer multiplied by a float, only good for int(). The product is that of the exact rational
    value of the float, so the harness must keep integers small (rounding could matter otherwise)."""

    def __init__(self, x, factor):
        self.x = x
        self.factor = fractions.Fraction(factor)

    def to_int(self):
        if self.x < 0:
            raise _CTX.die(Unsupported('float * negative symint'))
        return self.x * self.factor.numerator // self.factor.denominator

    def __int__(self):
        return int(self.to_int())


class SymInt(_Sym):
    """Mathematical integer, exactly like Python's int."""
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    # -- comparisons

    def __eq__(self, other):
        o = _intarg(other)
        return SymBool(self.t == o) if o is not None else (NotImplemented if isinstance(other, (float, complex)) else False)

    def __ne__(self, other):
        o = _intarg(other)
        return SymBool(self.t != o) if o is not None else (NotImplemented if isinstance(other, (float, complex)) else True)

    def __lt__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymBool(self.t < o)

    def __le__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymBool(self.t <= o)

    def __gt__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymBool(self.t > o)

    def __ge__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymBool(self.t >= o)

    # Python's dict and set compare items with the same hash only. If the harness lifts all constants (ctx.lift), so that every int key in a
    # dict or set is a SymInt, then a constant hash makes them decide by __eq__, i.e. by the solver. Otherwise, the value is decided here.
    def __hash__(self):
        if _CTX is None or _CTX.lifted:
            return 0x5EED
        return hash(_CTX.concretize_int(self.t))

    def __bool__(self):
        return _CTX.branch(self.t != 0)

    # -- arithmetic

    def __add__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymInt(self.t + o)

    def __radd__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymInt(o + self.t)

    def __sub__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymInt(self.t - o)

    def __rsub__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymInt(o - self.t)

    def __mul__(self, other):
        o = _intarg(other)
        if o is None:
            if isinstance(other, (tuple, list, str)):
                return other * self.__index__()
            if type(other) is float and other >= 0:
                return SymScaled(self, other)
            return NotImplemented
        return SymInt(self.t * o)

    def __rmul__(self, other):
        o = _intarg(other)
        if o is None:
            if isinstance(other, (tuple, list, str)):
                return other * self.__index__()
            if type(other) is float and other >= 0:
                return SymScaled(self, other)
            return NotImplemented
        return SymInt(o * self.t)

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t < 0, -self.t, self.t))

    @staticmethod
    def _divmod(a, b):
        # Floor semantics
        if _CTX.branch(b == 0):
            raise ZeroDivisionError('integer modulo by zero')
        if _CTX.branch(b > 0):
            return a / b, a % b
        return (-a) / (-b), -((-a) % (-b))

    def __floordiv__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymInt(SymInt._divmod(self.t, o)[0])

    def __rfloordiv__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymInt(SymInt._divmod(o, self.t)[0])

    def __mod__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymInt(SymInt._divmod(self.t, o)[1])

    def __rmod__(self, other):
        o = _intarg(other)
        return NotImplemented if o is None else SymInt(SymInt._divmod(o, self.t)[1])

    def __divmod__(self, other):
        o = _intarg(other)
        if o is None:
            return NotImplemented
        q, r = SymInt._divmod(self.t, o)
        return SymInt(q), SymInt(r)

    def __truediv__(self, other):
        o = _intarg(other)
        if o is None:
            return NotImplemented
        if _CTX.branch(o == 0):
            raise ZeroDivisionError('division by zero')
        raise _CTX.die(Unsupported('int / int'))

    def __pow__(self, other):
        if type(other) is int and 0 <= other <= 4:
            r = z3.IntVal(1)
            for _ in range(other):
                r = r * self.t
            return SymInt(r)
        raise _CTX.die(Unsupported('**'))

    # -- forced concretisation. Explores every feasible value (finite, if the declared domain is).

    def __index__(self):
        return _CTX.concretize_int(self.t)

    __int__ = __index__

    # Bit operations: concretise both sides.
    def __and__(self, other):
        return self.__index__() & int(other)

    def __rand__(self, other):
        return int(other) & self.__index__()

    def __or__(self, other):
        return self.__index__() | int(other)

    def __ror__(self, other):
        return int(other) | self.__index__()

    def __lshift__(self, other):
        return self.__index__() << int(other)

    def __rshift__(self, other):
        return self.__index__() >> int(other)

    def __invert__(self):
        return SymInt(-self.t - 1)

    def bit_length(self):
        return self.__index__().bit_length()

    def __float__(self):
        raise _CTX.die(Unsupported('float(symint)'))

    def __round__(self, n=None):
        return self

    def __str__(self):
        return _CTX.opaque_str(self)

    def __repr__(self):
        return _CTX.opaque_str(self)

    def __format__(self, spec):
        if spec in ('', 'd'):
            return _CTX.opaque_str(self)
        return format(self.__index__(), spec)

    def __reduce_ex__(self, protocol):
        return _unpickle_sym, (_CTX.register(self),)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def not_(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.t))
    return not x


def conj(xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return SymBool(z3.And(*ts)) if len(ts) > 1 else SymBool(ts[0])


def disj(xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return SymBool(z3.Or(*ts)) if len(ts) > 1 else SymBool(ts[0])


def implies(a, b):
    return disj([not_(a), b])


def ite(c, a, b):
    """Symbolic if-then-else over ints, without forking"""
    if type(c) is not SymBool:
        return a if c else b
    return SymInt(z3.If(c.t, _intarg(a), _intarg(b)))


def total(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def b2i(x):
    if type(x) is SymBool:
        return SymInt(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    return 1 if x else 0


_str_eq = None    # Set by symstr


def same(a, b):
    """Deep structural equality, as a bool or SymBool, without forking. Sequences of different kind (tuple, list)
    differ."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (tuple, list):
        if ta is not tb or len(a) != len(b):
            return False
        return conj([same(x, y) for x, y in zip(a, b)])
    if ta is dict:
        if tb is not dict or len(a) != len(b):
            return False
        return conj([k in b and same(a[k], b[k]) for k in a])
    if tb in (tuple, list, dict):
        return False
    if a is None or b is None:
        return False
    sa, sb = isinstance(a, _Sym) or hasattr(ta, '_symbolic_eq'), isinstance(b, _Sym) or hasattr(tb, '_symbolic_eq')
    if sa or sb:
        # bool vs int distinction is not made, as in Python
        r = a == b if sa else b == a
        return False if r is NotImplemented else r
    if ta is bool or tb is bool:
        return ta is tb and a == b
    if _str_eq is not None and isinstance(a, str) and isinstance(b, str) and _CTX is not None and _CTX.symbolic:
        return _str_eq(a, b)
    return a == b


# ---------------------------------------------------------------------------------------------------------------
# Contexts


class SymCtx(object):
    symbolic = True

    def __init__(self, stats, prefix, max_decisions, solver_timeout_ms):
        self.stats = stats
        self.prefix = prefix          # list of (value, is_last_alternative)
        self.pos = 0
        self.trail = []               # decisions of this run
        self.pending = None
        self.max_decisions = max_decisions
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_timeout_ms)
        self.vars = {}
        self.kinds = {}
        self.registry = []
        self.dead = None
        self.labels = set()
        self.opaque = []
        self.n_checks = 0
        self.cleanups = []
        self.cache = {}
        self.concrete = {}
        self.chars = []               # symbolic characters: (term, alphabet)
        self.lifted = False           # Whether the harness lifts constants: see SymInt.__hash__
        self.symkeys = False          # Whether a dict or set contains a symbolic string

    # -- engine

    def die(self, e):
        if self.dead is None:
            self.dead = e
        return self.dead

    def _check(self, *assumptions):
        free_garbage()
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats['solver_s'] += time.perf_counter() - t
        self.stats['queries'] += 1
        if r == z3.unknown:
            raise self.die(Unknown(f'solver: {self.solver.reason_unknown()}'))
        return r == z3.sat

    def branch(self, t):
        if self.dead is not None:
            raise self.dead
        # Identify the decision by the original term: the order of arguments in a simplified term depends on the
        # history of the process.
        raw = t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = raw.get_id()
        # The same condition was already decided on this path. (Terms are kept alive by self.cache.)
        if key in self.cache:
            return self.cache[key][1]
        if len(self.trail) >= self.max_decisions:
            raise self.die(Budget(f'more than {self.max_decisions} decisions on a path'))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            value, last, tid = d[:3]
            if tid != raw.hash() or len(d) > 3:
                raise self.die(Unsupported(f'non-deterministic replay at decision {self.pos}'))
            self.pos += 1
        else:
            can_true = self._check(t)
            if can_true:
                value = True
                can_false = self._check(z3.Not(t))
                last = not can_false
            else:
                value = False
                last = True
            self.pos += 1
        self.trail.append((value, last, raw.hash()))
        self.solver.add(t if value else z3.Not(t))
        self.cache[key] = (raw, value)
        return value

    def concretize_int(self, t):
        raw = t
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        tid = raw.get_id()
        if tid in self.concrete:
            return self.concrete[tid][1]
        while True:
            if self.dead is not None:
                raise self.dead
            if len(self.trail) >= self.max_decisions:
                raise self.die(Budget(f'more than {self.max_decisions} decisions on a path'))
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if len(d) < 4 or d[2] != raw.hash():
                    raise self.die(Unsupported('non-deterministic replay (concretisation)'))
                value, last, _, v = d
            else:
                if not self._check():
                    raise self.die(Infeasible())
                v = self.solver.model().eval(t, model_completion=True).as_long()
                value = True
                last = not self._check(t != v)
            self.pos += 1
            self.stats['concretisations'] += 1
            self.trail.append((value, last, raw.hash(), v))
            self.solver.add(t == v if value else t != v)
            if value:
                self.concrete[tid] = (raw, v)
                return v

    def register(self, x):
        self.registry.append(x)
        return len(self.registry) - 1

    def opaque_str(self, x):
        # A string standing for the decimal representation of x. Code that looks inside such a string isn't modelled,
        # so every constraint on it is out of scope; the string is unique per term.
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return str(t.as_long())
        self.stats['opaque_strings'] += 1
        return f'\u27e8{t.sexpr()}\u27e9'

    # -- harness API

    def int(self, name, lo=None, hi=None):
        assert name not in self.vars, name
        v = z3.Int(name)
        self.vars[name] = v
        self.kinds[name] = 'int'
        if lo is not None:
            self.solver.add(v >= lo)
        if hi is not None:
            self.solver.add(v <= hi)
        return SymInt(v)

    def bool(self, name):
        assert name not in self.vars, name
        v = z3.Bool(name)
        self.vars[name] = v
        self.kinds[name] = 'bool'
        return SymBool(v)

    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f'{name}{i}', lo, hi) for i in range(n)]

    def small(self, name, lo, hi):
        """A concrete int in lo..hi: a symbolic variable, immediately split by the solver."""
        x = self.int(name, lo, hi)
        return self.concretize_int(x.t)

    def pick(self, name, options):
        return options[self.small(name, 0, len(options) - 1)]

    def flag(self, name):
        """A concrete bool: a symbolic variable, immediately split."""
        return bool(self.bool(name))

    def string(self, name, n, alphabet):
        """A string of n symbolic characters, each one from alphabet (code points)"""
        import symstr
        chars = []
        alphabet = tuple(sorted(set(alphabet)))
        for i in range(n):
            v = z3.Int(f'{name}{i}')
            self.vars[f'{name}{i}'] = v
            self.kinds[f'{name}{i}'] = 'int'
            self.solver.add(symstr.member(v, alphabet))
            chars.append(symstr.new_char(self, v, alphabet))
        return ''.join(chars)

    def lift(self, x):
        """Lift constants to symbolic values, so that they can be hashed together with symbolic ones."""
        self.lifted = True
        if type(x) is int:
            return SymInt(z3.IntVal(x))
        if type(x) in (tuple, list):
            return type(x)(self.lift(y) for y in x)
        return x

    def assume(self, c):
        if self.dead is not None:
            raise self.dead
        if type(c) is SymBool:
            self.solver.add(c.t)
            if not self._check():
                raise self.die(Infeasible())
        elif not c:
            raise self.die(Infeasible())

    def check(self, c, msg):
        """The assertion: decided by the solver for every input on this path."""
        if self.dead is not None:
            raise self.dead
        self.n_checks += 1
        self.stats['assertions'] += 1
        if type(c) is SymBool:
            n = z3.simplify(z3.Not(c.t))
            if z3.is_false(n):
                return
            if self._check(n):
                self.solver.add(n)
                self._check()
                raise self.die(Violated(msg, self.model_values()))
        else:
            if not c:
                self._check()
                raise self.die(Violated(msg, self.model_values()))

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        self.labels.add(label)

    def model_values(self):
        self._check()
        m = self.solver.model()
        values = {}
        for name, v in self.vars.items():
            x = m.eval(v, model_completion=True)
            values[name] = x.as_long() if self.kinds[name] == 'int' else z3.is_true(x)
        return values

    def defer(self, f):
        self.cleanups.append(f)


class ConcreteCtx(object):
    """Same API, with ordinary Python values: used to replay a counterexample on the real code."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.dead = None
        self.labels = set()
        self.cleanups = []
        self.missing = []
        self.registry = []

    def die(self, e):
        self.dead = e
        return e

    def int(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            self.missing.append(name)
            v = lo if lo is not None else hi if hi is not None else 0
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise self.die(Infeasible())
        return v

    def bool(self, name):
        v = self.values.get(name)
        if v is None:
            self.missing.append(name)
            v = False
        return bool(v)

    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f'{name}{i}', lo, hi) for i in range(n)]

    small = int

    def pick(self, name, options):
        return options[self.small(name, 0, len(options) - 1)]

    def flag(self, name):
        return self.bool(name)

    def string(self, name, n, alphabet):
        return ''.join(chr(self.values.get(f'{name}{i}', min(alphabet))) for i in range(n))

    def lift(self, x):
        return x

    def assume(self, c):
        if not c:
            raise self.die(Infeasible())

    def check(self, c, msg):
        if self.dead is not None:
            raise self.dead
        if not c:
            raise self.die(Violated(msg, self.values))

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        self.labels.add(label)

    def defer(self, f):
        self.cleanups.append(f)


# ---------------------------------------------------------------------------------------------------------------
# Exploration


def new_stats():
    return {'paths': 0, 'queries': 0, 'solver_s': 0.0, 'assertions': 0, 'infeasible': 0, 'concretisations': 0,
            'opaque_strings': 0, 'decisions': 0, 'replayed': 0, 'undecided': 0}


class Outcome(object):
    def __init__(self):
        self.status = 'held'       # held | violated | inconclusive
        self.message = None
        self.values = None
        self.stats = new_stats()
        self.labels = set()
        self.detail = None
        self.undecided = []        # reasons for paths that were replayed concretely instead of decided
        self.models = []           # sample of models of explored paths, for differential replay


def describe_exception(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for f in reversed(tb):
        if '/verif/lib' not in f.filename:
            where = f' at {f.filename}:{f.lineno} ({f.name})'
            break
    return f'{type(e).__name__}: {e}{where}'


def run_one(c, harness, params):
    """Runs harness in context c. Returns None (path completed), or the exception that ended the path."""
    global _CTX
    _CTX = c
    try:
        harness(c, *params)
        return c.dead
    except PathAbort as e:
        return c.dead if c.dead is not None else e
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) or isinstance(e, PathTimeout):
            return e
        return c.dead if c.dead is not None else e
    finally:
        for f in reversed(c.cleanups):
            try:
                f()
            except BaseException as e:
                pass


class PathTimeout(BaseException):
    pass


def _alarm(signum, frame):
    e = PathTimeout('path time limit')
    if _CTX is not None and _CTX.dead is None:
        _CTX.dead = e
    raise e


def explore(harness, params=(), max_paths=200000, max_decisions=4000, solver_timeout_ms=20000, deadline=None,
            path_timeout=20, sample_models=3, confirm=None, max_confirm=12):
    """
    Explores every path of harness. confirm(values) replays concrete values on the real, un-instrumented code and
    returns a message if the property is violated there, otherwise None. Only confirmed violations are reported.
    """
    import signal
    out = Outcome()
    stats = out.stats
    prefix = []
    old = signal.signal(signal.SIGALRM, _alarm)

    def give_up(reason):
        if out.status == 'held':
            out.status, out.message = 'inconclusive', reason

    try:
        while True:
            c = SymCtx(stats, prefix, max_decisions, solver_timeout_ms)
            signal.setitimer(signal.ITIMER_REAL, path_timeout)
            try:
                e = run_one(c, harness, params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            stats['decisions'] += len(c.trail)
            out.labels |= c.labels
            if e is None:
                stats['paths'] += 1
                # Models of a few paths, spread over the exploration, are replayed on the real code later.
                if stats['paths'] & (stats['paths'] - 1) == 0 or len(out.models) < sample_models:
                    try:
                        out.models.append(c.model_values())
                    except PathAbort:
                        pass
            elif isinstance(e, Infeasible):
                stats['infeasible'] += 1
            else:
                # Violated, or the path could not be followed to its end symbolically. Get a model of the path so
                # far, and see what the real code does.
                c.dead = None
                if isinstance(e, Violated):
                    values, message = e.values, e.msg
                else:
                    message = ('execution did not terminate in time' if isinstance(e, PathTimeout) else
                               describe_exception(e))
                    try:
                        values = c.model_values()
                    except PathAbort:
                        values = None
                detail = ''.join(traceback.format_exception(e))[-3000:]
                confirmed = None
                if values is not None and confirm is not None:
                    if stats['replayed'] >= max_confirm:
                        give_up(f'too many paths that symbolic execution could not decide, e.g. {message}')
                        out.detail = detail
                        return out
                    stats['replayed'] += 1
                    confirmed = confirm(values)
                if confirmed or confirm is None:
                    out.status, out.values = 'violated', values
                    out.message = confirmed or message
                    out.detail = detail
                    return out
                stats['undecided'] += 1
                out.undecided.append(message[:500])
                out.detail = detail
            # Backtrack
            trail = c.trail
            while trail and (trail[-1][1] or not trail[-1][0]):
                trail.pop()
            if not trail:
                return out
            d = trail[-1]
            trail[-1] = (False, True) + d[2:]
            prefix = trail
            if stats['paths'] + stats['infeasible'] >= max_paths:
                give_up(f'path budget ({max_paths}) exhausted')
                return out
            if deadline is not None and time.time() > deadline:
                give_up('time budget exhausted')
                return out
    finally:
        signal.signal(signal.SIGALRM, old)


def replay(harness, params, values, path_timeout=60):
    """Replays a counterexample with concrete values on the real code. Returns a message if it is confirmed."""
    import signal
    old = signal.signal(signal.SIGALRM, _alarm)
    c = ConcreteCtx(values)
    signal.setitimer(signal.ITIMER_REAL, path_timeout)
    try:
        e = run_one(c, harness, params)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if e is None or isinstance(e, Infeasible):
        return None
    if isinstance(e, Violated):
        return e.msg
    if isinstance(e, PathTimeout):
        return 'execution did not terminate in time'
    if isinstance(e, PathAbort):
        return None
    return f'unexpected exception: {describe_exception(e)}\n' + ''.join(traceback.format_exception(e))[-3000:]
