"""
Symbolic strings.

A symbolic character is represented by a placeholder: a private-use code point (U+F0000 + i) standing for the z3 integer
term number i of the current path. Symbolic strings are therefore ordinary str objects of a known length, which flow
unchanged through everything that does not look at characters (concatenation, slicing, join, f-strings, containers,
subclasses of str, pickling, files ...). Wherever characters are *observed* (comparison, `in`, str methods, dict lookup,
sorted(), int(), ord() ...), the expression is evaluated by this module, in terms of z3. This requires rewriting those
expressions of marcel's modules: an import hook does this on the AST of /repo's current source, when it is imported.

An observation which isn't intercepted (C code being given a symbolic string) treats the placeholder as an ordinary,
unusual character. This can't cause a false alarm, because violations are confirmed on the un-instrumented code.
"""
import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

import z3

import symex
from symex import SymBool, SymInt, conj, disj, not_

BASE = 0xF0000
LIMIT = 0xFFFD

# Default alphabet: ASCII whitespace and printable characters, and representatives of non-ASCII whitespace, letters,
# digits, symbols, and a character outside the BMP.
ASCII = tuple(range(9, 14)) + tuple(range(32, 127))
WIDE = ASCII + (0x1C, 0x85, 0xA0, 0xB2, 0xE9, 0x3A9, 0x661, 0x2028, 0x3000, 0x4E2D, 0x1F600)


def is_place(ch):
    return BASE <= ord(ch) < BASE + LIMIT


def has_sym(s):
    if s.isascii():
        return False
    for ch in s:
        if ch >= '\U000F0000' and is_place(ch):
            return True
    return False


def code(ch):
    """z3 term, or int"""
    o = ord(ch)
    return symex._CTX.chars[o - BASE][0] if BASE <= o < BASE + LIMIT else o


def alphabet(ch):
    return symex._CTX.chars[ord(ch) - BASE][1]


def new_char(c, t, alpha):
    c.chars.append((t, alpha))
    assert len(c.chars) < LIMIT
    return chr(BASE + len(c.chars) - 1)


def ranges(points):
    out = []
    for p in sorted(points):
        if out and out[-1][1] == p - 1:
            out[-1][1] = p
        else:
            out.append([p, p])
    return out


def member(t, points):
    return z3.Or(*[(t == lo if lo == hi else z3.And(t >= lo, t <= hi)) for lo, hi in ranges(points)])


@functools.lru_cache(maxsize=None)
def _points(name, alpha):
    return tuple(p for p in alpha if PREDICATES[name](chr(p)))


PREDICATES = {n: getattr(str, n) for n in ('isspace', 'isdigit', 'isalnum', 'isalpha', 'isdecimal', 'isnumeric', 'islower',
                                           'isupper', 'isprintable', 'isascii', 'isidentifier')}
PREDICATES['idcontinue'] = lambda ch: ('a' + ch).isidentifier()


def is_class(name, ch):
    if not is_place(ch):
        return PREDICATES[name](ch)
    alpha = alphabet(ch)
    pts = _points(name, alpha)
    if not pts:
        return False
    if len(pts) == len(alpha):
        return True
    return SymBool(member(code(ch), pts))


def one_of(ch, chars):
    """ch in chars, chars being any iterable of characters"""
    if not is_place(ch):
        return disj([char_eq(ch, x) for x in chars])
    concrete = [ord(x) for x in chars if not is_place(x)]
    rest = [x for x in chars if is_place(x)]
    alpha = set(alphabet(ch))
    concrete = [x for x in concrete if x in alpha]
    r = [SymBool(member(code(ch), concrete))] if concrete else []
    return disj(r + [char_eq(ch, x) for x in rest])


def char_eq(a, b):
    if a == b:
        return True
    x, y = code(a), code(b)
    if type(x) is int and type(y) is int:
        return x == y
    if type(x) is int and x not in _set(alphabet(b)) or type(y) is int and y not in _set(alphabet(a)):
        return False
    return SymBool(x == y)


@functools.lru_cache(maxsize=None)
def _set(alpha):
    return frozenset(alpha)


def eq(a, b):
    """Equality of strings"""
    if len(a) != len(b):
        return False
    # str() so that comparison of instances of subclasses is by value
    a, b = str.__str__(a), str.__str__(b)
    if a == b:
        return True
    r = []
    for x, y in zip(a, b):
        e = char_eq(x, y)
        if e is False:
            return False
        r.append(e)
    return conj(r)


def lt(a, b, or_equal):
    n = min(len(a), len(b))
    # First difference decides
    result = (len(a) <= len(b)) if or_equal else (len(a) < len(b))
    t = z3.BoolVal(result)
    for i in reversed(range(n)):
        x, y = code(a[i]), code(b[i])
        if type(x) is int and type(y) is int:
            if x != y:
                t = z3.BoolVal(x < y)
        else:
            t = z3.If(x == y, t, x < y)
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else SymBool(t)


def concretize(s):
    """Split into a path for each possible value"""
    if not has_sym(s):
        return s
    return ''.join(chr(symex._CTX.concretize_int(code(ch))) if is_place(ch) else ch for ch in s)


# -- str methods

def matches_at(s, sub, i):
    if i < 0 or i + len(sub) > len(s):
        return False
    return eq(s[i:i + len(sub)], sub)


def _bounds(s, args):
    start = args[0] if len(args) > 0 and args[0] is not None else 0
    end = args[1] if len(args) > 1 and args[1] is not None else len(s)
    start, end, _ = slice(start, end).indices(len(s))
    return start, end


def m_startswith(s, prefix, *args):
    start, end = _bounds(s, args)
    t = s[start:end]
    if type(prefix) is tuple:
        return disj([matches_at(t, p, 0) for p in prefix])
    return matches_at(t, prefix, 0)


def m_endswith(s, suffix, *args):
    start, end = _bounds(s, args)
    t = s[start:end]
    if type(suffix) is tuple:
        return disj([matches_at(t, p, len(t) - len(p)) for p in suffix])
    return matches_at(t, suffix, len(t) - len(suffix))


def m_find(s, sub, *args):
    start, end = _bounds(s, args)
    for i in range(start, end - len(sub) + 1):
        if eq(s[i:i + len(sub)], sub):
            return i
    return -1


def m_rfind(s, sub, *args):
    start, end = _bounds(s, args)
    for i in reversed(range(start, end - len(sub) + 1)):
        if eq(s[i:i + len(sub)], sub):
            return i
    return -1


def m_index(s, sub, *args):
    i = m_find(s, sub, *args)
    if i < 0:
        raise ValueError('substring not found')
    return i


def m_rindex(s, sub, *args):
    i = m_rfind(s, sub, *args)
    if i < 0:
        raise ValueError('substring not found')
    return i


def m_count(s, sub, *args):
    if sub == '':
        return len(s) + 1
    start, end = _bounds(s, args)
    n, i = 0, start
    while i + len(sub) <= end:
        if eq(s[i:i + len(sub)], sub):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def m_replace(s, old, new, count=-1):
    if old == '':
        return str.replace(s, old, new, count)
    out, i = [], 0
    while i < len(s):
        if count != 0 and matches_at(s, old, i):
            out.append(new)
            i += len(old)
            count -= 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def _strippable(ch, chars):
    return is_class('isspace', ch) if chars is None else one_of(ch, chars)


def m_lstrip(s, chars=None):
    i = 0
    while i < len(s) and _strippable(s[i], chars):
        i += 1
    return s[i:]


def m_rstrip(s, chars=None):
    n = len(s)
    while n > 0 and _strippable(s[n - 1], chars):
        n -= 1
    return s[:n]


def m_strip(s, chars=None):
    return m_rstrip(m_lstrip(s, chars), chars)


def m_split(s, sep=None, maxsplit=-1):
    out = []
    if sep is None:
        i = 0
        while True:
            while i < len(s) and is_class('isspace', s[i]):
                i += 1
            if i == len(s):
                return out
            if maxsplit >= 0 and len(out) == maxsplit:
                out.append(m_rstrip(s[i:]))
                return out
            j = i
            while j < len(s) and not is_class('isspace', s[j]):
                j += 1
            out.append(s[i:j])
            i = j
    if sep == '':
        raise ValueError('empty separator')
    start = i = 0
    while i + len(sep) <= len(s):
        if (maxsplit < 0 or len(out) < maxsplit) and eq(s[i:i + len(sep)], sep):
            out.append(s[start:i])
            i = start = i + len(sep)
        else:
            i += 1
    out.append(s[start:])
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return m_split(s, sep)
    r = m_split(s[::-1], None if sep is None else sep[::-1], maxsplit)
    return [x[::-1] for x in r][::-1]


def m_partition(s, sep):
    i = m_find(s, sep)
    return (s, '', '') if i < 0 else (s[:i], sep, s[i + len(sep):])


def m_rpartition(s, sep):
    i = m_rfind(s, sep)
    return ('', '', s) if i < 0 else (s[:i], sep, s[i + len(sep):])


LINE_ENDS = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'


def m_splitlines(s, keepends=False):
    out = []
    start = i = 0
    while i < len(s):
        if one_of(s[i], LINE_ENDS):
            j = i + 1
            if j < len(s) and char_eq(s[i], '\r') and char_eq(s[j], '\n'):
                j += 1
            out.append(s[start:j if keepends else i])
            start = i = j
        else:
            i += 1
    if start < len(s):
        out.append(s[start:])
    return out


def m_removeprefix(s, p):
    return s[len(p):] if matches_at(s, p, 0) else s[:]


def m_removesuffix(s, p):
    return s[:len(s) - len(p)] if len(p) > 0 and matches_at(s, p, len(s) - len(p)) else s[:]


def _all(name):
    def f(s):
        return len(s) > 0 and conj([is_class(name, ch) for ch in s])
    return f


def m_isidentifier(s):
    return len(s) > 0 and conj([is_class('isidentifier', s[0])] + [is_class('idcontinue', ch) for ch in s[1:]])


def m_isascii(s):
    return conj([is_class('isascii', ch) for ch in s])


def m_isprintable(s):
    return conj([is_class('isprintable', ch) for ch in s])


def _mapped(f):
    def g(s):
        out = []
        for ch in s:
            if is_place(ch):
                c = symex._CTX
                t, alpha = c.chars[ord(ch) - BASE]
                changed = [p for p in alpha if f(chr(p)) != chr(p)]
                if any(len(f(chr(p))) != 1 for p in alpha):
                    out.append(f(concretize(ch)))
                    continue
                e = t
                for lo, hi in ranges(changed):
                    d = ord(f(chr(lo))) - lo
                    if all(ord(f(chr(p))) - p == d for p in range(lo, hi + 1)):
                        e = z3.If(z3.And(t >= lo, t <= hi), t + d, e)
                    else:
                        for p in range(lo, hi + 1):
                            e = z3.If(t == p, z3.IntVal(ord(f(chr(p)))), e)
                out.append(new_char(c, e, tuple(sorted({ord(f(chr(p))) for p in alpha}))) if changed else ch)
            else:
                out.append(f(ch))
        return ''.join(out)
    return g


STR_METHODS = {
    'startswith': m_startswith, 'endswith': m_endswith, 'find': m_find, 'rfind': m_rfind, 'index': m_index,
    'rindex': m_rindex, 'count': m_count, 'replace': m_replace, 'strip': m_strip, 'lstrip': m_lstrip, 'rstrip': m_rstrip,
    'split': m_split, 'rsplit': m_rsplit, 'partition': m_partition, 'rpartition': m_rpartition,
    'splitlines': m_splitlines, 'removeprefix': m_removeprefix, 'removesuffix': m_removesuffix,
    'isspace': _all('isspace'), 'isdigit': _all('isdigit'), 'isalnum': _all('isalnum'), 'isalpha': _all('isalpha'),
    'isdecimal': _all('isdecimal'), 'isnumeric': _all('isnumeric'), 'isidentifier': m_isidentifier,
    'isascii': m_isascii, 'isprintable': m_isprintable, 'lower': _mapped(str.lower), 'upper': _mapped(str.upper),
    'casefold': _mapped(str.casefold)}
CONCRETIZED = {'encode', 'islower', 'isupper', 'istitle', 'title', 'capitalize', 'swapcase', 'translate', 'zfill',
               'expandtabs'}
DICT_METHODS = {'get', 'pop', 'setdefault', '__getitem__', '__contains__'}
SEQ_METHODS = {'index', 'count', 'remove'}
SET_METHODS = {'add', 'discard', 'remove'}
METHODS = set(STR_METHODS) | CONCRETIZED | DICT_METHODS | SEQ_METHODS | SET_METHODS | {'sort', 'intersection', 'union',
                                                                                    'difference', 'issubset'}


def _symarg(x):
    if isinstance(x, str):
        return has_sym(x)
    if type(x) in (tuple, list):
        return any(_symarg(y) for y in x)
    return False


def find_key(d, k):
    """The key of d (dict, set) that is equal to k, in a 1-tuple. None, if there is none"""
    sym = _symarg(k)
    if not sym:
        try:
            if dict.__contains__(d, k) if isinstance(d, dict) else k in d:
                return (k,)
        except TypeError:
            raise
        if not symex._CTX.symkeys:
            return None
    for key in list(d.keys() if isinstance(d, dict) else d):
        if (sym or _symarg(key)) and bool(symex.same(key, k)):
            return (key,)
    return None


def active():
    return symex._CTX is not None and symex._CTX.symbolic


def method(obj, name, *args, **kwargs):
    if active():
        t = builtins.type(obj)
        if isinstance(obj, str):
            if getattr(t, name, None) is getattr(str, name, None) and (has_sym(obj) or any(_symarg(a) for a in args)):
                if name in STR_METHODS:
                    return STR_METHODS[name](str.__str__(obj), *args, **kwargs)
                if name in CONCRETIZED:
                    return getattr(str, name)(concretize(obj), *[concretize(a) if isinstance(a, str) else a for a in args],
                                              **kwargs)
        elif t is dict or isinstance(obj, dict) and getattr(t, name, None) is getattr(dict, name, None):
            if name in ('get', 'pop', 'setdefault', '__contains__') and isinstance(args[0], (str, tuple)):
                k = find_key(obj, args[0])
                if name == '__contains__':
                    return k is not None
                if k is not None:
                    args = k + args[1:]
                elif name == 'setdefault' and _symarg(args[0]):
                    symex._CTX.symkeys = True
        elif t is list or t is tuple:
            if name in SEQ_METHODS and _symarg(args[0]):
                if name == 'count':
                    return sum(1 for x in obj if symex.same(x, args[0]))
                for i, x in enumerate(obj):
                    if symex.same(x, args[0]):
                        if name == 'index':
                            return i
                        del obj[i]
                        return None
                raise ValueError(f'{args[0]} not in list')
            if name == 'sort' and t is list and any(_symarg(x) for x in obj):
                obj[:] = sym_sorted(obj, **kwargs)
                return None
        elif t is set:
            if name in SET_METHODS and isinstance(args[0], (str, tuple)):
                k = find_key(obj, args[0])
                if k is not None:
                    args = k
                elif name == 'add' and _symarg(args[0]):
                    symex._CTX.symkeys = True
    return getattr(obj, name)(*args, **kwargs)


def _identity(x):
    return x


class _Ordered(object):
    def __init__(self, x):
        self.x = x

    def __lt__(self, other):
        return bool(compare('<', self.x, other.x))


def sym_sorted(xs, key=None, reverse=False):
    xs = list(xs)
    key = key or _identity
    if active() and any(_symarg(key(x)) for x in xs):
        return builtins.sorted(xs, key=lambda x: _Ordered(key(x)), reverse=reverse)
    return builtins.sorted(xs, key=key, reverse=reverse)


def contains(x, y):
    """x in y"""
    if active():
        t = builtins.type(y)
        if isinstance(y, str):
            if isinstance(x, str) and (has_sym(x) or has_sym(y)):
                if len(x) == 1:
                    return one_of(str.__str__(x), str.__str__(y))
                return m_find(str.__str__(y), x) >= 0
        elif t in (list, tuple):
            if _symarg(x) or any(_symarg(z) for z in y):
                return disj([symex.same(x, z) for z in y])
        elif t in (set, frozenset) or isinstance(y, dict) and t.__contains__ is dict.__contains__:
            if isinstance(x, (str, tuple)):
                return find_key(y, x) is not None
    return x in y


def compare(op, a, b):
    if op == 'in':
        return contains(a, b)
    if op == 'not in':
        return not_(contains(a, b))
    if active():
        ta, tb = builtins.type(a), builtins.type(b)
        if isinstance(a, str) and isinstance(b, str):
            if has_sym(a) or has_sym(b):
                if op == '==':
                    return eq(a, b)
                if op == '!=':
                    return not_(eq(a, b))
                a, b = str.__str__(a), str.__str__(b)
                return (lt(a, b, False) if op == '<' else lt(a, b, True) if op == '<=' else
                        lt(b, a, False) if op == '>' else lt(b, a, True))
        elif ta is tb and ta in (tuple, list) and (_symarg(a) or _symarg(b)):
            if op == '==':
                return symex.same(a, b)
            if op == '!=':
                return not_(symex.same(a, b))
            for x, y in zip(a, b):
                if not symex.same(x, y):
                    return compare(op.rstrip('=') if len(op) > 1 else op, x, y)
            a, b = len(a), len(b)
    return (a == b if op == '==' else a != b if op == '!=' else a < b if op == '<' else a <= b if op == '<=' else
            a > b if op == '>' else a >= b)


def chain(ops, *xs):
    r = True
    for i, op in enumerate(ops):
        r = compare(op, xs[i], xs[i + 1])
        if i < len(ops) - 1 and not r:
            return r
    return r


def getitem(d, k):
    if active() and isinstance(d, dict) and isinstance(k, (str, tuple)):
        f = find_key(d, k)
        if f is not None:
            k = f[0]
    return d[k]


def key(d, k):
    """The key to be used to store into or delete from d"""
    if active() and isinstance(d, dict) and isinstance(k, (str, tuple)):
        f = find_key(d, k)
        if f is not None:
            return f[0]
        if _symarg(k):
            symex._CTX.symkeys = True
    return k


def sym_int(*args, **kwargs):
    if len(args) == 1 and type(args[0]) is symex.SymInt:
        return args[0]
    if len(args) == 1 and type(args[0]) is symex.SymScaled:
        return args[0].to_int()
    if len(args) == 1 and isinstance(args[0], str) and active() and has_sym(args[0]):
        return str_to_int(str.__str__(args[0]))
    return builtins.int(*args, **kwargs)


def sym_float(*args):
    if len(args) == 1 and isinstance(args[0], str) and active():
        args = (concretize(args[0]),)
    return builtins.float(*args)


def sym_repr(x):
    if isinstance(x, str) and active():
        x = concretize(x)
    return builtins.repr(x)


def str_to_int(s):
    t = m_strip(s)
    sign = 1
    if len(t) > 0 and one_of(t[0], '+-'):
        if char_eq(t[0], '-'):
            sign = -1
        t = t[1:]
    if len(t) > 0 and conj([_ascii_digit(ch) for ch in t]):
        v = z3.IntVal(0)
        for ch in t:
            v = v * 10 + (code(ch) - 48)
        return SymInt(z3.simplify(v * sign))
    return builtins.int(concretize(s))


def _ascii_digit(ch):
    if not is_place(ch):
        return '0' <= ch <= '9'
    pts = [p for p in alphabet(ch) if 48 <= p <= 57]
    return SymBool(member(code(ch), pts)) if pts else False


def sym_ord(ch):
    if active() and isinstance(ch, str) and len(ch) == 1 and is_place(ch):
        return SymInt(code(ch))
    return builtins.ord(ch)


def sym_min(*args, **kwargs):
    return _extreme(builtins.min, '<', args, kwargs)


def sym_max(*args, **kwargs):
    return _extreme(builtins.max, '>', args, kwargs)


def _extreme(f, op, args, kwargs):
    if active():
        xs = list(args[0]) if len(args) == 1 else list(args)
        k = kwargs.get('key') or _identity
        if xs and any(_symarg(k(x)) for x in xs):
            best = xs[0]
            for x in xs[1:]:
                if compare(op, k(x), k(best)):
                    best = x
            return best
        if len(args) == 1:
            args = (xs,)
    return f(*args, **kwargs)


symex._str_eq = eq

# -- AST

OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in',
       ast.NotIn: 'not in'}
PREFIX = '_vf_'
BUILTINS = {n: n for n in ('sorted', 'ord', 'min', 'max', 'int', 'float', 'repr')}


class Transformer(ast.NodeTransformer):

    def call(self, node, name, *args):
        return ast.copy_location(ast.Call(func=ast.Name(id=PREFIX + name, ctx=ast.Load()), args=list(args), keywords=[]),
                                 node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        kinds = [type(op) for op in node.ops]
        if any(k not in OPS for k in kinds):
            return node
        if len(kinds) == 1:
            return self.call(node, 'compare', ast.Constant(OPS[kinds[0]]), node.left, node.comparators[0])
        return self.call(node, 'chain', ast.Constant(tuple(OPS[k] for k in kinds)), node.left, *node.comparators)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and not (isinstance(f.value, ast.Call) and
                                                                      isinstance(f.value.func, ast.Name) and
                                                                      f.value.func.id == 'super'):
            return ast.copy_location(ast.Call(func=ast.Name(id=PREFIX + 'method', ctx=ast.Load()),
                                              args=[f.value, ast.Constant(f.attr)] + node.args,
                                              keywords=node.keywords), node)
        if isinstance(f, ast.Name) and f.id in BUILTINS:
            node.func = ast.copy_location(ast.Name(id=PREFIX + BUILTINS[f.id], ctx=ast.Load()), f)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, (ast.Slice, ast.Tuple)) or isinstance(node.slice, ast.Constant) and isinstance(
                node.slice.value, int):
            return node
        if isinstance(node.ctx, ast.Load):
            return self.call(node, 'getitem', node.value, node.slice)
        # Evaluates node.value twice: only if that has no effect.
        if isinstance(node.value, (ast.Name, ast.Attribute)):
            value = ast.parse(ast.unparse(node.value), mode='eval').body
            node.slice = self.call(node, 'key', value, node.slice)
        return node

    # Annotations aren't evaluated usefully
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


RUNTIME = {'compare': compare, 'chain': chain, 'method': method, 'getitem': getitem, 'key': key, 'sorted': sym_sorted,
           'ord': sym_ord, 'min': sym_min, 'max': sym_max, 'int': sym_int, 'float': sym_float, 'repr': sym_repr}


class _Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        # No bytecode cache
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            tree = ast.parse(f.read(), path)
        tree = ast.fix_missing_locations(Transformer().visit(tree))
        return compile(tree, path, 'exec')

    def exec_module(self, module):
        for k, v in RUNTIME.items():
            module.__dict__[PREFIX + k] = v
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):

    def __init__(self, root, packages):
        self.root = root
        self.packages = packages

    def find_spec(self, fullname, path, target=None):
        if fullname.split('.')[0] not in self.packages:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or spec.origin is None or not spec.origin.startswith(self.root):
            return spec
        if isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(fullname, spec.origin)
        return spec


def install(root, packages=('marcel',)):
    assert not any(m.split('.')[0] in packages for m in sys.modules), 'too late'
    # Functions written on marcel's command line are compiled by marcel (eval), in a namespace that isn't a module.
    for k, v in RUNTIME.items():
        setattr(builtins, PREFIX + k, v)
    sys.meta_path.insert(0, _Finder(root, packages))
