"""Symbolic scalar terms.

A term is either a concrete Python value (float, int, bool) or a hash-consed `Node`.
Floating-point data is modelled over the reals ('R'), integers as mathematical integers ('I'),
conditions as 'B'.  Concrete (x) concrete arithmetic never reaches this module: the executors fold
it with the machine's own IEEE arithmetic, so only operations that touch an input symbol are
abstracted to exact real arithmetic.
"""
import math
from fractions import Fraction
import numpy as np
import z3


class Unsupported(Exception):
    """The encoding does not cover a construct: inconclusive, never a verdict."""


class Node:
    __slots__ = ('op', 'args', 'sort', 'id', '_z', '_lin', '__weakref__')
    __array_ufunc__ = None     # numpy scalars and arrays defer to our reflected operators
    __hash__ = object.__hash__

    # -- arithmetic -------------------------------------------------------------------------
    def __add__(a, b): return _bin(add, a, b)
    def __radd__(a, b): return _bin(add, b, a)
    def __sub__(a, b): return _bin(sub, a, b)
    def __rsub__(a, b): return _bin(sub, b, a)
    def __mul__(a, b): return _bin(mul, a, b)
    def __rmul__(a, b): return _bin(mul, b, a)
    def __truediv__(a, b): return _bin(div, a, b)
    def __rtruediv__(a, b): return _bin(div, b, a)
    def __floordiv__(a, b): return _bin(floordiv, a, b)
    def __rfloordiv__(a, b): return _bin(floordiv, b, a)
    def __mod__(a, b): return _bin(mod, a, b)
    def __rmod__(a, b): return _bin(mod, b, a)
    def __divmod__(a, b): return _bin(floordiv, a, b), _bin(mod, a, b)
    def __rdivmod__(a, b): return _bin(floordiv, b, a), _bin(mod, b, a)
    def __pow__(a, b): return _bin(power, a, b)
    def __rpow__(a, b): return _bin(power, b, a)
    def __neg__(a): return neg(a)
    def __pos__(a): return a
    def __abs__(a): return absv(a)
    def __lt__(a, b): return _bin(lt, a, b)
    def __le__(a, b): return _bin(le, a, b)
    def __gt__(a, b): return _bin(lt, b, a)
    def __ge__(a, b): return _bin(le, b, a)
    def __eq__(a, b): return _bin(eq, a, b)
    def __ne__(a, b): return _bin(ne, a, b)
    def __and__(a, b): return _bin(and_, a, b)
    def __rand__(a, b): return _bin(and_, b, a)
    def __or__(a, b): return _bin(or_, a, b)
    def __ror__(a, b): return _bin(or_, b, a)
    def __xor__(a, b): return _bin(xor_, a, b)
    def __rxor__(a, b): return _bin(xor_, b, a)
    def __invert__(a):
        if a.sort != 'B':
            raise Unsupported('~ on non-bool')
        return not_(a)
    def __copy__(a): return a
    def __deepcopy__(a, memo): return a

    def __bool__(a):
        from . import ctx
        if a.sort == 'B':
            return ctx.decide(a)
        return ctx.decide(ne(a, 0))

    def __index__(a):
        from . import ctx
        if a.sort != 'I':
            raise TypeError('not an int')
        return ctx.concretize(a)

    def __int__(a):
        from . import ctx
        if a.sort == 'I':
            return ctx.concretize(a)
        return ctx.concretize(to_int_trunc(a))

    def __float__(a):
        raise Unsupported('float() of a symbolic value')

    def __round__(a, nd=None):
        if nd is not None and nd != 0:
            raise Unsupported('round')
        r = round_even(a)
        return to_int_floor(r) if nd is None and r.sort == 'R' else r

    def item(a):
        return a

    def astype(a, dtype, *x, **k):
        from . import snp
        import numpy
        return snp.cast1(a, numpy.dtype(dtype))

    def __trunc__(a):
        return to_int_trunc(a)

    def __floor__(a):
        return to_int_floor(a)

    def __ceil__(a):
        return neg(to_int_floor(neg(a)))

    def __repr__(a):
        return show(a)

    def conjugate(a):
        return a

    @property
    def real(a): return a
    @property
    def imag(a): return 0.0


_table = {}
_count = [0]


def reset():
    _table.clear()


def mk(op, args, sort):
    key = (op, sort) + tuple([('n', x.id) if isinstance(x, Node) else (type(x), x) for x in args])
    n = _table.get(key)
    if n is None:
        n = object.__new__(Node)
        n.op = op
        n.args = args
        n.sort = sort
        _count[0] += 1
        n.id = _count[0]
        n._z = None
        n._lin = 0
        _table[key] = n
    return n


def var(name, sort='R'):
    return mk('var', (name,), sort)


def is_sym(x):
    return isinstance(x, Node)


def norm(x):
    """Bring a concrete scalar to a Python float/int/bool."""
    t = type(x)
    if t is float or t is int or t is bool or t is Node:
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm(x[()])
    if isinstance(x, Node):
        return x
    if isinstance(x, Fraction):
        return x
    raise Unsupported('scalar of type %s' % t.__name__)


def _bin(f, a, b):
    for x in (a, b):
        if isinstance(x, np.ndarray) and x.ndim > 0:
            from . import snp
            return snp.broadcast_op(f, a, b)
    try:
        a = norm(a)
        b = norm(b)
    except Unsupported:
        if hasattr(a, '_is_csym') or hasattr(b, '_is_csym') or isinstance(a, complex) or isinstance(b, complex):
            return NotImplemented
        return NotImplemented
    if isinstance(a, complex) or isinstance(b, complex):
        from . import csym
        a = csym.as_c(a)
        b = csym.as_c(b)
        return csym.op(f, a, b)
    return f(a, b)


def _special(x):
    return type(x) is float and (x != x or x in (math.inf, -math.inf))


def _s2(a, b):
    """Result sort of arithmetic."""
    sa = a.sort if isinstance(a, Node) else ('R' if isinstance(a, (float, Fraction)) else 'I')
    sb = b.sort if isinstance(b, Node) else ('R' if isinstance(b, (float, Fraction)) else 'I')
    if sa == 'B': sa = 'I'
    if sb == 'B': sb = 'I'
    return 'I' if sa == 'I' and sb == 'I' else 'R'


def _b2i(a):
    if isinstance(a, Node) and a.sort == 'B':
        return ite(a, 1, 0)
    if type(a) is bool:
        return int(a)
    return a


def add(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a + b
    if not isinstance(a, Node):
        if a == 0: return _b2i(b)
        if _special(a): return a
    if not isinstance(b, Node):
        if b == 0: return _b2i(a)
        if _special(b): return b
    return mk('+', (_b2i(a), _b2i(b)), _s2(a, b))


def sub(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a - b
    if not isinstance(b, Node):
        if b == 0: return _b2i(a)
        if _special(b): return -b
    if not isinstance(a, Node):
        if a == 0: return neg(b)
        if _special(a): return a
    if a is b:
        return 0 if a.sort == 'I' else 0.0
    return mk('-', (_b2i(a), _b2i(b)), _s2(a, b))


def neg(a):
    if not isinstance(a, Node):
        return -a
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (_b2i(a),), _s2(a, 0) if a.sort != 'R' else 'R')


def mul(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a * b
    a = _b2i(a); b = _b2i(b)
    if isinstance(a, Node) and not isinstance(b, Node):
        a, b = b, a
    if not isinstance(a, Node):
        if _special(a):
            if a != a: return a
            raise Unsupported('inf * symbol')
        if a == 0: return 0 if _s2(a, b) == 'I' else 0.0
        if a == 1: return b if (b.sort == 'R' or _s2(a, b) == 'I') else to_real(b)
        if a == -1: return neg(b) if (b.sort == 'R' or _s2(a, b) == 'I') else neg(to_real(b))
    if a is b and a.op == 'sqrt':
        return to_real(a.args[0])        # defined only for what is not negative
    return mk('*', (a, b), _s2(a, b))


def to_real(a):
    if not isinstance(a, Node):
        return float(a) if not isinstance(a, Fraction) else a
    if a.sort == 'R':
        return a
    if a.sort == 'B':
        return ite(a, 1.0, 0.0)
    return mk('toreal', (a,), 'R')


def div(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        if b == 0:
            a = float(a)
            if a != a or a == 0: return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, float(b))
        if isinstance(a, int) and isinstance(b, int):
            return a / b
        return a / b
    a = _b2i(a); b = _b2i(b)
    if not isinstance(b, Node):
        if b == 1: return to_real(a)
        if b == -1: return neg(to_real(a))
        if b == 0:
            raise Unsupported('symbol / 0')
        if _special(b):
            return math.nan if b != b else 0.0
    if not isinstance(a, Node):
        if a == 0: return 0.0        # divisor /= 0 is recorded as a side condition
        if _special(a):
            if a != a: return a
            raise Unsupported('inf / symbol')
    if isinstance(b, Node):
        from . import ctx
        ctx.note_div(b)
    return mk('/', (to_real(a), to_real(b)), 'R')


def floordiv(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a // b
    a = _b2i(a); b = _b2i(b)
    if _s2(a, b) == 'I':
        if not isinstance(b, Node) and b > 0:
            return mk('idiv', (a, b), 'I')
        if isinstance(b, Node):
            from . import ctx
            if ctx.decide(lt(0, b)):
                return mk('idiv', (a, b), 'I')
            if ctx.decide(eq(b, 0)):
                raise ZeroDivisionError('integer division or modulo by zero')
        raise Unsupported('floor division by a negative')
    return to_real(to_int_floor(div(a, b)))


def mod(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a % b
    return sub(a, mul(b, floordiv(a, b)))


def power(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a ** b
    if not isinstance(b, Node):
        if b == 0: return 1.0
        if b == 1: return a
        if b == 2: return mul(a, a)
        if b == 0.5: return sqrt(a)
        if b == 3: return mul(mul(a, a), a)
        if b == -1: return div(1.0, a)
    return uf('pow', to_real(a), to_real(b))


def absv(a):
    if not isinstance(a, Node):
        return abs(a)
    if a.op == 'abs':
        return a
    if FORKS[0]:
        c = settle(le(0, a))
        if not isinstance(c, Node):
            return a if c else neg(a)
    return mk('abs', (_b2i(a),), 'R' if a.sort == 'R' else 'I')


def _root(x):
    """(c, r) with x = c * sqrt(r) and c >= 0, or None."""
    if not isinstance(x, Node):
        return (x, 1.0) if x >= 0 and x != math.inf else None
    if x.op == 'sqrt':
        return 1.0, x.args[0]
    if x.op == '*' and not isinstance(x.args[0], Node) and x.args[0] >= 0:
        r = _root(x.args[1])
        return r and (x.args[0] * r[0], r[1])
    if x.op == '/' and not isinstance(x.args[1], Node) and x.args[1] > 0:
        r = _root(x.args[0])
        return r and (r[0] / x.args[1], r[1])
    return None


def _squares(a, b):
    """Both sides squared where they are multiples of square roots."""
    x = _root(a)
    y = x and _root(b)
    if not y:
        return None
    return mul(x[0] * x[0], x[1]), mul(y[0] * y[0], y[1])


def lt(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a < b
    a = _b2i(a); b = _b2i(b)
    if a is b: return False
    q = _squares(a, b)
    if q: return lt(*q)
    if _special(a):
        return False if (a != a or a > 0) else True
    if _special(b):
        return False if (b != b or b < 0) else True
    return mk('<', (a, b), 'B')


def le(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a <= b
    a = _b2i(a); b = _b2i(b)
    if a is b: return True
    q = _squares(a, b)
    if q: return le(*q)
    if _special(a):
        return False if (a != a or a > 0) else True
    if _special(b):
        return False if (b != b or b < 0) else True
    return mk('<=', (a, b), 'B')


def eq(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a == b
    if isinstance(a, Node) and a.sort == 'B' or isinstance(b, Node) and b.sort == 'B':
        if type(b) is bool:
            return a if b else not_(a)
        if type(a) is bool:
            return b if a else not_(b)
    a = _b2i(a); b = _b2i(b)
    if a is b: return True
    if _special(a) or _special(b):
        return False
    return mk('=', (a, b), 'B')


def ne(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a != b
    return not_(eq(a, b))


def not_(a):
    if not isinstance(a, Node):
        return not a
    if a.sort != 'B':
        a = ne(a, 0)
        if not isinstance(a, Node):
            return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def _asb(a):
    if isinstance(a, Node):
        return a if a.sort == 'B' else ne(a, 0)
    return bool(a)


def and_(a, b):
    if (isinstance(a, Node) and a.sort == 'I') or (isinstance(b, Node) and b.sort == 'I'):
        if not isinstance(b, Node) and b == 1:
            return mod(a, 2)
        raise Unsupported('bitwise and of symbolic ints')
    a = _asb(a); b = _asb(b)
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if a is b: return a
    return mk('and', (a, b) if a.id < b.id else (b, a), 'B')


def or_(a, b):
    if (isinstance(a, Node) and a.sort == 'I') or (isinstance(b, Node) and b.sort == 'I'):
        raise Unsupported('bitwise or of symbolic ints')
    a = _asb(a); b = _asb(b)
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    if a is b: return a
    return mk('or', (a, b) if a.id < b.id else (b, a), 'B')


def xor_(a, b):
    a = _asb(a); b = _asb(b)
    if a is True: return not_(b)
    if b is True: return not_(a)
    if a is False: return b
    if b is False: return a
    return mk('xor', (a, b), 'B')


def all_(xs):
    r = True
    for x in xs:
        r = and_(r, x)
    return r


def any_(xs):
    r = False
    for x in xs:
        r = or_(r, x)
    return r


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Node) or isinstance(b, Node):
        return False
    return type(a) is type(b) and (a == b)


QUICK = [None]        # decides a condition from the box of the inputs, when it can


FORKS = [False]       # fork on every choice instead of building conditional terms (cases with very few symbols)


def settle(c):
    if not isinstance(c, Node):
        return c
    from . import ctx
    try:
        return ctx.decide(c)
    except Unsupported:
        return c


def fork_sort(xs):
    """The values in order, by deciding comparisons; None where one is left open."""
    out = []
    for x in xs:
        i = len(out)
        while i:
            c = settle(lt(x, out[i - 1]))
            if isinstance(c, Node):
                return None
            if not c:
                break
            i -= 1
        out.insert(i, x)
    return out


def ite(c, a, b):
    if FORKS[0] and isinstance(c, Node) and a is not b:
        c = settle(c)
    if QUICK[0] is not None and isinstance(c, Node):
        t = QUICK[0](c)
        if t is not None:
            return a if t else b
    if not isinstance(c, Node):
        return a if c else b
    if same(a, b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if _special(a) or _special(b):
        from . import ctx
        return a if ctx.decide(c) else b
    sa = sort_of(a); sb = sort_of(b)
    if sa == 'B' and sb == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    a = _b2i(a); b = _b2i(b)
    s = _s2(a, b)
    return mk('ite', (c, a, b), s)


def sort_of(a):
    if isinstance(a, Node): return a.sort
    if type(a) is bool: return 'B'
    if isinstance(a, int): return 'I'
    return 'R'


def minv(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return b if (b < a or b != b) else a
    if _special(a): return a if (a != a or a < 0) else b
    if _special(b): return b if (b != b or b < 0) else a
    return ite(le(a, b), a, b)


def maxv(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return b if (b > a or b != b) else a
    if _special(a): return a if (a != a or a > 0) else b
    if _special(b): return b if (b != b or b > 0) else a
    return ite(le(a, b), b, a)


def to_int_trunc(a):
    if not isinstance(a, Node):
        return int(a)
    if a.sort != 'R':
        return _b2i(a)
    if a.op == 'toreal':
        return a.args[0]
    return mk('trunc', (a,), 'I')


def round_even(x):
    """Nearest whole number, halves to the even one, as numpy rounds."""
    if not isinstance(x, Node):
        return float(round(x))
    if x.sort == 'I':
        return x
    y = add(x, 0.5)
    f = to_real(to_int_floor(y))
    return ite(eq(f, y), mul(to_real(to_int_floor(mul(y, 0.5))), 2.0), f)


def to_int_floor(a):
    if not isinstance(a, Node):
        return math.floor(a)
    if a.sort != 'R':
        return _b2i(a)
    if a.op == 'toreal':
        return a.args[0]
    return mk('floor', (a,), 'I')


def uf(name, *args):
    if not any(isinstance(a, Node) for a in args):
        return _UFC[name](*args)
    return mk('uf', (name,) + tuple(args), 'R')


def rank(k, xs):
    """The k-th smallest (from 0) of a multiset of values; the order they come in does not matter."""
    xs = [norm(x) for x in xs]
    if not any(isinstance(x, Node) for x in xs):
        return sorted(xs)[k]
    if FORKS[0]:
        s = fork_sort(xs)
        if s is not None:
            return s[k]
    sort = 'R' if any(sort_of(x) == 'R' for x in xs) else 'I'
    key = sorted(xs, key=lambda x: (0, x.id) if isinstance(x, Node) else (1, x))
    return mk('rank', (k,) + tuple(key), sort)


def sqrt(a):
    if not isinstance(a, Node):
        return math.sqrt(a) if a >= 0 else math.nan
    if a.op == '*' and a.args[0] is a.args[1]:
        return absv(a.args[0])
    return mk('sqrt', (a,), 'R')


def _c(f):
    def g(*a):
        try:
            return f(*a)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan
    return g


def _logc(x):
    if x == 0: return -math.inf
    if x < 0 or x != x: return math.nan
    return math.log(x)


def _med(*a):
    s = sorted(a)
    return s[len(s) // 2]


_UFC = {'exp': _c(math.exp), 'log': _logc, 'sin': _c(math.sin), 'cos': _c(math.cos), 'pow': _c(math.pow),
        'tan': _c(math.tan), 'atan': math.atan, 'atan2': math.atan2, 'tanh': math.tanh,
        'log10': _c(math.log10), 'expm1': _c(math.expm1), 'log1p': _c(math.log1p), 'hypot': math.hypot}


def register_uf(name, f):
    _UFC[name] = f


# ---------------------------------------------------------------------------------- printing
def show(a, depth=4):
    if not isinstance(a, Node):
        return repr(a)
    if a.op == 'var':
        return a.args[0]
    if depth == 0:
        return '…'
    return '(%s %s)' % (a.op, ' '.join(show(x, depth - 1) for x in a.args))


# ---------------------------------------------------------------------------------- linear form
def lin(a):
    """Node -> {var-node or None: coefficient} when it is linear over opaque atoms, else None.
    Coefficients are exact rationals."""
    if not isinstance(a, Node):
        return {None: Fraction(a)}
    if a._lin != 0:
        return a._lin
    # iterative post-order to keep clear of the recursion limit
    stack = [a]
    while stack:
        n = stack[-1]
        if n._lin != 0:
            stack.pop()
            continue
        if n.op in ('+', '-', 'neg', '*', '/', 'toreal'):
            todo = [x for x in n.args if isinstance(x, Node) and x._lin == 0]
            if todo:
                stack.extend(todo)
                continue
        n._lin = _lin1(n)
        stack.pop()
    return a._lin


def _lin1(n):
    op = n.op
    if op == '+' or op == '-':
        x, y = lin(n.args[0]), lin(n.args[1])
        if x is None or y is None:
            return None
        r = dict(x)
        if op == '+':
            for k, v in y.items():
                r[k] = r.get(k, 0) + v
        else:
            for k, v in y.items():
                r[k] = r.get(k, 0) - v
        return {k: v for k, v in r.items() if v != 0 or k is None}
    if op == 'neg':
        x = lin(n.args[0])
        return None if x is None else {k: -v for k, v in x.items()}
    if op == '*':
        x, y = lin(n.args[0]), lin(n.args[1])
        if x is None or y is None:
            return None
        if set(y) <= {None}:
            x, y = y, x
        if set(x) <= {None}:
            c = x.get(None, Fraction(0))
            return {k: v * c for k, v in y.items()}
        return None
    if op == '/':
        x, y = lin(n.args[0]), lin(n.args[1])
        if x is None or y is None:
            return None
        if set(y) <= {None} and y.get(None, 0) != 0:
            c = y[None]
            return {k: v / c for k, v in x.items()}
        return None
    if op == 'toreal':
        return lin(n.args[0])
    return {n: Fraction(1)}


def lin_z(d):
    """z3 term of a linear form."""
    ts = []
    for k, v in d.items():
        if k is None:
            if v != 0:
                ts.append(_q(v))
        elif v != 0:
            z = toz(k)
            if z.sort() != z3.RealSort():
                z = z3.ToReal(z)
            ts.append(_q(v) * z)
    if not ts:
        return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


# ---------------------------------------------------------------------------------- rational functions of one variable
_rat = {}
MAXDEG = 48


def _pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return tuple(r)


def _padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = list(a)
    for i, y in enumerate(b):
        r[i] += y
    while len(r) > 1 and r[-1] == 0:
        r.pop()
    return tuple(r)


def _ppow(f, k):
    r = (Fraction(1),)
    for _ in range(k):
        r = _pmul(r, f)
    return r


def ratfun(a):
    """(variable or None, numerator, {denominator factor: power}) of a term that is a rational function of one real variable, else None."""
    if not isinstance(a, Node):
        return (None, (Fraction(a),), {}) if a == a and a not in (math.inf, -math.inf) else None
    stack = [a]
    while stack:
        n = stack[-1]
        if n.id in _rat:
            stack.pop()
            continue
        if n.op in ('+', '-', 'neg', '*', '/', 'toreal'):
            todo = [x for x in n.args if isinstance(x, Node) and x.id not in _rat]
            if todo:
                stack.extend(todo)
                continue
        _rat[n.id] = (n, _rat1(n))
        stack.pop()
    return _rat[a.id][1]


def _rat1(n):
    op = n.op
    if op == 'var' and n.sort == 'R':
        return (n, (Fraction(0), Fraction(1)), {})
    if op not in ('+', '-', 'neg', '*', '/', 'toreal'):
        return None
    xs = [ratfun(x) if not isinstance(x, Node) else _rat[x.id][1] for x in n.args]
    if any(x is None for x in xs):
        return None
    if op == 'toreal':
        return xs[0]
    if op == 'neg':
        return (xs[0][0], tuple(-c for c in xs[0][1]), xs[0][2])
    (v, p, d), (w, q, e) = xs
    if v is not None and w is not None and v is not w:
        return None
    v = w if v is None else v
    if op == '*':
        r = (v, _padd(_pmul(p, q), (Fraction(0),)), {f: d.get(f, 0) + e.get(f, 0) for f in set(d) | set(e)})
    elif op == '/':
        if not any(q):
            return None
        lead = q[-1]
        f = tuple(c / lead for c in q)
        num, den = tuple(c / lead for c in p), dict(d)
        for g, k in e.items():
            num = _pmul(num, _ppow(g, k))
        if len(f) > 1:
            den[f] = den.get(f, 0) + 1
        # factors that cancel
        for g, k in e.items():
            c = min(k, den.get(g, 0))
            if c:
                num = tuple(z / lead for z in p)
                for h, m in e.items():
                    num = _pmul(num, _ppow(h, m - c if h is g else m))
                den[g] -= c
                break
        r = (v, num, {g: k for g, k in den.items() if k})
    else:
        if op == '-':
            q = tuple(-c for c in q)
        den = {f: max(d.get(f, 0), e.get(f, 0)) for f in set(d) | set(e)}
        for f, k in den.items():
            p = _pmul(p, _ppow(f, k - d.get(f, 0)))
            q = _pmul(q, _ppow(f, k - e.get(f, 0)))
        r = (v, _padd(p, q), den)
    return r if len(r[1]) <= MAXDEG else None


def rat_cmp(op, a, b):
    """Condition a op b as the sign of a polynomial of one variable (the denominators are nonzero)."""
    if not isinstance(a, Node) and not isinstance(b, Node):
        return None
    x, y = ratfun(a), ratfun(b)
    if x is None or y is None or not (x[2] or y[2]):
        return None
    if x[0] is not None and y[0] is not None and x[0] is not y[0]:
        return None
    v = y[0] if x[0] is None else x[0]
    if v is None:
        return None
    den = {f: max(x[2].get(f, 0), y[2].get(f, 0)) for f in set(x[2]) | set(y[2])}
    p, q = x[1], tuple(-c for c in y[1])
    for f, k in den.items():
        p = _pmul(p, _ppow(f, k - x[2].get(f, 0)))
        q = _pmul(q, _ppow(f, k - y[2].get(f, 0)))
    p = _padd(p, q)
    if op != '=':
        for f, k in den.items():
            if k % 2:
                p = _pmul(p, f)
    p = _padd(p, (Fraction(0),))
    m = max(abs(c) for c in p)
    if m == 0:
        return z3.BoolVal(op != '<')
    z = toz(v)
    e = None
    for c in reversed(p):
        e = _q(c / m) if e is None else e * z + _q(c / m)
    return e < 0 if op == '<' else e <= 0 if op == '<=' else e == 0


_POLYGRID = 1 << 60


def _rounded(p, m):
    """Coefficients on a grid; bound on the change for arguments of magnitude up to m."""
    out, err, top = [], Fraction(0), Fraction(1)
    for c in p:
        r = Fraction(round(c * _POLYGRID), _POLYGRID)
        err += abs(c - r) * top
        top *= m
        out.append(r)
    return out, err


def rat_fail(a, b, tol, box):
    """|a - b| > tol for rational functions of one variable, as signs of polynomials whose coefficients are rounded: a formula
    that holds wherever the exact condition does (the denominators are nonzero). None for other terms."""
    x, y = ratfun(a), ratfun(b)
    if x is None or y is None:
        return None
    if x[0] is not None and y[0] is not None and x[0] is not y[0]:
        return None
    v = y[0] if x[0] is None else x[0]
    if v is None or box.get(v.args[0]) is None:
        return None
    m = Fraction(box[v.args[0]])
    den = {f: max(x[2].get(f, 0), y[2].get(f, 0)) for f in set(x[2]) | set(y[2])}
    p, q, d = x[1], tuple(-c for c in y[1]), (Fraction(1),)
    for f, k in den.items():
        p = _pmul(p, _ppow(f, k - x[2].get(f, 0)))
        q = _pmul(q, _ppow(f, k - y[2].get(f, 0)))
        d = _pmul(d, _ppow(f, k))
    n = _padd(p, q)
    if not any(n):
        return z3.BoolVal(False)
    s = sum(abs(c) * m ** i for i, c in enumerate(d))
    n, en = _rounded([c / s for c in n], m)
    d, ed = _rounded([c / s for c in d], m)
    z = toz(v)

    def poly(cs, extra=0):
        cs = list(cs)
        cs[0] += extra
        while len(cs) > 1 and cs[-1] == 0:
            cs.pop()
        e = None
        for c in reversed(cs):
            e = _q(c) if e is None else e * z + _q(c)
        return e

    def comb(sn, t):
        return _padd(tuple(sn * c for c in n), tuple(-t * c for c in d))
    t = Fraction(tol).limit_denominator(10 ** 12)
    slack = en + t * ed
    plus, minus = poly(comb(1, t), slack), poly(comb(-1, t), slack)          # n - t d, -n - t d
    nplus, nminus = poly(comb(1, -t), slack), poly(comb(-1, -t), slack)      # n + t d, -n + t d
    dz = poly(d)
    return z3.Or(z3.And(dz >= -_q(ed), z3.Or(plus > 0, minus > 0)), z3.And(dz <= _q(ed), z3.Or(nplus > 0, nminus > 0)))


# ---------------------------------------------------------------------------------- to z3
def _q(v):
    v = Fraction(v)
    return z3.RealVal('%d/%d' % (v.numerator, v.denominator))


def cz(x, sort):
    if sort == 'B':
        return z3.BoolVal(bool(x))
    if sort == 'I':
        return z3.IntVal(int(x))
    if type(x) is float and (x != x or x in (math.inf, -math.inf)):
        raise Unsupported('non-finite constant in a real-valued query')
    return _q(x)


_SORT = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}
_uffun = {}
SQRT_DEFS = []       # (node id, z3 var, z3 arg): defining constraints to add to solvers


def toz(a, sort=None):
    if not isinstance(a, Node):
        return cz(a, sort or sort_of(a))
    if a._z is None:
        stack = [a]
        while stack:
            n = stack[-1]
            if n._z is not None:
                stack.pop()
                continue
            if FORKS[0] and n.op in ('<', '<=', '=') and FORKS[0]:
                n._z = _toz1(n)
                stack.pop()
                continue
            todo = [x for x in n.args if isinstance(x, Node) and x._z is None]
            if todo:
                stack.extend(todo)
                continue
            n._z = _toz1(n)
            stack.pop()
    z = a._z
    if sort == 'R' and a.sort == 'I':
        return z3.ToReal(z)
    return z


def _toz1(n):
    op = n.op
    A = n.args
    if op == 'var':
        return z3.Const(A[0], _SORT[n.sort])
    if op in ('+', '-', '*'):
        x, y = toz(A[0], n.sort), toz(A[1], n.sort)
        return x + y if op == '+' else x - y if op == '-' else x * y
    if op == '/':
        return toz(A[0], 'R') / toz(A[1], 'R')
    if op == 'neg':
        return -toz(A[0])
    if op == 'idiv':
        return toz(A[0], 'I') / toz(A[1], 'I')
    if op == 'abs':
        x = toz(A[0])
        return z3.If(x >= 0, x, -x)
    if op in ('<', '<=', '='):
        s = 'R' if 'R' in (sort_of(A[0]), sort_of(A[1])) else 'I'
        if sort_of(A[0]) == 'B' and sort_of(A[1]) == 'B':
            s = 'B'
        if s == 'R' and FORKS[0]:
            r = rat_cmp(op, A[0], A[1])
            if r is not None:
                return r
        x, y = toz(A[0], s), toz(A[1], s)
        return x < y if op == '<' else x <= y if op == '<=' else x == y
    if op == 'not':
        return z3.Not(toz(A[0]))
    if op == 'and':
        return z3.And(toz(A[0], 'B'), toz(A[1], 'B'))
    if op == 'or':
        return z3.Or(toz(A[0], 'B'), toz(A[1], 'B'))
    if op == 'xor':
        return z3.Xor(toz(A[0], 'B'), toz(A[1], 'B'))
    if op == 'ite':
        return z3.If(toz(A[0]), toz(A[1], n.sort), toz(A[2], n.sort))
    if op == 'toreal':
        return z3.ToReal(toz(A[0]))
    if op == 'floor':
        return z3.ToInt(toz(A[0]))
    if op == 'trunc':
        x = toz(A[0])
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    if op == 'sqrt':
        v = z3.Real('sqrt!%d' % n.id)
        SQRT_DEFS.append((n.id, v, toz(A[0])))
        return v
    if op == 'rank':
        return z3.Const('rank!%d' % n.id, _SORT[n.sort])
    if op == 'uf':
        name = A[0]
        f = _uffun.get((name, len(A)))
        if f is None:
            f = _uffun[(name, len(A))] = z3.Function('uf_%s_%d' % (name, len(A) - 1),
                                                    *([z3.RealSort()] * len(A)))
        return f(*[toz(x, 'R') for x in A[1:]])
    raise Unsupported('to z3: ' + op)


def sqrt_axioms(nodes):
    """Defining constraints of every sqrt reachable from nodes."""
    out = []
    seen = set()
    stack = [n for n in nodes if isinstance(n, Node)]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'sqrt':
            v, x = toz(n), toz(n.args[0], 'R')
            out.append(z3.And(v >= 0, z3.Implies(x >= 0, v * v == x)))
        stack.extend(x for x in n.args if isinstance(x, Node))
    return out


def rank_axioms(nodes):
    """Defining constraints of every order statistic reachable from nodes."""
    out = []
    seen = set()
    stack = [n for n in nodes if isinstance(n, Node)]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'rank':
            k = n.args[0]
            xs = [toz(x, n.sort) for x in n.args[1:]]
            r = toz(n)
            out.append(z3.Or([r == x for x in xs]))
            out.append(z3.AtLeast(*[x <= r for x in xs], k + 1))
            out.append(z3.AtLeast(*[x >= r for x in xs], len(xs) - k))
        stack.extend(x for x in n.args if isinstance(x, Node))
    return out


# ---------------------------------------------------------------------------------- evaluation
def evaluate(a, env, cache=None):
    """Concrete value of a term under {var name: value}."""
    if not isinstance(a, Node):
        return a
    if cache is None:
        cache = {}
    stack = [a]
    while stack:
        n = stack[-1]
        if n.id in cache:
            stack.pop()
            continue
        todo = [x for x in n.args if isinstance(x, Node) and x.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        g = [cache[x.id] if isinstance(x, Node) else x for x in n.args]
        op = n.op
        if op == 'var':
            r = env[g[0]]
        elif op == '+': r = g[0] + g[1]
        elif op == '-': r = g[0] - g[1]
        elif op == '*': r = g[0] * g[1]
        elif op == '/': r = div(g[0], g[1])
        elif op == 'idiv': r = g[0] // g[1]
        elif op == 'neg': r = -g[0]
        elif op == 'abs': r = abs(g[0])
        elif op == '<': r = g[0] < g[1]
        elif op == '<=': r = g[0] <= g[1]
        elif op == '=': r = g[0] == g[1]
        elif op == 'not': r = not g[0]
        elif op == 'and': r = g[0] and g[1]
        elif op == 'or': r = g[0] or g[1]
        elif op == 'xor': r = bool(g[0]) != bool(g[1])
        elif op == 'ite': r = g[1] if g[0] else g[2]
        elif op == 'toreal': r = float(g[0]) if not isinstance(g[0], Fraction) else g[0]
        elif op == 'floor': r = math.floor(g[0])
        elif op == 'trunc': r = int(g[0])
        elif op == 'sqrt': r = math.sqrt(g[0]) if g[0] >= 0 else math.nan
        elif op == 'rank': r = sorted(g[1:])[g[0]]
        elif op == 'uf': r = _UFC[g[0]](*[float(x) for x in g[1:]])
        else:
            raise Unsupported('eval ' + op)
        cache[n.id] = r
        stack.pop()
    return cache[a.id]


def variables(a, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [a] if isinstance(a, Node) else []
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'var':
            acc[n.args[0]] = n
        stack.extend(x for x in n.args if isinstance(x, Node))
    return acc
