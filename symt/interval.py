"""Sound interval bounds of terms over the box of the inputs: a pre-check that saves solver calls on sign decisions."""
import math
from .terms import Node

INF = math.inf
TOP = (-INF, INF, True, True)


def dn(x): return math.nextafter(x, -INF) if math.isfinite(x) else x
def up(x): return math.nextafter(x, INF) if math.isfinite(x) else x


def addd(x, y):
    s = x + y
    return s if (x == 0 or y == 0 or not math.isfinite(s)) else dn(s)


def addu(x, y):
    s = x + y
    return s if (x == 0 or y == 0 or not math.isfinite(s)) else up(s)


def const(v):
    try:
        f = float(v)
    except OverflowError:
        return TOP
    if f != f:
        return TOP
    if f == v:
        return (f, f, False, False)
    return (dn(f), up(f), False, False)


def _mul1(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def mulI(x, y):
    c = [(_mul1(a, b), ao or bo, (a == 0 and not ao) or (b == 0 and not bo)) for a, ao in ((x[0], x[2]), (x[1], x[3])) for b, bo in ((y[0], y[2]), (y[1], y[3]))]
    lo = min(v for v, _, _ in c)
    hi = max(v for v, _, _ in c)
    lo_open = all(o and not z for v, o, z in c if v == lo)
    hi_open = all(o and not z for v, o, z in c if v == hi)
    # zero times an unbounded end: the end value stays zero
    return (dn(lo) if lo else lo, up(hi) if hi else hi, lo_open, hi_open)


def divI(x, y):
    if y[0] > 0 or (y[0] == 0 and y[2]):
        r = (0.0 if y[1] == INF else dn(1 / y[1]), INF if y[0] == 0 else up(1 / y[0]), y[1] == INF or y[3], y[2] or y[0] == 0)
    elif y[1] < 0 or (y[1] == 0 and y[3]):
        q = divI((1.0, 1.0, False, False), (-y[1], -y[0], y[3], y[2]))
        r = (-q[1], -q[0], q[3], q[2])
    else:
        return TOP
    return mulI(x, r)


def of(a, ranges, memo):
    if not isinstance(a, Node):
        return const(a)
    st = [a]
    while st:
        n = st[-1]
        if n.id in memo:
            st.pop()
            continue
        todo = [x for x in n.args if isinstance(x, Node) and x.id not in memo] if n.op in _REC else []
        if todo:
            st.extend(todo)
            continue
        memo[n.id] = _one(n, ranges, memo)
        st.pop()
    return memo[a.id]


_REC = {'+', '-', '*', '/', 'neg', 'abs', 'sqrt', 'ite', 'toreal', 'rank'}


def _g(x, memo):
    return memo[x.id] if isinstance(x, Node) else const(x)


def _one(n, ranges, memo):
    op, A = n.op, n.args
    if op == 'var':
        r = ranges.get(A[0])
        return (float(r[0]), float(r[1]), False, False) if r else TOP
    if op == '+':
        x, y = _g(A[0], memo), _g(A[1], memo)
        return (addd(x[0], y[0]), addu(x[1], y[1]), x[2] or y[2], x[3] or y[3])
    if op == '-':
        x, y = _g(A[0], memo), _g(A[1], memo)
        return (addd(x[0], -y[1]), addu(x[1], -y[0]), x[2] or y[3], x[3] or y[2])
    if op == 'neg':
        x = _g(A[0], memo)
        return (-x[1], -x[0], x[3], x[2])
    if op == '*':
        x, y = _g(A[0], memo), _g(A[1], memo)
        if A[0] is A[1]:
            if x[0] >= 0:
                return mulI(x, x)
            if x[1] <= 0:
                return mulI(x, x)
            m = max(-x[0], x[1])
            return (0.0, up(m * m), False, False)
        return mulI(x, y)
    if op == '/':
        return divI(_g(A[0], memo), _g(A[1], memo))
    if op == 'abs':
        x = _g(A[0], memo)
        if x[0] >= 0:
            return x
        if x[1] <= 0:
            return (-x[1], -x[0], x[3], x[2])
        return (0.0, max(-x[0], x[1]), False, max(-x[0], x[1]) == INF)
    if op == 'sqrt':
        x = _g(A[0], memo)
        lo = max(0.0, x[0])
        return (max(0.0, dn(math.sqrt(lo))), up(math.sqrt(x[1])) if x[1] >= 0 and x[1] < INF else INF, False, x[1] == INF)
    if op == 'ite':
        x, y = _g(A[1], memo), _g(A[2], memo)
        lo, hi = min(x[0], y[0]), max(x[1], y[1])
        return (lo, hi, all(z[2] for z in (x, y) if z[0] == lo), all(z[3] for z in (x, y) if z[1] == hi))
    if op == 'toreal':
        return _g(A[0], memo)
    if op == 'rank':
        xs = [_g(x, memo) for x in A[1:]]
        lo, hi = sorted(x[0] for x in xs)[A[0]], sorted(x[1] for x in xs)[A[0]]
        return (lo, hi, False, False)
    if op == 'uf' and A[0] == 'exp':
        return (0.0, INF, True, True)
    return TOP


def truth(c, ranges, memo):
    """True / False when the box forces a comparison, else None."""
    if not isinstance(c, Node):
        return bool(c)
    if c.op == 'not':
        t = truth(c.args[0], ranges, memo)
        return None if t is None else not t
    if c.op in ('and', 'or'):
        x, y = truth(c.args[0], ranges, memo), truth(c.args[1], ranges, memo)
        if c.op == 'and':
            return False if x is False or y is False else True if x and y else None
        return True if x or y else False if x is False and y is False else None
    if c.op not in ('<', '<=', '='):
        return None
    if any(getattr(x, 'sort', 'R') == 'B' for x in c.args if isinstance(x, Node)):
        return None
    x, y = of(c.args[0], ranges, memo), of(c.args[1], ranges, memo)
    below = x[1] < y[0] or (x[1] == y[0] and (x[3] or y[2]) and math.isfinite(x[1]))     # x < y always
    above = y[1] < x[0] or (y[1] == x[0] and (y[3] or x[2]) and math.isfinite(y[1]))     # x > y always
    if c.op == '<':
        if below: return True
        if x[0] >= y[1] and math.isfinite(x[0]): return False
    elif c.op == '<=':
        if x[1] <= y[0] and math.isfinite(x[1]): return True
        if above: return False
    else:
        if below or above: return False
    return None
