"""Cases, the symbolic run of a case, and its concrete run on the unmodified library.

A case names inputs (symbolic arrays with a box), an `impl` that calls the public tomopy code, and a
`check` that yields (label, condition).  The same `impl` and `check` run
  * symbolically: conditions are terms, decided by the solver for every value of the inputs, and
  * concretely:   on the real library, to replay a counterexample and to validate the encoding.
"""
import math
import os
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import terms as T
from . import ctx as C
from .ir import MemError, Undef

Node = T.Node


class Sym:
    """A symbolic array input. `free`: indices that are symbolic (default all); others come from `base`.
    `tie(ix)` may map several elements to one symbol."""
    def __init__(self, shape, dtype='f4', lo=0.0, hi=1.0, base=None, free=None, tie=None, fill=None, kind=None):
        self.shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        self.dtype = np.dtype(dtype)
        self.lo, self.hi = lo, hi
        self.base = base
        self.free = None if free is None else set(tuple(f) if isinstance(f, (tuple, list)) else (f,) for f in free)
        self.tie = tie

    def key(self, ix):
        return self.tie(ix) if self.tie else ix

    def symbolic(self, name):
        from . import snp
        a = np.empty(self.shape, dtype=object)
        box = []
        seen = set()
        sort = {'f': 'R', 'i': 'I', 'u': 'I', 'b': 'B'}[self.dtype.kind]
        for ix in np.ndindex(*self.shape):
            if self.free is not None and ix not in self.free:
                b = self.base[ix] if self.base is not None else 0
                a[ix] = snp.cast1(b.item() if hasattr(b, 'item') else b, self.dtype)
                continue
            k = self.key(ix)
            v = T.var('%s[%s]' % (name, ','.join(map(str, k))), sort)
            a[ix] = v
            if v.id not in seen and sort != 'B':
                seen.add(v.id)
                if self.lo is not None:
                    box.append(T.le(self.lo, v))
                if self.hi is not None:
                    box.append(T.le(v, self.hi))
        return snp._wrap(a, self.dtype), box

    def concrete(self, name, env):
        """env: symbol name -> value."""
        a = np.zeros(self.shape, dtype=self.dtype)
        for ix in np.ndindex(*self.shape):
            if self.free is not None and ix not in self.free:
                a[ix] = self.base[ix] if self.base is not None else 0
                continue
            k = self.key(ix)
            v = env.get('%s[%s]' % (name, ','.join(map(str, k))))
            if v is None:
                v = self.default()
            a[ix] = v
        return a

    def default(self):
        if self.dtype.kind == 'b':
            return False
        lo = self.lo if self.lo is not None else 0
        return lo if self.dtype.kind == 'f' else int(lo)

    def names(self, name):
        out = []
        for ix in np.ndindex(*self.shape):
            if self.free is not None and ix not in self.free:
                continue
            n = '%s[%s]' % (name, ','.join(map(str, self.key(ix))))
            if n not in out:
                out.append(n)
        return out

    def sample(self, rng):
        if self.dtype.kind == 'b':
            return bool(rng.randint(2))
        lo = -1.0 if self.lo is None else self.lo
        hi = 1.0 if self.hi is None else self.hi
        if self.dtype.kind in 'iu':
            return int(rng.randint(int(lo), int(hi) + 1))
        return float(np.float32(lo + (hi - lo) * rng.rand())) if self.dtype.itemsize == 4 else float(lo + (hi - lo) * rng.rand())


class SymScalar(Sym):
    """A symbolic Python scalar ('f8' real, 'i8' int)."""
    def __init__(self, dtype='i8', lo=0, hi=8):
        super().__init__((1,), dtype, lo, hi)

    def symbolic(self, name):
        a, box = super().symbolic(name)
        return a.view(np.ndarray)[0], box

    def concrete(self, name, env):
        v = super().concrete(name, env)[0]
        return v.item()


class Case:
    def __init__(self, name, inputs, impl, check, assume=None, allow=(), funcs=(), bounds='', order='fifo', max_paths=4000,
                 samples=2, nonzero_divs=False, timeout=None, validate=True, memcheck=False, sample_filter=None, must_raise=None, cpus=None, forks=False):
        self.name = name
        self.inputs = inputs
        self.impl = impl
        self.check = check
        self.assume = assume
        self.allow = allow
        self.funcs = list(funcs)
        self.bounds = bounds
        self.order = order
        self.max_paths = max_paths
        self.samples = samples
        self.nonzero_divs = nonzero_divs
        self.forks = forks
        self.timeout = timeout
        self.validate = validate
        self.memcheck = memcheck
        self.sample_filter = sample_filter
        self.cpus = cpus


# ------------------------------------------------------------------------------------ oracle helpers
class Close:
    """|a-b| <= tol (+ rtol*|b|), kept apart so that a clearer counterexample can be asked for."""
    __slots__ = ('a', 'b', 'tol', 'rtol', 'unless')
    def __init__(self, a, b, tol, rtol, unless=False): self.a, self.b, self.tol, self.rtol, self.unless = a, b, tol, rtol, unless
    def __bool__(self):
        raise TypeError('a comparison with a tolerance is not a truth value')


def close(a, b, tol=1e-4, rtol=0.0, unless=False):
    """unless: nothing is claimed where this holds."""
    return Close(a, b, tol, rtol, unless)


def sc(x):
    """Scalar of either world."""
    if isinstance(x, (Node, float, int, bool, Fraction, Undef)):
        return x
    return T.norm(x)


def holds(c):
    """Truth of a condition over concrete values."""
    if isinstance(c, Close):
        if c.unless is not False and bool(c.unless):
            return True
        a, b = c.a, c.b
        if isinstance(a, Undef) or isinstance(b, Undef):
            return False
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= c.tol + c.rtol * abs(b)
    return bool(c)


def arrays_close(label, A, B, tol=1e-4, rtol=0.0):
    """Elementwise closeness of an output array and a specified array (or nested list)."""
    if not isinstance(A, np.ndarray):
        yield (label + ': result is an array', False)
        return
    shp = np.shape(B) if isinstance(B, np.ndarray) else np.array(B, dtype=object).shape
    if tuple(A.shape) != tuple(shp):
        yield ('%s: shape %s instead of %s' % (label, tuple(A.shape), tuple(shp)), False)
        return
    Bo = np.asarray(B, dtype=object) if not isinstance(B, np.ndarray) else B
    Ap = A.view(np.ndarray)
    Bp = Bo.view(np.ndarray)
    for ix in np.ndindex(*A.shape):
        yield ('%s%s' % (label, list(ix)), Close(sc(Ap[ix]), sc(Bp[ix]), tol, rtol))


BOX = {}          # input symbol -> largest magnitude allowed by its box
_GRID = 1 << 36


def round_lin(d):
    """Coefficients on a 2^-36 grid, with a bound on what that changes over the box of the inputs. A query over the
    rounded form with the tolerance reduced by that bound can only report more, never less."""
    out, err = {}, Fraction(0)
    for k, v in d.items():
        m = 1 if k is None else BOX.get(k.args[0]) if k.op == 'var' else None
        if m is None:
            out[k] = v
            continue
        r = Fraction(round(v * _GRID), _GRID)
        err += abs(v - r) * m
        if r != 0:
            out[k] = r
    return out, Fraction(math.ceil(err * _GRID), _GRID)


def zfail(c, scale=1):
    """z3 formula of the negation of a condition; None when it cannot fail."""
    if isinstance(c, Close) and c.unless is not False:
        if c.unless is True:
            return None
        z = zfail(Close(c.a, c.b, c.tol, c.rtol), scale)
        return None if z is None else z3.And(z, z3.Not(T.toz(c.unless, 'B')))
    if isinstance(c, Close):
        a, b, tol = c.a, c.b, c.tol * scale
        if isinstance(a, Undef) or isinstance(b, Undef):
            return z3.BoolVal(True)
        if not isinstance(a, Node) and not isinstance(b, Node):
            cc = Close(a, b, tol, c.rtol * scale)
            return None if holds(cc) else z3.BoolVal(True)
        for x in (a, b):
            if isinstance(x, float) and not math.isfinite(x):
                return z3.BoolVal(True)
        if a is b:
            return z3.BoolVal(False)     # one and the same term
        la, lb = T.lin(a), T.lin(b)
        if la is not None and lb is not None:
            d = dict(la)
            for k, v in lb.items():
                d[k] = d.get(k, 0) - v
            # atoms that are not plain inputs keep their own z3 term
            d, err = round_lin(d)
            zd = T.lin_z(d)
            bound = T._q(Fraction(tol).limit_denominator(10**12) - err)
            if c.rtol:
                zb = T.lin_z(lb)
                bound = bound + T._q(Fraction(c.rtol * scale).limit_denominator(10**12)) * z3.If(zb >= 0, zb, -zb)
            return z3.Or(zd > bound, -zd > bound)
        if not c.rtol:
            zr = T.rat_fail(a, b, tol, BOX)
            if zr is not None:
                return zr
        zd = T.toz(T.sub(a, b), 'R')
        bound = T._q(Fraction(tol).limit_denominator(10**12))
        if c.rtol:
            zb = T.toz(b, 'R')
            bound = bound + T._q(Fraction(c.rtol * scale).limit_denominator(10**12)) * z3.If(zb >= 0, zb, -zb)
        return z3.Or(zd > bound, -zd > bound)
    if isinstance(c, Node):
        return z3.Not(T.toz(c if c.sort == 'B' else T.ne(c, 0)))
    return None if bool(c) else z3.BoolVal(True)


def cond_nodes(c):
    if isinstance(c, Close):
        return [x for x in (c.a, c.b, c.unless) if isinstance(x, Node)]
    return [c] if isinstance(c, Node) else []


# ------------------------------------------------------------------------------------ symbolic run
def sym_inputs(case):
    X = {}
    box = []
    for n, s in case.inputs.items():
        if isinstance(s, Sym):
            v, b = s.symbolic(n)
            X[n] = v
            box += b
        else:
            X[n] = s
    return X, box


def conc_inputs(case, env):
    return {n: (s.concrete(n, env) if isinstance(s, Sym) else s) for n, s in case.inputs.items()}


def sample_env(case, rng):
    env = {}
    for n, s in case.inputs.items():
        if isinstance(s, Sym):
            for k in s.names(n):
                env[k] = s.sample(rng)
    return env


def _val(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(12)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    raise T.Unsupported('model value')


def model_env(case, m):
    env = {}
    for n, s in case.inputs.items():
        if isinstance(s, Sym):
            sort = {'f': 'R', 'i': 'I', 'u': 'I', 'b': 'B'}[s.dtype.kind]
            for k in s.names(n):
                v = _val(m, z3.Const(k, T._SORT[sort]))
                if isinstance(v, Fraction):
                    v = float(v)
                env[k] = v
    return env


def copy_in(X):
    return {k: (v.copy('K') if isinstance(v, np.ndarray) else v) for k, v in X.items()}


def run_symbolic(case, tp, budget=60.0, sample_envs=()):
    """Decide a case. Returns a result dict (picklable)."""
    from . import bridge
    st0 = (C.STATS.queries, C.STATS.solver_s, C.STATS.paths, C.STATS.instr)
    t0 = time.time()
    deadline = t0 + budget
    res = {'case': case.name, 'status': 'held', 'cex': [], 'why': '', 'conds': 0, 'paths': 0, 'unknown': 0, 'samples': [],
           'calls': [], 'vacuity': None, 'bounds': case.bounds, 'order': case.order}
    try:
        bridge.reset()
        bridge.ORDER[0] = case.order
        bridge.CPUS[0] = case.cpus or 8
        X, box = sym_inputs(case)
        BOX.clear()
        for n, sy in case.inputs.items():
            if isinstance(sy, Sym) and sy.dtype.kind == 'f' and sy.lo is not None and sy.hi is not None:
                for nm in sy.names(n):
                    BOX[nm] = Fraction(max(abs(sy.lo), abs(sy.hi)))
        assumptions = list(box)
        if case.assume:
            assumptions += [c for c in case.assume(X) if c is not True]
        reach = False
        calls = set()

        def body():
            bridge.reset()
            bridge.ORDER[0] = case.order
            T.FORKS[0] = case.forks
            try:
                return case.impl(tp, copy_in(X))
            finally:
                T.FORKS[0] = False

        pending = list(range(len(sample_envs)))
        for r in C.explore(body, assumptions, case.max_paths, deadline):
            calls.update(bridge.TRACE_CALLS)
            res['paths'] += 1
            res['unknown'] += r.unknown
            s = z3.Solver()
            s.set('timeout', int(max(2000, min(60000, (deadline - time.time()) * 1000))))
            for a in r.pc:
                s.add(T.toz(a, 'B') if isinstance(a, Node) else z3.BoolVal(bool(a)))
            for ax in T.sqrt_axioms(r.pc):
                s.add(ax)
            if not reach:
                # reachability twin: the path to the assertion must be satisfiable
                reach = C.check(s) == z3.sat
            if r.exc is not None:
                if case.allow and isinstance(r.exc, case.allow):
                    continue
                if C.check(s) == z3.sat:
                    res['cex'].append({'label': 'exception %s: %s' % (type(r.exc).__name__, r.exc), 'env': model_env(case, s.model()),
                                       'mem': isinstance(r.exc, MemError),
                                       'tb': ''.join(traceback.format_exception(r.exc)[-3:])[-1500:]})
                    if len(res['cex']) >= 3:
                        break
                continue
            if not case.nonzero_divs:
                # results of divisions are specified only where the divisor is not zero
                for d in r.divs:
                    s.add(T.toz(d) if d.sort == 'B' else T.toz(d, 'R') != 0)
            # the oracle may branch too: every decision the path leaves open is followed both ways
            todo, forks, base = [[]], 0, list(s.assertions())
            while todo and len(res['cex']) < 2:
                forks += 1
                if forks > 256:
                    raise T.Unsupported('more than 256 ways through the oracle')
                if time.time() > deadline:
                    raise T.Unsupported('time budget of %ds used up' % budget)
                if forks > 1:
                    s = z3.Solver()
                    s.set('timeout', int(max(2000, min(60000, (deadline - time.time()) * 1000))))
                    s.add(base)
                pending = _judge(case, res, r, s, X, todo.pop(), todo, pending, sample_envs, deadline, budget)
            if len(res['cex']) >= 2:
                break
        res['vacuity'] = reach
        res['calls'] = sorted(calls)
        if res['cex']:
            res['status'] = 'cex'
        elif res['unknown']:
            res['status'] = 'inconclusive'
            res['why'] = '%d unknown solver answers' % res['unknown']
        elif not reach:
            res['status'] = 'inconclusive'
            res['why'] = 'assertion not reached on any feasible path'
    except T.Unsupported as e:
        res['status'] = 'cex' if res['cex'] else 'inconclusive'
        res['why'] = 'encoding: %s' % e
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except RecursionError as e:
        res['status'] = 'inconclusive'
        res['why'] = 'recursion limit'
    except Exception as e:
        res['status'] = 'cex' if res['cex'] else 'inconclusive'
        res['why'] = 'harness: %s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()[-2000:]
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    finally:
        C.CUR = None
    res['queries'] = C.STATS.queries - st0[0]
    res['solver_s'] = C.STATS.solver_s - st0[1]
    res['instr'] = C.STATS.instr - st0[3]
    res['wall'] = time.time() - t0
    return res


def _judge(case, res, r, s, X, prefix, todo, pending, sample_envs, deadline, budget):
    """Decide the conditions of the oracle on one path."""
    C.CUR = _CheckCtx(s, r.ctx, prefix, todo)
    T.FORKS[0] = case.forks
    try:
        conds = list(case.check(X, r.value))
    finally:
        C.CUR = None
        T.FORKS[0] = False
    res['conds'] += len(conds)
    if case.nonzero_divs:
        for d in r.divs:
            conds.append(('divisor is not zero', d if d.sort == 'B' else T.ne(d, 0)))
    nodes = [n for _, c in conds for n in cond_nodes(c)]
    for ax in T.sqrt_axioms(nodes):
        s.add(ax)
    # encoding validation at sample points
    for k in list(pending):
        env = sample_envs[k]
        try:
            if all(T.evaluate(c, env) for c in r.pc):
                res['samples'].append((k, flat_eval(r.value, env)))
                pending.remove(k)
        except (KeyError, T.Unsupported, OverflowError, ZeroDivisionError):
            pending.remove(k)
    zs = [(l, c, zfail(c)) for l, c in conds]
    zs = [(l, c, z) for l, c, z in zs if z is not None]
    for i in range(0, len(zs), 48):
        part = zs[i:i + 48]
        if time.time() > deadline:
            raise T.Unsupported('time budget of %ds used up' % budget)
        if any(z3.is_true(z) for _, _, z in part):
            part = [p for p in part if z3.is_true(p[2])][:1]
        q = z3.Or([z for _, _, z in part]) if len(part) > 1 else part[0][2]
        v = C.check(s, q)
        if v == z3.unsat:
            continue
        if v == z3.unknown:
            # one by one
            for l, c, z in part:
                v1 = C.check(s, z)
                if v1 == z3.unknown:
                    res['unknown'] += 1
                elif v1 == z3.sat:
                    _cex(case, res, s, l, c)
                    break
            if res['cex']:
                break
            continue
        rk = T.rank_axioms([n for _, c, _ in part for n in cond_nodes(c)] + [a for a in r.pc if isinstance(a, Node)])
        if rk:
            # order statistics were free so far: decide again with their definition
            for a in rk:
                s.add(a)
            v = C.check(s, q)
            if v == z3.unsat:
                continue
            if v == z3.unknown:
                res['unknown'] += 1
                continue
        m = s.model()
        bad = [(l, c) for l, c, z in part if z3.is_true(m.eval(z, model_completion=True))] or [(part[0][0], part[0][1])]
        _cex(case, res, s, bad[0][0], bad[0][1], m)
        break
    return pending


def settled(c):
    """c as a plain truth value where the path under examination decides it."""
    try:
        return c if C.CUR is None or not isinstance(c, Node) else C.CUR.settle(c)
    except T.Unsupported:
        return c


class _CheckCtx:
    """Decisions inside an oracle: forced ones are answered, others are taken as listed and the alternatives noted."""
    def __init__(self, s, c, prefix=(), todo=None):
        self.s = s
        self.prefix = list(prefix)
        self.taken = []
        self.todo = todo
        self.divs = []
        self.guard = None
        self.ranges, self.memo = c.ranges, c.memo
        self.known = dict(c.known)

    def decide(self, c):
        try:
            return self.settle(c)
        except T.Unsupported:
            if self.todo is None:
                raise
        neg = c.op == 'not'
        n = c.args[0] if neg else c
        if len(self.taken) < len(self.prefix):
            v = self.prefix[len(self.taken)]
        else:
            v = True
            self.todo.append(self.taken + [False])
        self.taken.append(v)
        self.known[n.id] = v
        z = T.toz(n)
        self.s.add(z if v else z3.Not(z))
        for ax in T.sqrt_axioms([n]):
            self.s.add(ax)
        return v != neg

    def settle(self, c):
        if not isinstance(c, Node):
            return bool(c)
        neg = c.op == 'not'
        k = c.args[0].id if neg else c.id
        if k not in self.known:
            self.known[k] = self._decide(c.args[0] if neg else c)
        v = self.known[k]
        if v is None:
            raise T.Unsupported('oracle branches on a symbolic value')
        return v != neg

    def _decide(self, c):
        if C.check(self.s, T.toz(c)) == z3.unsat:
            return False
        if C.check(self.s, z3.Not(T.toz(c))) == z3.unsat:
            return True
        return None
    def concretize(self, n):
        raise T.Unsupported('oracle needs a concrete integer')


def _cex(case, res, s, label, c, m=None):
    """Look for a counterexample with a wide margin; falls back to the one at hand."""
    best = m if m is not None else s.model()
    if isinstance(c, Close):
        for scale in (1000, 30, 4):
            z = zfail(c, scale)
            if z is None:
                continue
            s.push()
            s.set('timeout', 8000)
            s.add(z)
            if C.check(s) == z3.sat:
                best = s.model()
                s.pop()
                break
            s.pop()
    res['cex'].append({'label': label, 'env': model_env(case, best), 'mem': False})


def flat_eval(v, env, cache=None):
    """Structure of terms -> structure of numbers."""
    cache = {} if cache is None else cache
    if isinstance(v, np.ndarray):
        return np.array([_fe(x, env, cache) for x in v.view(np.ndarray).flat], dtype=object).reshape(v.shape)
    if isinstance(v, (tuple, list)):
        return [flat_eval(x, env, cache) for x in v]
    if isinstance(v, dict):
        return {k: flat_eval(x, env, cache) for k, x in v.items()}
    if isinstance(v, Node):
        return _fe(v, env, cache)
    return v if isinstance(v, (int, float, bool, str, type(None))) else None


def _fe(x, env, cache):
    if isinstance(x, Node):
        r = T.evaluate(x, env, cache)
        return float(r) if isinstance(r, Fraction) else r
    if hasattr(x, '_is_csym'):
        return complex(_fe(x.re, env, cache), _fe(x.im, env, cache))
    if isinstance(x, Undef):
        return math.nan
    return x


def compare_values(a, b, path='', out=None, tol=2e-3):
    """Encoding validation: structures a (terms evaluated) and b (real run)."""
    out = [] if out is None else out
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            out.append('%s shape %s / %s' % (path, a.shape, b.shape))
            return out
        scale = 1.0
        try:
            m = np.abs(b.astype(complex))
            m = m[np.isfinite(m)]
            scale = max(1.0, float(m.max()) if m.size else 1.0)
        except (TypeError, ValueError):
            pass
        for ix in np.ndindex(*a.shape):
            x, y = a[ix], b[ix]
            try:
                if (x != x and y != y) or x == y:
                    continue
                if not abs(complex(x) - complex(y)) <= tol * scale:
                    out.append('%s%s %r / %r' % (path, list(ix), x, y))
            except (TypeError, ValueError, OverflowError):
                pass
        return out
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            out.append('%s length' % path)
            return out
        for i, (x, y) in enumerate(zip(a, b)):
            compare_values(x, y, '%s.%d' % (path, i), out, tol)
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k in b:
                compare_values(a[k], b[k], '%s.%s' % (path, k), out, tol)
        return out
    if isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool, np.generic)):
        if (a != a and b != b) or a == b:
            return out
        if not abs(a - b) <= tol * max(1.0, abs(b)):
            out.append('%s %r / %r' % (path, a, b))
    return out
