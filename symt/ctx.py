"""Path exploration: the program under test is re-executed once per feasible sequence of decisions."""
import math
import time
import z3
from . import terms as T
from . import interval

CUR = None


class Infeasible(BaseException):
    pass


class PathLimit(BaseException):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.instr = 0
        self.verdicts = {}


STATS = Stats()


def check(solver, *assumptions):
    t = time.time()
    r = solver.check(*assumptions)
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    k = str(r)
    STATS.verdicts[k] = STATS.verdicts.get(k, 0) + 1
    return r


class Ctx:
    def __init__(self, prefix, assumptions, timeout_ms=20000):
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.pc = list(assumptions)          # Node/bool conditions
        self.solver = z3.SolverFor('QF_AUFLIRA') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        for a in self.pc:
            self.solver.add(T.toz(a, 'B'))
        self.known = {}
        self.ranges = {}
        self.memo = {}
        for a in self.pc:
            self._range(a)
        self.divs = []
        self.guard = None
        self.unknown = 0

    def _range(self, a):
        """Bounds of inputs, read off the assumptions `constant <= input` and `input <= constant`."""
        if isinstance(a, T.Node) and a.op == '<=':
            x, y = a.args
            if isinstance(x, T.Node) and x.op == 'var' and not isinstance(y, T.Node):
                lo, hi = self.ranges.get(x.args[0], (-math.inf, math.inf))
                self.ranges[x.args[0]] = (lo, min(hi, y))
            elif isinstance(y, T.Node) and y.op == 'var' and not isinstance(x, T.Node):
                lo, hi = self.ranges.get(y.args[0], (-math.inf, math.inf))
                self.ranges[y.args[0]] = (max(lo, x), hi)

    def bound(self, v, lo, hi):
        """A fresh symbol of this path with its range."""
        self.ranges[v.args[0]] = (lo, hi)
        for a in (T.le(lo, v), T.le(v, hi)):
            self.pc.append(a)
            self.solver.add(T.toz(a))

    def add(self, cond):
        self.pc.append(cond)
        if isinstance(cond, T.Node):
            self.solver.add(T.toz(cond))
            for ax in T.sqrt_axioms([cond]):
                self.solver.add(ax)
        elif not cond:
            raise Infeasible()

    def decide(self, cond):
        if not isinstance(cond, T.Node):
            return bool(cond)
        neg = cond.op == 'not'
        key = cond.args[0].id if neg else cond.id
        if key in self.known:
            return self.known[key] != neg
        STATS.decisions += 1
        i = len(self.trace)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
        elif (quick := interval.truth(cond, self.ranges, self.memo)) is not None:
            v, forced = quick, True
        else:
            z = T.toz(cond)
            axs = T.sqrt_axioms([cond])
            for ax in axs:
                self.solver.add(ax)
            rt = check(self.solver, z)
            if rt == z3.unsat:
                v, forced = False, True
            else:
                rf = check(self.solver, z3.Not(z))
                if rf == z3.unsat:
                    v, forced = True, True
                else:
                    v, forced = True, False
                    self.alts.append(list(self.trace) + [(False, False)])
                if z3.unknown in (rt, rf):
                    self.unknown += 1
        self.trace.append((v, forced))
        c = cond if v else T.not_(cond)
        if not forced:
            self.add(c)
        self.known[key] = (v != neg)
        return v

    def implied(self, cond):
        """Is the condition forced by the path? (A forced branch is not merged.)"""
        i = len(self.trace)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
            if forced == 'free':
                self.trace.append((v, forced))
                return False
            self.decide(cond)
            return True
        z = T.toz(cond)
        for ax in T.sqrt_axioms([cond]):
            self.solver.add(ax)
        v = False if check(self.solver, z) == z3.unsat else True if check(self.solver, z3.Not(z)) == z3.unsat else None
        if v is not None:
            self.trace.append((v, True))
            neg = cond.op == 'not'
            self.known[cond.args[0].id if neg else cond.id] = (v != neg)
            return True
        self.trace.append((True, 'free'))
        return False

    def concretize(self, n, limit=4096):
        """Pick a value for an integer term, forking over all feasible ones."""
        if not isinstance(n, T.Node):
            return n
        k = ('c', n.id)
        if k in self.known:
            return self.known[k]
        for _ in range(limit):
            i = len(self.trace)
            if i < len(self.prefix) and self.prefix[i][1] == 'val':
                val = self.prefix[i][0]
                self.trace.append((val, 'val'))
            else:
                r = check(self.solver)
                if r != z3.sat:
                    raise T.Unsupported('concretize: solver says %s' % r)
                val = self.solver.model().eval(T.toz(n), model_completion=True).as_long()
                self.trace.append((val, 'val'))
            if self.decide(T.eq(n, val)):
                self.known[k] = val
                return val
        raise T.Unsupported('concretize: too many values')


def decide(cond):
    if CUR is None:
        raise T.Unsupported('a symbolic condition was branched on outside path exploration')
    return CUR.decide(cond)


def concretize(n):
    if CUR is None:
        raise T.Unsupported('a symbolic integer was used outside path exploration')
    return CUR.concretize(n)


def note_div(b):
    if CUR is not None:
        g = CUR.guard
        CUR.divs.append(b if g is None else T.or_(T.not_(g), T.ne(b, 0)))


class PathResult:
    __slots__ = ('value', 'exc', 'pc', 'divs', 'unknown', 'ctx')


def explore(fn, assumptions=(), max_paths=20000, deadline=None, on_path=None):
    """Run fn() on every feasible path. Yields PathResult. fn's ordinary exceptions are outcomes."""
    global CUR
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        c = Ctx(prefix, assumptions)
        old = CUR
        CUR = c
        r = PathResult()
        r.exc = None
        r.value = None
        try:
            try:
                r.value = fn()
            except Infeasible:
                continue
            except T.Unsupported:
                raise
            except Exception as e:
                r.exc = e
        finally:
            CUR = old
            work.extend(c.alts)
        STATS.paths += 1
        n += 1
        r.pc = c.pc
        r.divs = c.divs
        r.unknown = c.unknown
        r.ctx = c
        yield r
        if n >= max_paths and work:
            raise T.Unsupported('path limit %d reached with %d prefixes open' % (max_paths, len(work)))
        if deadline and time.time() > deadline and work:
            raise T.Unsupported('deadline reached after %d paths with %d prefixes open' % (n, len(work)))


def _quick(c):
    cur = CUR
    if cur is None or not cur.ranges:
        return None
    return interval.truth(c, cur.ranges, cur.memo)


T.QUICK[0] = _quick
