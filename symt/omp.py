"""OpenMP regions: every iteration of a work-sharing loop is a thread of its own, run one after the other with its
accesses to shared memory recorded; the solver then decides whether two different iterations can touch one byte, at
least one of them writing, between two barriers. Without such a pair the result is that of every schedule."""
import z3
from . import ctx as C
from . import ir
from .terms import Unsupported

CUR = [None]          # region under way
STATS = {'regions': 0, 'accesses': 0}


class Region:
    def __init__(self, name):
        self.name = name
        self.t = 0
        self.omp = False      # a loop, not the tasks of a pool
        self.n = 1
        self.phase = 0
        self.locked = 0
        self.local = {}
        self.acc = {}         # phase -> id(memory) -> thread -> [reads, writes]
        self.mem = {}
        self.keep = {}        # no address is used twice
        self.outer = None

    def note(self, m, off, n, w):
        a0 = (off, n, w)
        if self.locked or id(m) in self.local or m.kind == 'const':
            return
        off = off if off.__class__ is int else C.concretize(off)
        k = id(m)
        if m.__class__ is ir.ArrMem:        # several views of one array may overlap
            k = 'arrays'
            u = m.arr.dtype.itemsize
            e = off + n
            off = m.arr.__array_interface__['data'][0] + off // m.es * u
            n = m.arr.__array_interface__['data'][0] + -(-e // m.es) * u - off
        self.mem[k] = m
        self.keep[id(m)] = m
        if self.outer is not None:
            self.outer.note(m, *a0)
        self.acc.setdefault(self.phase, {}).setdefault(k, {}).setdefault(self.t, [set(), set()])[w].add((off, n))

    def solve(self):
        STATS['regions'] += 1
        for phase, mems in self.acc.items():
            s = z3.Solver()
            s.set('timeout', 60000)
            a, b, m, x = z3.Ints('a b m x')
            W, A = [], []
            for j, (k, per) in enumerate(mems.items()):
                if len(per) < 2 or not any(v[1] for v in per.values()):
                    continue
                for t, (r, w) in per.items():
                    STATS['accesses'] += len(r) + len(w)
                    if w:
                        W.append(z3.And(a == t, m == j, _in(x, w)))
                    A.append(z3.And(b == t, m == j, _in(x, r | w)))
            if not W:
                continue
            s.add(a != b, z3.Or(W), z3.Or(A))
            v = C.check(s)
            if v == z3.unsat:
                continue
            if v != z3.sat:
                raise Unsupported('no verdict on the accesses of a parallel loop')
            o = s.model()
            mem = self.mem[list(mems)[o.eval(m).as_long()]]
            raise ir.MemError('data race: %s %s and %s (%s) both access byte %s of %s' %
                              ('iterations' if self.omp else 'tasks', o.eval(a), o.eval(b), self.name, o.eval(x), mem.desc()))


def _in(x, rs):
    """x lies in one of the byte ranges, neighbours joined."""
    out = []
    for lo, hi in sorted((o, o + n) for o, n in rs):
        if out and lo <= out[-1][1]:
            out[-1][1] = max(out[-1][1], hi)
        else:
            out.append([lo, hi])
    return z3.Or([z3.And(x >= lo, x < hi) for lo, hi in out])


def install():
    """Recording versions of the memory operations (only active inside of a region)."""
    M, A = ir.Mem, ir.ArrMem
    init = M.__init__

    def born(self, *a, **k):
        init(self, *a, **k)
        if CUR[0] is not None:
            CUR[0].local[id(self)] = self
    M.__init__ = born
    for K in (M, A):
        for name, w in (('get', 0), ('put', 1), ('raw', 0), ('setraw', 1)):
            def rec(self, off, n, *a, _f=K.__dict__[name], _w=w):
                r = _f(self, off, n, *a)
                if CUR[0] is not None:
                    CUR[0].note(self, off, n, _w)
                return r
            setattr(K, name, rec)


def _int(v, bits):
    h = 1 << (bits - 1)
    return ((int(v) + h) & (2 * h - 1)) - h


def fork_call(mod, loc, argc, fn, *args):
    outer = CUR[0]
    if outer is not None and outer.omp:
        raise Unsupported('nested parallel regions')
    r = Region(fn.name.split('$')[-1].split('.omp_outlined')[0])
    r.omp, r.outer = True, outer
    try:
        while r.t < r.n:
            r.phase = 0
            CUR[0] = r
            tid = ir.Mem(4, 'stack', 'thread')
            zero = ir.Mem(4, 'stack', 'thread')
            tid.put(0, 4, r.t)
            zero.put(0, 4, 0)
            mod.call(fn.name, ir.Ptr(tid, 0), ir.Ptr(zero, 0), *args)
            r.t += 1
            if r.t > 512:
                raise Unsupported('more than 512 iterations in a parallel loop')
    finally:
        CUR[0] = outer
    r.solve()


def _static_init(bits, unsigned):
    nb = bits // 8

    def f(mod, loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk):
        r = CUR[0]
        if r is None or not r.omp:
            return None
        lo, hi, st = (C.concretize(x) for x in (ir.LDI(plower, nb), ir.LDI(pupper, nb), incr))
        st = _int(st, bits)
        if unsigned:
            lo, hi = lo & ((1 << bits) - 1), hi & ((1 << bits) - 1)
        n = max(0, (hi - lo) // st + 1)
        r.n = max(r.n, n)
        i = lo + r.t * st
        if r.t < n:
            ir.ST(plower, nb, _int(i, bits))
            ir.ST(pupper, nb, _int(i, bits))
        else:                       # nothing left for this thread
            ir.ST(plower, nb, _int(hi + st, bits))
            ir.ST(pupper, nb, _int(hi, bits))
        ir.ST(pstride, nb, _int(max(n, 1) * st, bits))
        ir.ST(plast, 4, int(r.t == n - 1))
    return f


_dyn = {}


def _dispatch_init(bits):
    def f(mod, loc, gtid, sched, lb, ub, st, chunk):
        r = CUR[0]
        lo, hi, s = (_int(C.concretize(x), bits) for x in (lb, ub, st))
        n = max(0, (hi - lo) // s + 1)
        if r is None or not r.omp:
            _dyn[0] = [lo, hi, s, True] if n else None
            return
        r.n = max(r.n, n)
        _dyn[0] = [lo + r.t * s, lo + r.t * s, s, r.t == n - 1] if r.t < n else None
    return f


def _dispatch_next(bits):
    nb = bits // 8

    def f(mod, loc, gtid, plast, pl, pu, ps):
        d = _dyn.get(0)
        if d is None:
            return 0
        _dyn[0] = None
        ir.ST(pl, nb, d[0])
        ir.ST(pu, nb, d[1])
        ir.ST(ps, nb, d[2])
        ir.ST(plast, 4, int(d[3]))
        return 1
    return f


def _barrier(mod, *a):
    if CUR[0] is not None and CUR[0].omp:
        CUR[0].phase += 1


def _lock(d):
    def f(mod, *a):
        if CUR[0] is not None:
            CUR[0].locked += d
        return 1
    return f


def _single(mod, *a):
    return int(CUR[0] is None or not CUR[0].omp or CUR[0].t == 0)


EXT = {'__kmpc_fork_call': fork_call, '__kmpc_barrier': _barrier,
       '__kmpc_global_thread_num': lambda mod, *a: CUR[0].t if CUR[0] and CUR[0].omp else 0,
       'omp_get_thread_num': lambda mod, *a: CUR[0].t if CUR[0] and CUR[0].omp else 0,
       'omp_get_num_threads': lambda mod, *a: CUR[0].n if CUR[0] and CUR[0].omp else 1,
       '__kmpc_single': _single, '__kmpc_master': _single, '__kmpc_masked': _single}
for _n in ('static_fini', ):
    EXT['__kmpc_for_' + _n] = lambda mod, *a: None
for _n in ('push_num_threads', 'serialized_parallel', 'end_serialized_parallel', 'end_single', 'end_master', 'end_masked', 'flush',
           'dispatch_fini_4', 'dispatch_fini_8', 'dispatch_fini_4u', 'dispatch_fini_8u', 'dispatch_deinit', 'push_proc_bind'):
    EXT['__kmpc_' + _n] = lambda mod, *a: None
for _n in ('critical', 'critical_with_hint', 'reduce', 'reduce_nowait', 'ordered'):
    EXT['__kmpc_' + _n] = _lock(1)
for _n in ('end_critical', 'end_reduce', 'end_reduce_nowait', 'end_ordered'):
    EXT['__kmpc_' + _n] = _lock(-1)
for _b in (4, 8):
    for _u in ('', 'u'):
        EXT['__kmpc_for_static_init_%d%s' % (_b, _u)] = _static_init(8 * _b, bool(_u))
        EXT['__kmpc_dispatch_init_%d%s' % (_b, _u)] = _dispatch_init(8 * _b)
        EXT['__kmpc_dispatch_next_%d%s' % (_b, _u)] = _dispatch_next(8 * _b)
_draws = [0]


def _rand(mod, *a):
    """A fixed sequence: the drawn values only choose among values a thread has gathered for itself."""
    _draws[0] += 1
    return (_draws[0] * 1103515245 + 12345) >> 8 & 0x7fffffff


EXT['rand'] = _rand
EXT['rand_r'] = _rand


# the planner of FFTW is one object shared by all threads
_planner = ir.Mem(8, 'global', 'the FFTW planner')
_safe = set()


def _plan(name):
    old = ir.EXT[name]

    def f(mod, *a):
        r = CUR[0]
        if r is not None and (id(r), r.t) not in _safe:
            r.note(_planner, 0, 8, 1)
        return old(mod, *a)
    return f


def _make_safe(mod):
    if CUR[0] is not None:
        CUR[0].keep['planner'] = _planner
        _safe.add((id(CUR[0]), CUR[0].t))


for _n in ('fftwf_plan_dft_1d', 'fftwf_plan_dft_2d'):
    EXT[_n] = _plan(_n)
EXT['fftwf_make_planner_thread_safe'] = _make_safe
