"""Runs the real tomopy Python code on symbolic arrays.

`load()` imports tomopy from the working tree (against shared libraries built from it), then, in the
globals of every tomopy module, replaces numpy, numexpr, the executors, multiprocessing, the FFTs, a
few scipy filters and the ctypes libraries by stand-ins that carry terms.  C calls go to the IR
executor.  Nothing of tomopy's own code is replaced.
"""
import ctypes
import importlib
import math
import os
import pkgutil
import sys
import types
import numpy as _np
from . import terms as T
from . import ctx as C
from . import snp, snp2, csym, build, ir
from .snp import SArr, SPtr, NP, Node, Unsupported, asarr, _plain, _wrap

TRACE_CALLS = []       # C entry points executed since the last reset


# --------------------------------------------------------------------------------- C libraries
class _Val:
    """c_float/c_int of a symbolic value."""
    def __init__(self, v): self.value = v


class _CtypesProxy(types.ModuleType):
    def __init__(self):
        super().__init__('ctypes')
    def __getattr__(self, n):
        return getattr(ctypes, n)
    @staticmethod
    def c_float(x=0.0):
        x = _scal(x)
        return _Val(x) if isinstance(x, Node) else ctypes.c_float(x)
    @staticmethod
    def c_int(x=0):
        x = _scal(x)
        return ctypes.c_int(C.concretize(x) if isinstance(x, Node) and x.sort == 'I' else x)
    c_long = c_int


# the proxy's c_* must stay usable as types in POINTER()
class _CF:
    def __init__(self, ty): self.ty = ty
    def __call__(self, x=0):
        x = _scal(x)
        if isinstance(x, Node):
            if self.ty in (ctypes.c_float, ctypes.c_double):
                return _Val(x)
            if x.sort != 'I':
                raise TypeError('int expected')
            x = C.concretize(x)
        return self.ty(x)


def _POINTER(t):
    return ctypes.POINTER(t.ty if isinstance(t, _CF) else t)


_ctp = types.ModuleType('ctypes')
_ctp.__dict__.update({k: v for k, v in vars(ctypes).items() if not k.startswith('__')})
for _n in ('c_float', 'c_int', 'c_long', 'c_size_t', 'c_double', 'c_uint8', 'c_uint16', 'c_bool'):
    setattr(_ctp, _n, _CF(getattr(ctypes, _n)))
_ctp.POINTER = _POINTER
_ctp.util = ctypes.util if hasattr(ctypes, 'util') else None


def _scal(x):
    if isinstance(x, SArr) and x.size == 1:
        return T.norm(_plain(x).reshape(-1)[0])
    return x


def _root(p):
    b = p
    while isinstance(_np.ndarray.base.__get__(b), _np.ndarray):
        b = _np.ndarray.base.__get__(b)
    return b


def _addr(a):
    return _np.ndarray.__array_interface__.__get__(a)['data'][0] if not isinstance(a, SArr) else a.view(_np.ndarray).__array_interface__['data'][0]


def arr_pointer(arr, ptype=None):
    """IR pointer to the memory of an array, bounded by the memory the array itself occupies."""
    p = _plain(arr)
    want = None
    if ptype is not None:
        want = ctypes.sizeof(ptype._type_)
    isz = arr._pd.itemsize if isinstance(arr, SArr) else p.dtype.itemsize
    if p.flags.c_contiguous:
        flat = p.reshape(-1)
        off = 0
    else:
        root = _root(p)
        flat = root.reshape(-1, order='K') if not root.flags.c_contiguous else root.reshape(-1)
        if not _np.shares_memory(flat, root):
            raise Unsupported('pointer to a non-contiguous buffer')
        off = (_addr(p) - _addr(flat)) // (8 if p.dtype == object else isz)
    m = ir.ArrMem(flat, isz, 'array%s' % (tuple(p.shape),), keep=(arr._pd if isinstance(arr, SArr) else p.dtype))
    return ir.Ptr(m, off * isz)


class CFun:
    def __init__(self, lib, name):
        self.lib = lib
        self.name = name
        self.restype = None
        self.argtypes = None
        self.__name__ = name

    def __call__(self, *args):
        mod = self.lib.mod()
        if self.name not in mod.defs:
            raise AttributeError('undefined symbol: ' + self.name)
        av = []
        for a in args:
            av.append(self._arg(a))
        TRACE_CALLS.append(self.name)
        head = mod.defs[self.name][0]
        n0 = mod.steps
        live0 = len(mod.allocs)
        try:
            r = mod.call(self.name, *av)
        finally:
            C.STATS.instr += mod.steps - n0
        self.lib.leaks = [m for m in mod.allocs[live0:] if m.alive and m.kind == 'heap']
        return r

    def _arg(self, a):
        if isinstance(a, SPtr):
            return arr_pointer(a.arr, a.ptype)
        if isinstance(a, _Val):
            return a.value
        if isinstance(a, ctypes.c_char_p):
            s = list(a.value) + [0]
            return ir.Ptr(ir.ArrMem(_np.array(s, dtype='i1'), 1, 'string'), 0)
        if isinstance(a, ctypes._Pointer):
            arr = getattr(a, '_arr', None)
            if arr is None:
                raise Unsupported('pointer argument')
            return arr_pointer(arr, type(a))
        if isinstance(a, ctypes._SimpleCData):
            v = a.value
            return v
        if isinstance(a, (int, float, bool)):
            return a
        if a is None:
            return ir.NULL
        if isinstance(a, Node):
            return a
        raise Unsupported('C argument %r' % (a,))


OMP = [False]         # parallel regions are executed thread by thread


class CLib:
    def __init__(self, lib):
        self.__dict__['lib'] = lib
        self.__dict__['leaks'] = []
        self.__dict__['_f'] = {}
        self.__dict__['_m'] = None

    def mod(self):
        if self._m is None:
            self.__dict__['_m'] = build.module(self.lib, omp=OMP[0])
        return self._m

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n not in self._f:
            self._f[n] = CFun(self, n)
        return self._f[n]

    __getitem__ = __getattr__


CLIBS = {k: CLib(k) for k in ('recon', 'misc', 'prep', 'gridrec')}


# --------------------------------------------------------------------------------- executors
ORDER = ['fifo']       # or 'lifo'


class Future:
    def __init__(self, fn, a, k):
        self._fn, self._a, self._k = fn, a, k
        self._done = False
        self._exc = None
        self._res = None
        self._pool = None
    def _run(self):
        if self._done:
            return
        self._done = True
        try:
            if self._pool is not None:
                self._res = self._pool._task(self._fn, self._a, self._k)
            else:
                self._res = self._fn(*self._a, **self._k)
        except (Unsupported, C.Infeasible, C.PathLimit):
            raise
        except Exception as e:
            self._exc = e
    def result(self, timeout=None):
        self._run()
        if self._exc is not None:
            raise self._exc
        return self._res
    def exception(self, timeout=None):
        self._run()
        return self._exc
    def done(self): self._run(); return True
    def running(self): return False
    def cancelled(self): return False
    def cancel(self): return False
    def add_done_callback(self, f): self._run(); f(self)


class Executor:
    threads = False

    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self._fs = []
        self._team = None
        if OMP[0] and self.threads:
            from . import omp, watch
            self._team = watch.Team()
            self._region = omp.Region('tasks of a thread pool')
    def _task(self, fn, a, k):
        from . import omp
        old = omp.CUR[0]
        omp.CUR[0] = self._region
        self._region.t = self._team.n
        try:
            return self._team.run(fn, a, k)
        finally:
            omp.CUR[0] = old
    def submit(self, fn, *a, **k):
        f = Future(fn, a, k)
        if self._team is not None:
            f._pool = self
        self._fs.append(f)
        return f
    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *t) for t in zip(*its)]
        self._drain()
        return iter([f.result() for f in fs])
    def _drain(self):
        fs = self._fs if ORDER[0] == 'fifo' else self._fs[::-1]
        for f in fs:
            f._run()
        if self._team is not None:
            self._team.merge()
            if self._team.race:
                raise ir.MemError(self._team.race)
            self._region.solve()
    def shutdown(self, wait=True, **k): self._drain()
    def __enter__(self): return self
    def __exit__(self, *a):
        self._drain()
        return False


def _wait(fs, timeout=None, return_when=None):
    fs = list(fs)
    for f in (fs if ORDER[0] == 'fifo' else fs[::-1]):
        f._run()
    return set(fs), set()


def _as_completed(fs, timeout=None):
    fs = list(fs)
    for f in (fs if ORDER[0] == 'fifo' else fs[::-1]):
        f._run()
        yield f


import concurrent.futures as _rcf
cf = types.ModuleType('concurrent.futures')
cf.ThreadPoolExecutor = type('ThreadPoolExecutor', (Executor,), {'threads': True})
cf.ProcessPoolExecutor = type('ProcessPoolExecutor', (Executor,), {})
cf.wait = _wait
cf.as_completed = _as_completed
cf.Future = Future
cf.ALL_COMPLETED = _rcf.ALL_COMPLETED
cf.FIRST_COMPLETED = _rcf.FIRST_COMPLETED
cf.FIRST_EXCEPTION = _rcf.FIRST_EXCEPTION
cf.TimeoutError = _rcf.TimeoutError


# --------------------------------------------------------------------------------- multiprocessing
class FakeRaw:
    """multiprocessing.RawArray: a typed block shared by all workers."""
    _verif_shared = True

    def __init__(self, ctype, n):
        self.pd = _np.dtype(ctype)
        if not isinstance(n, int):
            n = len(n)
        self._b = _np.empty(n, dtype=object)
        self._b.fill(snp.cast1(0, self.pd))
        snp.SHARED[id(self._b)] = self

    def __len__(self): return self._b.size

    def as_array(self, dtype=float, count=-1, offset=0):
        dt = _np.dtype(dtype)
        if dt == self.pd:
            s = self._b.view(SArr)
            s._pd = dt
            s._shared = self
            n = s
            if offset:
                n = n[offset // dt.itemsize:]
            if count >= 0:
                n = n[:count]
            return n
        # the bytes reinterpreted as another type: an unconstrained function of the contents
        nb = self._b.size * self.pd.itemsize - offset
        if nb % dt.itemsize:
            raise ValueError('buffer size must be a multiple of element size')
        k = nb // dt.itemsize
        if snp.all_concrete(self._b):
            raw = _np.array([T.norm(v) for v in self._b], dtype=self.pd).tobytes()[offset:]
            return asarr(_np.frombuffer(raw, dt))
        o = _np.empty(k, dtype=object)
        T.register_uf('reinterpret', lambda *a: math.nan)
        for i in range(k):
            j = min(self._b.size - 1, (offset + i * dt.itemsize) // self.pd.itemsize)
            o[i] = T.mk('uf', ('reinterpret', T.to_real(self._b[j]), float(i)), 'R') if isinstance(self._b[j], Node) else 0.0
        return _wrap(o, dt)


FakeRaw.__module__ = 'multiprocessing.sharedctypes'


class _Async:
    def __init__(self, fn, items):
        self._e = None
        self._r = []
        its = items if ORDER[0] == 'fifo' else items[::-1]
        for m in its:
            try:
                self._r.append(fn(m))
            except (Unsupported, C.Infeasible, C.PathLimit):
                raise
            except Exception as e:
                self._e = self._e or e
    def ready(self): return True
    def successful(self): return self._e is None
    def wait(self, timeout=None): pass
    def get(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._r


class _Proc:
    exitcode = None


class Pool:
    """Workers run one after another in this process; each gets private copies of its arguments."""
    def __init__(self, processes=None, initializer=None, initargs=(), **k):
        self._pool = [_Proc()]
        self._init = (initializer, initargs)
    def _go(self, fn, items):
        import copy
        def one(m):
            if self._init[0]:
                self._init[0](*self._init[1])
            return fn(_pcopy(m))
        return _Async(one, list(items))
    def map_async(self, fn, items, chunksize=None, **k): return self._go(fn, items)
    def starmap_async(self, fn, items, **k): return self._go(lambda t: fn(*t), items)
    def map(self, fn, items, **k): return self._go(fn, items).get()
    def starmap(self, fn, items, **k): return self._go(lambda t: fn(*t), items).get()
    def imap(self, fn, items, **k): return iter(self._go(fn, items).get())
    imap_unordered = imap
    def apply_async(self, fn, a=(), k=None): return _Async(lambda m: fn(*a, **(k or {})), [0])
    def close(self): pass
    def join(self): pass
    def terminate(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def _pcopy(x):
    """What a worker process sees of an argument: arrays are copied by pickling."""
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, _np.ndarray):
        return x.copy()
    if isinstance(x, tuple):
        return tuple(_pcopy(y) for y in x)
    if isinstance(x, list):
        return [_pcopy(y) for y in x]
    if isinstance(x, dict):
        return {k: _pcopy(v) for k, v in x.items()}
    return x


class _Queue:
    def __init__(self): self._q = []
    def put(self, x, *a, **k): self._q.append(x)
    def get(self, *a, **k):
        if not self._q:
            import queue
            raise queue.Empty()
        return self._q.pop(0)
    def empty(self): return not self._q
    def qsize(self): return len(self._q)


class _Manager:
    def Queue(self, *a): return _Queue()
    def shutdown(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


CPUS = [8]
import multiprocessing as _rmp
mp = types.ModuleType('multiprocessing')
mp.__dict__.update({k: v for k, v in vars(_rmp).items() if not k.startswith('__')})
mp.RawArray = FakeRaw
mp.Pool = Pool
mp.Manager = _Manager
mp.cpu_count = lambda: CPUS[0]
mp.Queue = lambda *a: _Queue()


# --------------------------------------------------------------------------------- numexpr
_NEF = None


def _ne_fns():
    global _NEF
    if _NEF is None:
        _NEF = {'where': NP.where, 'sqrt': NP.sqrt, 'exp': NP.exp, 'log': NP.log, 'abs': NP.abs, 'sin': NP.sin, 'cos': NP.cos,
                'tan': NP.tan, 'expm1': NP.expm1, 'floor': NP.floor, 'ceil': NP.ceil, 'minimum': NP.minimum, 'maximum': NP.maximum,
                'arctan2': NP.arctan2, 'log1p': lambda x: _np.log1p(asarr(x)), 'real': lambda x: x.real, 'imag': lambda x: x.imag,
                'sum': lambda a, axis=None: asarr(a).sum(axis), 'min': lambda a, axis=None: asarr(a).min(axis), 'max': lambda a, axis=None: asarr(a).max(axis)}
    return _NEF


def ne_evaluate(ex, local_dict=None, global_dict=None, out=None, order='K', casting='safe', truediv='auto', _frame_depth=3, **k):
    fr = sys._getframe(1)
    ns = dict(_ne_fns())
    code = compile(ex.strip(), '<numexpr>', 'eval')
    for n in code.co_names:
        if n in ns and (local_dict is None or n not in local_dict):
            continue
        if local_dict is not None and n in local_dict:
            v = local_dict[n]
        elif local_dict is None and n in fr.f_locals:
            v = fr.f_locals[n]
        elif n in (global_dict if global_dict is not None else fr.f_globals):
            v = (global_dict if global_dict is not None else fr.f_globals)[n]
        else:
            raise KeyError(n)
        if isinstance(v, _np.ndarray) and not isinstance(v, SArr):
            v = asarr(v)
        ns[n] = v
    r = eval(code, {'__builtins__': {}}, ns)
    if out is not None:
        if isinstance(out, SArr):
            if _np.ndim(r) and _np.shape(r) != out.shape:
                r = _np.broadcast_to(_plain(asarr(r)), out.shape)
                out[...] = _wrap(_np.array(r), out._pd)
            else:
                out[...] = r
        else:
            out[...] = snp.to_real_array(asarr(r))
        return out
    if isinstance(r, _np.ndarray) and not isinstance(r, SArr):
        return r.copy()
    if isinstance(r, SArr):
        return r.copy('K') if any(r is v for v in ns.values()) else r
    return asarr(r)


ne = types.ModuleType('numexpr')
ne.evaluate = ne_evaluate
_NET = [8]


def _set_num_threads(n):
    if n < 1:
        raise ValueError('Number of threads must be at least 1')
    old, _NET[0] = _NET[0], n
    return old


ne.set_num_threads = _set_num_threads
ne.set_vml_num_threads = lambda n: None
ne.detect_number_of_cores = lambda: CPUS[0]
ne.re_evaluate = lambda *a, **k: (_ for _ in ()).throw(Unsupported('re_evaluate'))


# --------------------------------------------------------------------------------- external array functions
_linc = {}


def linear(real, nin=1):
    """Stand-in for an external function that is linear in its first argument: the matrix is read
    off the real function by probing it with unit arrays of the same shape and arguments."""
    def f(a, *args, **kw):
        kw = {k: snp.to_real_array(v) if isinstance(v, SArr) and k != 'output' else v for k, v in kw.items()}
        if not isinstance(a, SArr):
            if any(isinstance(x, SArr) and not snp.all_concrete(x) for x in args):
                raise Unsupported('symbolic parameter of ' + real.__name__)
            out = kw.get('output')
            if isinstance(out, SArr):
                kw = dict(kw); kw.pop('output')
                out[...] = real(a, *[snp.to_real_array(x) for x in args], **kw)
                return out
            return real(a, *[snp.to_real_array(x) for x in args], **kw)
        args = tuple(snp.to_real_array(x) if isinstance(x, SArr) else x for x in args)
        out = kw.pop('output', None)
        key = (id(real), a.shape, repr([(x.tobytes(), x.shape) if isinstance(x, _np.ndarray) else x for x in args]),
               repr(sorted((k2, (v.tobytes() if isinstance(v, _np.ndarray) else repr(v))) for k2, v in kw.items())))
        M = _linc.get(key)
        if M is None:
            zero = _np.asarray(real(_np.zeros(a.shape), *args, **kw))
            cols = []
            for i in range(a.size):
                e = _np.zeros(a.size)
                e[i] = 1.0
                cols.append(_np.asarray(real(e.reshape(a.shape), *args, **kw)).ravel())
            M = _linc[key] = (zero, _np.array(cols).T)
        zero, W = M
        xs = list(_plain(a).reshape(-1))
        o = _np.empty(zero.size, dtype=object)
        for j in range(zero.size):
            s = float(zero.ravel()[j])
            for i in _np.nonzero(_np.abs(W[j]) > 1e-14)[0]:
                s = T.add(s, T.mul(float(W[j, i]), T.norm(xs[i])))
            o[j] = s
        r = _wrap(o.reshape(zero.shape), a._pd if a._pd.kind == 'f' else _np.float64)
        if out is not None and isinstance(out, _np.ndarray):
            out[...] = r
            return out
        return r
    f.__name__ = real.__name__
    return f


def median_of(xs):
    """Rank n//2 of the values, as scipy's median filters take it."""
    xs = [T.norm(x) for x in xs]
    known = sorted(x for x in xs if not isinstance(x, Node))
    r, m = len(xs) // 2, len(xs) - len(known)
    if m and r - m >= 0 and r < len(known) and known[r - m] == known[r]:
        return known[r]     # whatever the others are
    if len(xs) <= 5 and len(set(id(x) if isinstance(x, Node) else x for x in xs)) <= 5:
        return ir.sort_terms(xs)[len(xs) // 2]
    if not any(isinstance(x, Node) for x in xs):
        return sorted(xs)[len(xs) // 2]
    return T.rank(len(xs) // 2, xs)


def scipy_median_filter(real):
    def f(input, size=None, footprint=None, output=None, mode='reflect', cval=0.0, origin=0, **kw):
        if not isinstance(input, SArr):
            if isinstance(output, SArr):
                output[...] = real(input, size=size, footprint=footprint, mode=mode, cval=cval, origin=origin, **kw)
                return output
            return real(input, size=size, footprint=footprint, output=output, mode=mode, cval=cval, origin=origin, **kw)
        if footprint is not None or origin != 0 or kw.get('axes') is not None:
            raise Unsupported('median_filter footprint')
        a = input
        sz = [size] * a.ndim if _np.ndim(size) == 0 else list(size)
        sz = [int(C.concretize(s)) if isinstance(s, Node) else int(s) for s in sz]
        md = {'reflect': 'symmetric', 'mirror': 'reflect', 'nearest': 'edge', 'wrap': 'wrap'}.get(mode)
        if md is None:
            raise Unsupported('median_filter mode')
        pw = [(s // 2, s - 1 - s // 2) for s in sz]
        idx = _np.pad(_np.arange(a.size).reshape(a.shape), pw, mode=md)
        xs = list(_plain(a).reshape(-1))
        o = _np.empty(a.shape, dtype=object)
        for ix in _np.ndindex(*a.shape):
            w = idx[tuple(slice(i, i + s) for i, s in zip(ix, sz))].ravel()
            o[ix] = median_of([xs[j] for j in w])
        r = _wrap(o, a._pd)
        if isinstance(output, _np.ndarray):
            output[...] = r
            return output
        return r
    f.__name__ = 'median_filter'
    return f


def medfilt_(real):
    def f(volume, kernel_size=3):
        if not isinstance(volume, SArr):
            return real(volume, kernel_size)
        a = volume
        sz = [kernel_size] * a.ndim if _np.ndim(kernel_size) == 0 else list(kernel_size)
        pw = [(int(s) // 2, int(s) // 2) for s in sz]
        idx = _np.pad(_np.arange(a.size).reshape(a.shape), pw, constant_values=-1)
        xs = list(_plain(a).reshape(-1))
        o = _np.empty(a.shape, dtype=object)
        for ix in _np.ndindex(*a.shape):
            w = idx[tuple(slice(i, i + int(s)) for i, s in zip(ix, sz))].ravel()
            o[ix] = median_of([xs[j] if j >= 0 else 0.0 for j in w])
        return _wrap(o, a._pd)
    f.__name__ = real.__name__
    return f


def _flat(r):
    """Arrays of a nested tuple, and a function that puts others in their place."""
    if isinstance(r, (tuple, list)):
        parts = [_flat(x) for x in r]
        def put(it, ps=parts, ty=type(r)):
            return tuple(p[1](it) for p in ps)
        return [a for p in parts for a in p[0]], put
    return [_np.asarray(r)], lambda it: next(it)


def linear_multi(real, ninputs):
    """Like linear() for functions from arrays (or nested tuples of arrays) to arrays (or nested tuples)."""
    def f(a, *args, **kw):
        if not any(isinstance(x, SArr) for x in _leaves(a)):
            return real(a, *args, **kw)
        ins = [snp.asarr(x) for x in _leaves(a)]
        _, put = _flat(_map_leaves(a, lambda x: _np.zeros(x.shape)))
        key = (id(real), tuple(x.shape for x in ins), repr(args), repr(sorted(kw.items())))
        M = _linc.get(key)
        if M is None:
            mats = []
            for n, x in enumerate(ins):
                for i in range(x.size):
                    zs = [_np.zeros(y.shape) for y in ins]
                    zs[n].reshape(-1)[i] = 1.0
                    mats.append(_np.concatenate([_np.ravel(o) for o in _leaves(real(put(iter(zs)), *args, **kw))]))
            r0 = real(put(iter([_np.zeros(y.shape) for y in ins])), *args, **kw)
            M = _linc[key] = (r0, _np.array(mats).T)
        r0, W = M
        xs = [T.norm(v) for x in ins for v in _plain(x).reshape(-1)]
        vals = []
        for j in range(W.shape[0]):
            s = 0.0
            for i in _np.nonzero(_np.abs(W[j]) > 1e-14)[0]:
                s = T.add(s, T.mul(float(W[j, i]), xs[i]))
            vals.append(s)
        pos = [0]
        def take(o):
            n = o.size
            part = _np.empty(n, dtype=object)
            part[:] = vals[pos[0]:pos[0] + n]
            pos[0] += n
            return _wrap(part.reshape(o.shape), ins[0]._pd)
        return _map_leaves(r0, take)
    f.__name__ = real.__name__
    return f


def _leaves(r):
    if isinstance(r, (tuple, list)):
        return [y for x in r for y in _leaves(x)]
    return [r]


def _map_leaves(r, f):
    if isinstance(r, (tuple, list)):
        return tuple(_map_leaves(x, f) for x in r)
    return f(_np.asarray(r) if not isinstance(r, SArr) else r)


class BilinearSpline:
    """RectBivariateSpline of degree 1: its values are linear in z."""
    def __init__(self, x, y, z, bbox=(None,) * 4, kx=3, ky=3, s=0):
        self.k = (kx, ky, s)
        self.x, self.y = [snp.to_real_array(v) if isinstance(v, SArr) else _np.asarray(v) for v in (x, y)]
        self.z = z
        self.bbox = list(bbox)
    def _m(self, how, *args):
        from scipy.interpolate import RectBivariateSpline as R
        kx, ky, s = self.k
        def real(z):
            return getattr(R(self.x, self.y, z, bbox=self.bbox, kx=kx, ky=ky, s=s), how)(*args)
        real.__name__ = 'RectBivariateSpline'
        if not isinstance(self.z, SArr):
            return real(self.z)
        key = ('spline', self.x.tobytes(), self.y.tobytes(), self.k, how, repr(args))
        fn = _linc.get(key)
        if fn is None:
            fn = _linc[key] = linear(real)
        return fn(self.z)
    def ev(self, xi, yi):
        return self._m('ev', _np.asarray(xi), _np.asarray(yi))
    def __call__(self, x, y, **kw):
        if kw:
            raise Unsupported('RectBivariateSpline call')
        return self._m('__call__', _np.asarray(x), _np.asarray(y))


def polyfit_(x, y, deg, *a, **k):
    if not isinstance(y, SArr):
        return _np.polyfit(x, y, deg, *a, **k)
    if a or k:
        raise Unsupported('polyfit options')
    x = snp.to_real_array(x) if isinstance(x, SArr) else _np.asarray(x)
    key = ('polyfit', x.tobytes(), int(deg))
    fn = _linc.get(key)
    if fn is None:
        def real(yy):
            return _np.polyfit(x, yy, deg)
        fn = _linc[key] = linear(real)
    return fn(y)


def solve_gram(h, alpha, b):
    """x with (H'H + alpha) x = b, H the correlation with h; along the eigenvectors of H'H."""
    n = len(b)
    H = _np.zeros((n - len(h) + 1, n))
    for i in range(H.shape[0]):
        H[i, i:i + len(h)] = h
    lam, V = _np.linalg.eigh(H.T @ H)
    lam = _np.round(lam, 13)
    num, den = alpha.args if isinstance(alpha, Node) and alpha.op == '/' else (alpha, 1.0)
    parts = []
    for k in range(n):
        s = 0.0
        for c, v in zip(V[:, k], b):
            if abs(c) > 1e-13:
                s = T.add(s, T.mul(float(c), v))
        l = T.lin(s) if isinstance(s, Node) else None
        if l is not None and all(abs(c) < 1e-10 for c in l.values()):
            s = 0.0
        parts.append(0.0 if not isinstance(s, Node) and abs(s) < 1e-10 else T.div(T.mul(s, den), T.add(T.mul(float(lam[k]), den), num)))
    out = []
    for i in range(n):
        s = 0.0
        for k in range(n):
            if abs(V[i, k]) > 1e-13:
                s = T.add(s, T.mul(float(V[i, k]), parts[k]))
        out.append(s)
    return out


def cgm(real):
    """The conjugate gradient iteration of the stripe regularisation, by its result: (H'H + alpha) x = f."""
    def f(h, alpha, f):
        if not any(isinstance(v, SArr) and not snp.all_concrete(v) or isinstance(v, Node) for v in (h, _scal(alpha), f)):
            return real(*[snp.to_real_array(v) if isinstance(v, SArr) else v for v in (h, _scal(alpha), f)])
        hs = [float(v) for v in (snp.to_real_array(h) if isinstance(h, SArr) else h)]
        fs = [T.norm(v) for v in _plain(asarr(f)).reshape(-1)]
        x = solve_gram(hs, T.norm(_scal(alpha)), fs)
        o = _np.empty(len(x), dtype=object)
        o[:] = x
        return _wrap(o, _np.dtype('f8'))
    f.__name__ = real.__name__
    return f


def warp(real):
    """skimage's warp: a linear map of the image, clipped to the range of the image (enlarged by the fill value where
    the map reaches it), as its documentation says."""
    def f(image, inverse_map, *args, **kw):
        if not isinstance(image, SArr) or snp.all_concrete(image):
            r = real(snp.to_real_array(image) if isinstance(image, SArr) else image, inverse_map, *args, **kw)
            return asarr(r) if isinstance(image, SArr) else r
        clip = kw.pop('clip', True)
        params = getattr(inverse_map, 'params', None)
        if params is None or args:
            raise Unsupported('warp')
        key = type(inverse_map)(matrix=_np.array(params, float))
        r = _warps(real, image, key, kw)
        if not clip:
            return r
        xs = [T.norm(v) for v in _plain(image).reshape(-1)]
        ys = [T.norm(v) for v in _plain(r).reshape(-1)]
        lo, hi = xs[0], xs[0]
        for v in xs[1:]:
            lo, hi = T.minv(lo, v), T.maxv(hi, v)
        cval = kw.get('cval', 0.0)
        if kw.get('mode', 'constant') == 'constant':
            inside = T.and_(T.le(lo, cval), T.le(cval, hi))
            yl, yh = ys[0], ys[0]
            for v in ys[1:]:
                yl, yh = T.minv(yl, v), T.maxv(yh, v)
            wide = T.and_(T.not_(inside), T.and_(T.le(yl, cval), T.le(cval, yh)))
            if bool(wide):
                lo, hi = T.minv(lo, cval), T.maxv(hi, cval)
        o = _np.empty(len(ys), dtype=object)
        for i, v in enumerate(ys):
            o[i] = T.minv(T.maxv(v, lo), hi)
        return _wrap(o.reshape(r.shape), r._pd)
    f.__name__ = real.__name__
    return f


_warpc = {}


def _warps(real, image, tform, kw):
    key = (image.shape, tform.params.tobytes(), repr(sorted(kw.items())))
    if key not in _warpc:
        W = []
        for i in range(image.size):
            e = _np.zeros(image.size)
            e[i] = 1.0
            W.append(real(e.reshape(image.shape), tform, clip=False, **kw).ravel())
        _warpc[key] = _np.array(W).T
    M = _warpc[key]
    xs = [T.norm(v) for v in _plain(image).reshape(-1)]
    o = _np.empty(len(M), dtype=object)
    for j, row in enumerate(M):
        v = 0.0
        for i in _np.nonzero(_np.abs(row) > 1e-14)[0]:
            v = T.add(v, T.mul(float(row[i]), xs[i]))
        o[j] = v
    return _wrap(o.reshape(image.shape), image._pd if image._pd.kind == 'f' else _np.dtype('f8'))


def decided(real):
    """Forks on the truth of every symbolic element, then calls the real function."""
    def f(a, *args, **kw):
        if isinstance(a, SArr):
            a = snp._boolarr(a)
        return real(a, *args, **kw)
    f.__name__ = real.__name__
    return f


def concrete_only(real):
    def f(*a, **k):
        def cv(x):
            if isinstance(x, SArr):
                if not snp.all_concrete(x):
                    raise Unsupported('symbolic data reaches %s' % getattr(real, '__name__', real))
                return snp.to_real_array(x)
            if isinstance(x, Node):
                raise Unsupported('symbolic data reaches %s' % getattr(real, '__name__', real))
            if isinstance(x, (list, tuple)):
                return type(x)(cv(y) for y in x)
            return x
        return real(*[cv(x) for x in a], **{kk: cv(v) for kk, v in k.items()})
    f.__name__ = getattr(real, '__name__', 'f')
    return f


# --------------------------------------------------------------------------------- module replacement
class ModProxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)
    def __getattr__(self, n):
        if n == '_real':
            raise AttributeError(n)
        v = getattr(self._real, n)
        r = REPL.get(id(v))
        return r if r is not None else v


def lstsq_(real):
    """Least squares with a known matrix: linear in the right-hand side."""
    def f(a, b, *args, **kw):
        if not isinstance(a, SArr) and not isinstance(b, SArr):
            return real(a, b, *args, **kw)
        A = snp.to_real_array(asarr(a))
        b = asarr(b)
        if snp.all_concrete(b):
            return real(_np.asarray(A, float), _np.asarray(snp.to_real_array(b), float), *args, **kw)
        rest = real(_np.asarray(A, float), _np.zeros(b.shape), *args, **kw)[1:]
        M = _np.linalg.pinv(_np.asarray(A, float))
        B = _plain(b).reshape(b.shape[0], -1)
        o = _np.empty((M.shape[0], B.shape[1]), dtype=object)
        for i in range(o.shape[0]):
            for j in range(o.shape[1]):
                s = 0.0
                for k in range(M.shape[1]):
                    if abs(M[i, k]) > 1e-15:
                        s = T.add(s, T.mul(float(M[i, k]), T.norm(B[k, j])))
                o[i, j] = s
        return (_wrap(o.reshape((M.shape[0],) + b.shape[1:]), b._pd),) + tuple(rest)
    f.__name__ = 'lstsq'
    return f


REPL = {}
_keepalive = []


def _reg(real, fake):
    REPL[id(real)] = fake
    _keepalive.append(real)


def _setup_repl():
    import numexpr, scipy, scipy.ndimage, scipy.signal, scipy.interpolate
    _reg(_np, NP)
    _reg(numexpr, ne)
    _reg(numexpr.evaluate, ne_evaluate)
    _reg(_rcf, cf)
    _reg(_rcf.ThreadPoolExecutor, cf.ThreadPoolExecutor)
    _reg(_rcf.ProcessPoolExecutor, cf.ProcessPoolExecutor)
    _reg(_rcf.wait, _wait)
    _reg(_rcf.as_completed, _as_completed)
    _reg(_rmp, mp)
    for n in ('RawArray', 'Pool', 'Manager', 'cpu_count'):
        _reg(getattr(_rmp, n), getattr(mp, n))
    _reg(ctypes, _ctp)
    nd = scipy.ndimage
    for n in ('gaussian_filter', 'uniform_filter', 'uniform_filter1d', 'gaussian_filter1d', 'sobel', 'map_coordinates', 'affine_transform', 'shift', 'rotate', 'zoom', 'convolve', 'convolve1d', 'correlate'):
        _reg(getattr(nd, n), linear(getattr(nd, n)))
    _reg(nd.median_filter, scipy_median_filter(nd.median_filter))
    _reg(scipy.signal.medfilt2d, medfilt_(scipy.signal.medfilt2d))
    _reg(scipy.signal.medfilt, medfilt_(scipy.signal.medfilt))
    _reg(scipy.signal.savgol_filter, linear(scipy.signal.savgol_filter))
    _reg(nd.binary_dilation, decided(nd.binary_dilation))
    import scipy.interpolate
    _reg(scipy.interpolate.RectBivariateSpline, BilinearSpline)
    _reg(scipy.interpolate, ModProxy(scipy.interpolate, {}))
    import pywt
    _reg(pywt, ModProxy(pywt, {'dwt2': linear_multi(pywt.dwt2, 1), 'idwt2': linear_multi(pywt.idwt2, 1)}))
    snp.FUNCS['polyfit'] = polyfit_
    if hasattr(nd, 'interpolation'):      # deprecated alias
        _reg(nd.interpolation, ModProxy(nd.interpolation, {}))
    _reg(nd, ModProxy(nd, {}))
    _reg(scipy.signal, ModProxy(scipy.signal, {}))
    import scipy.linalg
    _reg(scipy.linalg.lstsq, lstsq_(scipy.linalg.lstsq))
    _reg(_np.linalg.lstsq, lstsq_(_np.linalg.lstsq))
    _reg(_np.linalg, ModProxy(_np.linalg, {}))
    NP.__dict__['linalg'] = REPL[id(_np.linalg)]
    _reg(scipy.linalg, ModProxy(scipy.linalg, {}))
    _reg(scipy, ModProxy(scipy, {'linalg': REPL[id(scipy.linalg)], 'ndimage': REPL[id(nd)], 'signal': REPL[id(scipy.signal)]}))
    # names of numpy that are imported directly
    for n in ('zeros', 'ones', 'empty', 'full', 'array', 'asarray', 'ascontiguousarray', 'require', 'frombuffer', 'zeros_like', 'ones_like',
              'empty_like', 'where', 'stack', 'isscalar', 'clip'):
        _reg(getattr(_np, n), getattr(NP, n))
    for n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'absolute', 'maximum', 'minimum', 'isnan', 'power'):
        _reg(getattr(_np, n), getattr(NP, n))
    _reg(_np.fft, NP.fft)
    try:
        import mkl_fft
        m = types.ModuleType('mkl_fft')
        def wrapf(n):
            real = getattr(mkl_fft, n)
            cs = getattr(csym, 'np_' + n)
            def f(x, *a, **k):
                if not isinstance(x, SArr):
                    return real(x, *a, **k)
                if n.endswith('2'):
                    return cs(x, k.get('shape', a[0] if a else None), k.get('axes', (-2, -1)))
                return cs(x, k.get('n', a[0] if a else None), k.get('axis', a[1] if len(a) > 1 else -1))
            return f
        for n in ('fft', 'ifft', 'fft2', 'ifft2'):
            setattr(m, n, wrapf(n))
        _reg(mkl_fft, m)
    except ImportError:
        pass


_loaded = None
_import = None


def _hook_imports():
    """Modules that tomopy functions import when they run are replaced as well."""
    global _import
    import builtins
    if _import is not None:
        return
    _import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = _import(name, globals, locals, fromlist, level)
        if _loaded is None or globals is None or level or not str(globals.get('__name__', '')).startswith('tomopy'):
            return m
        r = REPL.get(id(m))
        if r is not None:
            return r
        top = name.split('.')[0]
        return ModProxy(m, {}) if top in ('concurrent', 'scipy', 'numpy', 'multiprocessing', 'numexpr', 'pywt') else m
    builtins.__import__ = imp


def loaded():
    return _loaded
SKIP = {'tomopy.misc.benchmark'}


def load():
    """tomopy from the working tree, ready for symbolic execution."""
    global _loaded
    if _loaded is not None:
        return _loaded
    d = build.real_libs('release')
    _prep_env(d)
    src = os.path.join(build.REPO, 'source')
    if src not in sys.path:
        sys.path.insert(0, src)
    import tomopy
    if not os.path.realpath(tomopy.__file__).startswith(os.path.realpath(build.REPO) + os.sep):
        raise RuntimeError('tomopy comes from %s' % tomopy.__file__)
    for mi in pkgutil.walk_packages(tomopy.__path__, 'tomopy.'):
        if mi.name in SKIP or '.data' in mi.name:
            continue
        try:
            importlib.import_module(mi.name)
        except Exception:
            pass
    _setup_repl()
    for name, m in list(sys.modules.items()):
        if not (name == 'tomopy' or name.startswith('tomopy.')) or m is None:
            continue
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            if isinstance(v, ctypes.CDLL):
                for lib in CLIBS:
                    if 'tomo-' + lib in (v._name or ''):
                        setattr(m, k, CLIBS[lib])
                continue
            r = REPL.get(id(v))
            if r is not None:
                setattr(m, k, r)
    try:
        import skimage.transform as sktf
        if not getattr(sktf.warp, '_verif', False):
            sktf.warp = warp(sktf.warp)
            sktf.warp._verif = True
    except ImportError:
        pass
    st = sys.modules.get('tomopy.prep.stripe')
    if hasattr(st, '_ringCGM'):
        st._ringCGM = cgm(st._ringCGM)
    _loaded = tomopy
    _hook_imports()
    return tomopy


def _prep_env(d):
    os.environ['LD_LIBRARY_PATH'] = d + ':' + os.environ.get('LD_LIBRARY_PATH', '')
    os.environ.setdefault('MKL_THREADING_LAYER', 'SEQUENTIAL')
    # find_library consults LD_LIBRARY_PATH through ld: preload by path instead
    import ctypes.util as cu
    real = cu.find_library
    def find(name):
        for root, _, fs in os.walk(d):
            if 'lib%s.so' % name in fs:
                return os.path.join(root, 'lib%s.so' % name)
        return real(name)
    cu.find_library = find


_ENV0 = None


def reset():
    global _ENV0
    if _ENV0 is None:
        _ENV0 = dict(os.environ)
    else:
        for k in [k for k in os.environ if k not in _ENV0]:
            del os.environ[k]
        os.environ.update(_ENV0)
    TRACE_CALLS.clear()
    snp.SHARED.clear()
    for l in CLIBS.values():
        if l._m is not None:
            l._m.reset()
            l._m.steps = 0
