"""numpy for symbolic data: an ndarray subclass that holds terms, and a stand-in `numpy` module.

The tomopy functions under test are the real ones; only the arrays they are given (and the arrays
they create through `np.`) are SArr, so that every numpy operation they perform is carried out on
terms.  `_pd` is the dtype the array would have had.
"""
import ctypes
import math
import types
import operator as _operator
import numpy as _np
from . import terms as T
from . import ctx as C
from .ir import UNINIT, Undef, F32, MemError

Node = T.Node
Unsupported = T.Unsupported
_obj = _np.dtype(object)


class SPtr:
    """What arr.ctypes.data_as() gives for a symbolic array."""
    def __init__(self, arr, ptype):
        self.arr = arr
        self.ptype = ptype


class SCtypes:
    def __init__(self, arr):
        self._a = arr
    def data_as(self, p):
        return SPtr(self._a, p)
    @property
    def data(self):
        return SPtr(self._a, None)
    @property
    def shape(self):
        return self._a.shape
    def shape_as(self, t):
        return (t * self._a.ndim)(*self._a.shape)


def _plain(a):
    return a.view(_np.ndarray) if isinstance(a, SArr) else a


SHARED = {}      # id(buffer) -> shared block (kept alive until bridge.reset())


class SFlags:
    def __init__(self, f): self._f = f
    def __getattr__(self, n): return getattr(self._f, n)
    def __getitem__(self, k): return self._f[k]


class SArr(_np.ndarray):
    __array_priority__ = 1000.0

    def __new__(cls, shape, pd=_np.float32, fill=UNINIT, order='C'):
        a = _np.empty(shape, dtype=object, order=order)
        a.fill(fill)
        s = a.view(cls)
        s._pd = _np.dtype(pd)
        return s

    def __array_finalize__(self, obj):
        self._pd = getattr(obj, '_pd', None) or _np.dtype(_np.float64)
        self._shared = None

    # in-place arithmetic with a symbolic scalar (numpy only defers for the plain operators)
    def _inplace(op):
        def f(self, other):
            if not isinstance(other, Node):
                return getattr(_np.ndarray, '__i%s__' % op)(self, other)
            if self._pd.kind not in 'fc':
                raise Unsupported('in-place arithmetic on whole numbers')
            self[...] = getattr(_operator, op)(self, other)
            return self
        return f
    __iadd__, __isub__, __imul__, __itruediv__ = map(_inplace, ('add', 'sub', 'mul', 'truediv'))
    del _inplace

    # ---- attributes
    @property
    def dtype(self):
        return self._pd

    @dtype.setter
    def dtype(self, v):
        raise Unsupported('setting dtype')

    @property
    def itemsize(self):
        return self._pd.itemsize

    @property
    def nbytes(self):
        return self._pd.itemsize * self.size

    @property
    def strides(self):
        s = _np.ndarray.strides.__get__(self)
        return tuple(x // 8 * self._pd.itemsize for x in s)

    @property
    def ctypes(self):
        return SCtypes(self)

    @property
    def base(self):
        if self._shared is not None:
            return self._shared
        b = _np.ndarray.base.__get__(self)
        r = b
        while r is not None and isinstance(r, _np.ndarray):
            sh = SHARED.get(id(r))
            if sh is not None and sh._b is r:
                return sh
            r = _np.ndarray.base.__get__(r)
        return b

    @property
    def real(self):
        return amap(_re, self, pd=_realpd(self._pd))

    @real.setter
    def real(self, v):
        raise Unsupported('real=')

    @property
    def imag(self):
        return amap(_im, self, pd=_realpd(self._pd))

    # ---- conversions
    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = _np.dtype(dtype)
        if dt == self._pd and not copy:
            return self
        r = conv(self, dt)
        if order == 'C' or (order == 'K' and self.flags.c_contiguous) or True:
            pass
        if order == 'C':
            r = _wrap(_np.array(_plain(r), order='C', copy=True), dt)
        elif order in ('K', 'A'):
            # keep the memory order of the source, as numpy does
            n = _np.empty_like(_plain(self))
            n[...] = _plain(r)
            r = _wrap(n, dt)
        return r

    def copy(self, order='C'):
        return _wrap(_np.array(_plain(self), order=order, copy=True), self._pd)

    def __copy__(self):
        return self.copy('K')

    def __deepcopy__(self, memo):
        return self.copy('K')

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], _np.ndarray):
            return _np.ndarray.view(self, a[0])
        if not a and not k:
            r = _np.ndarray.view(self)
            return r
        raise Unsupported('view with dtype')

    def tobytes(self, *a):
        raise Unsupported('tobytes')

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return _plain(self).tolist()

    def item(self, *a):
        return _plain(self).item(*a)

    def resize(self, *shape, refcheck=True):
        shape = tuple(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        if int(_np.prod(shape)) != self.size:
            raise Unsupported('resize to another number of elements')
        self.shape = tuple(int(s) for s in shape)

    # ---- indexing
    def __getitem__(self, k):
        k = _fixkey(k)
        m = _symmask(k)
        if m is not None:
            if isinstance(k, SArr) and k.shape == self.shape[:k.ndim] and k.ndim == self.ndim:
                return MaskSel(self, k)
            k = _forkmask(k)
        r = _np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        self._multiset = None
        k = _fixkey(k)
        if isinstance(v, MaskSel):
            if isinstance(k, SArr) and k is v.mask or (isinstance(k, SArr) and k.shape == v.mask.shape and
                                                      all(T.same(x, y) for x, y in zip(k.flat, v.mask.flat))):
                src = v.arr
                for ix in _np.ndindex(*k.shape):
                    c = _np.ndarray.__getitem__(k, ix)
                    _np.ndarray.__setitem__(self, ix, T.ite(_cond(c), src[ix], _np.ndarray.__getitem__(self, ix)))
                return
            v = v.force()
        m = _symmask(k)
        if m is not None:
            if isinstance(k, tuple):
                if len(k) == 1:
                    k = k[0]
            if isinstance(k, SArr) and (_np.ndim(v) == 0 or k.ndim == self.ndim and False):
                sub = k.ndim
                for ix in _np.ndindex(*k.shape):
                    c = _cond(_np.ndarray.__getitem__(k, ix))
                    if sub == self.ndim:
                        _np.ndarray.__setitem__(self, ix, T.ite(c, self._cast(v), _np.ndarray.__getitem__(self, ix)))
                    else:
                        cur = _np.ndarray.__getitem__(self, ix)
                        for jx in _np.ndindex(*cur.shape):
                            cur[jx] = T.ite(c, self._cast(v), cur[jx])
                return
            k = _forkmask(k)
        if isinstance(v, _np.ndarray):
            v = _plain(conv(v, self._pd)) if v.ndim else self._cast(v[()])
        elif isinstance(v, (list, tuple)):
            v = _plain(conv(asarr(v), self._pd))
        else:
            v = self._cast(v)
        if isinstance(v, (Node,)) or hasattr(v, '_is_csym'):
            # numpy would try to iterate/convert: place it explicitly
            tgt = _plain(self)
            cur = tgt[k]
            if isinstance(cur, _np.ndarray):
                if cur.base is None and cur.size and not _isview(k):
                    b = _np.empty(cur.shape, dtype=object)
                    b.fill(v)
                    tgt[k] = b
                else:
                    tgt[k] = _filled(cur.shape, v)
            else:
                tgt[k] = v
            return
        _plain(self)[k] = v

    def _cast(self, v):
        return cast1(v, self._pd)

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _out(reduce_(T.add, self, axis, keepdims, dtype or (self._pd if self._pd.kind in 'fc' else _np.dtype(int)), 0.0), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _out(reduce_(T.mul, self, axis, keepdims, dtype or self._pd, 1.0), out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = reduce_(T.add, self, axis, keepdims, None, 0.0)
        n = self.size if axis is None else _np.prod([self.shape[a] for a in _axes(axis, self.ndim)])
        pd = _np.dtype(dtype) if dtype is not None else (self._pd if self._pd.kind in 'fc' else _np.dtype(float))
        r = amap(lambda x: T.div(x, int(n)) if not hasattr(x, '_is_csym') else x / int(n), s, pd=pd) if isinstance(s, _np.ndarray) else (s / int(n) if hasattr(s, '_is_csym') else _rnd(T.div(s, int(n)), pd))
        return _out(r, out)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else int(_np.prod([self.shape[a] for a in _axes(axis, self.ndim)]))
        s = reduce_(T.add, d * d, axis, keepdims, None, 0.0)
        return _out(s / (n - ddof), out)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        v = self.var(axis=axis, ddof=ddof, keepdims=keepdims)
        return amap(T.sqrt, v, pd=self._pd) if isinstance(v, _np.ndarray) else T.sqrt(v)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _out(reduce_(T.maxv, self, axis, keepdims, self._pd, None), out)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _out(reduce_(T.minv, self, axis, keepdims, self._pd, None), out)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(T.and_, self, axis, keepdims, bool, True)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(T.or_, self, axis, keepdims, bool, False)

    def argmax(self, axis=None, out=None, **k):
        return _argext(self, axis, lambda a, b: T.lt(a, b))

    def argmin(self, axis=None, out=None, **k):
        return _argext(self, axis, lambda a, b: T.lt(b, a))

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = sort_(self, axis)

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort_(self, axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumsum_(self, axis)

    def clip(self, min=None, max=None, out=None, **k):
        return clip_(self, min, max, out)

    def round(self, decimals=0, out=None):
        if self._pd.kind in 'iub' and decimals >= 0:
            return _out(self.copy(), out)
        def f(x):
            if isinstance(x, Node):
                if decimals:
                    k = 10.0 ** decimals
                    return T.div(T.round_even(T.mul(T.to_real(x), k)), k)
                return T.round_even(x)
            return float(_np.round(x, decimals))
        return _out(amap(f, self, pd=self._pd), out)

    def ptp(self, axis=None, out=None, keepdims=False):
        return _out(self.max(axis=axis, keepdims=keepdims) - self.min(axis=axis, keepdims=keepdims), out)

    def cumprod(self, axis=None, dtype=None, out=None):
        return FUNCS['cumprod'](self, axis)

    def put(self, ind, v, mode='raise'):
        return FUNCS['put'](self, ind, v, mode)

    def partition(self, kth, axis=-1, **k):
        self.sort(axis)

    def argpartition(self, kth, axis=-1, **k):
        return argsort_(self, axis)

    def trace(self, *a, **k):
        return FUNCS['trace'](self, *a, **k)

    def dot(self, b, out=None):
        return dot_(self, b)

    def nonzero(self):
        return _np.nonzero(_boolarr(self))

    def conj(self):
        return amap(lambda x: x.conjugate(), self, pd=self._pd)
    conjugate = conj

    def __matmul__(self, b):
        return dot_(self, b)

    def __rmatmul__(self, b):
        return dot_(b, self)

    def __bool__(self):
        if self.size == 1:
            return bool(_plain(self).reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size == 1:
            return float(_plain(self).reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        dtype = kw.pop('dtype', None)
        ins = [i.force() if isinstance(i, MaskSel) else i for i in inputs]
        name = ufunc.__name__
        if method == '__call__':
            if ufunc is _np.matmul:
                from . import snp2
                return snp2.matmul(*ins, out=out)
            f = UFUNCS.get(name)
            if f is None:
                raise Unsupported('numpy ufunc %s' % name)
            fn, kind = f
            pd = _respd(ufunc, name, kind, ins, dtype)
            r = amap(fn, *ins, pd=pd)
            if where is not True:
                base = out[0] if out else None
                if base is None:
                    base = SArr(r.shape, pd)
                r = amap(lambda w, a, b: T.ite(_cond(w), a, b), asarr(where), r, base, pd=pd)
            return _out(r, out)
        if method == 'reduce':
            f = {'add': (T.add, 0.0), 'multiply': (T.mul, 1.0), 'maximum': (T.maxv, None), 'minimum': (T.minv, None),
                 'logical_and': (T.and_, True), 'logical_or': (T.or_, False)}.get(name)
            if f is None:
                raise Unsupported('numpy %s.reduce' % name)
            ax = kw.get('axis', 0 if len(ins) < 2 else ins[1])
            return _out(reduce_(f[0], ins[0], ax, kw.get('keepdims', False), dtype, f[1]), out)
        if method == 'accumulate' and name == 'add':
            return _out(cumsum_(ins[0], kw.get('axis', 0)), out)
        if method == 'outer':
            a, b = asarr(ins[0]), asarr(ins[1])
            return ufunc(a.reshape(a.shape + (1,) * b.ndim), b)
        raise Unsupported('numpy %s.%s' % (name, method))

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted_(self, v, side, sorter)

    def __array_function__(self, func, types_, args, kwargs):
        f = FUNCS.get(func.__name__)
        args = tuple(a.force() if isinstance(a, MaskSel) else a for a in args)
        if f is not None:
            return f(*args, **kwargs)
        if func.__name__ in PASS:
            r = super().__array_function__(func, types_, args, kwargs)
            return r
        raise Unsupported('numpy function %s' % func.__name__)


def _filled(shape, v):
    b = _np.empty(shape, dtype=object)
    b.fill(v)
    return b


def _isview(k):
    return True


class MaskSel:
    """arr[mask] for a symbolic mask, as the right-hand side of an assignment with the same mask."""
    def __init__(self, arr, mask):
        self.arr = arr
        self.mask = mask
    def force(self):
        return _np.ndarray.__getitem__(self.arr, _boolarr(self.mask))
    def _op(self, f, other, swap=False):
        if isinstance(other, MaskSel) and other.mask is self.mask:
            other = other.arr
        elif isinstance(other, _np.ndarray) and other.ndim:
            o = self.force()
            return f(other, o) if swap else f(o, other)
        return MaskSel(f(other, self.arr) if swap else f(self.arr, other), self.mask)
    def __add__(s, o): return s._op(lambda a, b: a + b, o)
    def __radd__(s, o): return s._op(lambda a, b: a + b, o, True)
    def __sub__(s, o): return s._op(lambda a, b: a - b, o)
    def __rsub__(s, o): return s._op(lambda a, b: a - b, o, True)
    def __mul__(s, o): return s._op(lambda a, b: a * b, o)
    def __rmul__(s, o): return s._op(lambda a, b: a * b, o, True)
    def __truediv__(s, o): return s._op(lambda a, b: a / b, o)
    def __rtruediv__(s, o): return s._op(lambda a, b: a / b, o, True)
    def __neg__(s): return MaskSel(-s.arr, s.mask)
    def __getattr__(self, n):
        return getattr(self.force(), n)
    def __len__(self): return len(self.force())
    def __iter__(self): return iter(self.force())
    def __getitem__(self, k): return self.force()[k]
    def __array__(self, *a): return self.force()


def _realpd(pd):
    return {'c': _np.dtype('f4') if pd.itemsize == 8 else _np.dtype('f8')}.get(pd.kind, pd)


def _re(x): return x.real if not isinstance(x, (int, float, bool)) else x
def _im(x): return x.imag if not isinstance(x, (int, float, bool)) else 0.0


def _wrap(a, pd):
    s = a.view(SArr)
    s._pd = _np.dtype(pd)
    return s


def _cond(c):
    if isinstance(c, Node):
        return c if c.sort == 'B' else T.ne(c, 0)
    return bool(c)


def _fixkey(k):
    def one(x):
        if isinstance(x, Node):
            return C.concretize(x) if x.sort == 'I' else (C.decide(x) if x.sort == 'B' else x.__index__())
        if isinstance(x, slice):
            if any(isinstance(y, Node) for y in (x.start, x.stop, x.step)):
                return slice(*[C.concretize(y) if isinstance(y, Node) else y for y in (x.start, x.stop, x.step)])
            return x
        if isinstance(x, SArr) and x._pd.kind in 'iu':
            return _np.array([C.concretize(v) if isinstance(v, Node) else int(v) for v in x.flat], dtype=int).reshape(x.shape)
        if isinstance(x, SArr) and x._pd.kind == 'b':
            if not any(isinstance(v, Node) for v in x.flat):
                return _np.array([bool(v) for v in x.flat], dtype=bool).reshape(x.shape)
        return x
    if isinstance(k, tuple):
        return tuple(one(x) for x in k)
    return one(k)


def _symmask(k):
    ks = k if isinstance(k, tuple) else (k,)
    for x in ks:
        if isinstance(x, SArr) and x._pd.kind == 'b':
            return x
        if isinstance(x, SArr):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
    return None


def _boolarr(m):
    return _np.array([C.decide(x) if isinstance(x, Node) and x.sort == 'B' else bool(x) for x in m.flat], dtype=bool).reshape(m.shape)


def _forkmask(k):
    def one(x):
        return _boolarr(x) if isinstance(x, SArr) and x._pd.kind == 'b' else x
    return tuple(one(x) for x in k) if isinstance(k, tuple) else one(k)


def _rnd(x, pd):
    if x.__class__ is float and pd is not None and pd == _np.float32:
        return F32(x)
    return x


def cast1(v, pd):
    """Value of a scalar stored in an array of dtype pd."""
    if isinstance(v, Undef):
        return v
    if hasattr(v, '_is_csym') or isinstance(v, (complex, _np.complexfloating)):
        if pd.kind == 'c':
            from . import csym
            return csym.as_c(v)
        if pd.kind == 'O':
            return v
        return cast1(_re(v), pd)
    v = T.norm(v)
    k = pd.kind
    if isinstance(v, Node):
        if k == 'f':
            return T.to_real(v)
        if k == 'c':
            return T.to_real(v)
        if k in 'iu':
            return T.to_int_trunc(v)
        if k == 'b':
            return v if v.sort == 'B' else T.ne(v, 0)
        return v
    if k == 'f':
        v = float(v)
        return F32(v) if pd.itemsize == 4 else v
    if k == 'b':
        return bool(v)
    if k in 'iu':
        if isinstance(v, float):
            if v != v or v in (math.inf, -math.inf):
                return int(_np.array(v).astype(pd))
            v = int(v)
        v = int(v)
        b = 8 * pd.itemsize
        v &= (1 << b) - 1
        if k == 'i' and v >> (b - 1):
            v -= 1 << b
        return v
    return v


def conv(a, dt):
    dt = _np.dtype(dt)
    if isinstance(a, SArr):
        src = _plain(a)
        if a._pd == dt:
            return a
    else:
        src = a
    if not isinstance(a, SArr) and a.dtype != object:
        if dt.kind != 'O':
            src = a.astype(dt) if not (dt.kind == 'f' and a.dtype.kind == 'c') else a.real.astype(dt)
    out = _np.empty(src.shape, dtype=object)
    of = out.reshape(-1)
    for i, v in enumerate(src.flat):
        of[i] = cast1(v, dt)
    return _wrap(out, dt)


def asarr(x, dtype=None):
    """Any array-like -> SArr."""
    if isinstance(x, MaskSel):
        x = x.force()
    if isinstance(x, SArr):
        return x if dtype is None else conv(x, dtype)
    if isinstance(x, _np.ndarray) and x.dtype != object:
        return conv(x, dtype or x.dtype)
    if isinstance(x, Node) or hasattr(x, '_is_csym'):
        a = _np.empty((), dtype=object)
        a[()] = x
        return _wrap(a, dtype or (_np.complex128 if hasattr(x, '_is_csym') else {'R': _np.float64, 'I': _np.int64, 'B': _np.bool_}[x.sort]))
    if isinstance(x, (list, tuple)):
        if _has_sym(x):
            parts = [asarr(y) for y in x]
            shp = parts[0].shape
            a = _np.empty((len(parts),) + shp, dtype=object)
            for i, p in enumerate(parts):
                a[i] = _plain(p) if shp else _plain(p)[()]
            pd = _np.result_type(*[p._pd for p in parts])
            r = _wrap(a, pd)
            return r if dtype is None else conv(r, dtype)
        x = _np.array(x)
        return conv(x, dtype or x.dtype)
    x = _np.asarray(x)
    if x.dtype == object:
        return _wrap(x, dtype or _np.float64)
    return conv(x, dtype or x.dtype)


def _has_sym(x):
    if isinstance(x, (Node, SArr, MaskSel)) or hasattr(x, '_is_csym') or isinstance(x, Undef):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def amap(f, *arrs, pd=None):
    xs = [_plain(a) if isinstance(a, _np.ndarray) else a for a in arrs]
    nd = [x for x in xs if isinstance(x, _np.ndarray) and x.ndim > 0]
    if not nd:
        r = f(*[x[()] if isinstance(x, _np.ndarray) else x for x in xs])
        return _rnd(r, pd)
    shape = _np.broadcast_shapes(*[x.shape for x in nd])
    its = []
    for x in xs:
        if isinstance(x, _np.ndarray):
            if x.ndim:
                its.append(_np.broadcast_to(x, shape).flat)
            else:
                v = x[()]
                its.append([v] * int(_np.prod(shape)))
        else:
            its.append([x] * int(_np.prod(shape)))
    out = _np.empty(shape, dtype=object)
    # keep Fortran order where the only array operand has it (numpy's K order)
    if len(nd) == 1 and nd[0].shape == shape and not nd[0].flags.c_contiguous:
        out = _np.empty_like(nd[0], dtype=object)
    i = 0
    r32 = pd is not None and pd == _np.float32
    res = []
    for t in zip(*its):
        v = f(*t)
        if r32 and v.__class__ is float:
            v = F32(v)
        res.append(v)
    if out.flags.c_contiguous:
        of = out.reshape(-1)
        for i, v in enumerate(res):
            of[i] = v
    else:
        for ix, v in zip(_np.ndindex(*shape), res):
            out[ix] = v
    return _wrap(out, pd if pd is not None else _np.float64)


def broadcast_op(f, a, b):
    if isinstance(a, MaskSel) or isinstance(b, MaskSel):
        raise Unsupported('mask')
    cmp_ = f in (T.lt, T.le, T.eq, T.ne, T.and_, T.or_, T.xor_)
    pa = a if isinstance(a, _np.ndarray) else b
    pd = _np.dtype(bool) if cmp_ else (pa.dtype if pa.dtype.kind in 'fc' else _np.dtype(float))
    return amap(lambda x, y: _arith(f)(x, y), a, b, pd=pd)


def _arith(f):
    def g(x, y):
        if hasattr(x, '_is_csym') or hasattr(y, '_is_csym') or isinstance(x, complex) or isinstance(y, complex):
            from . import csym
            return csym.op(f, csym.as_c(x), csym.as_c(y))
        if isinstance(x, Undef) or isinstance(y, Undef):
            raise MemError('use of an uninitialised array element')
        return f(T.norm(x), T.norm(y))
    return g


def _un(f):
    def g(x, *_):
        if hasattr(x, '_is_csym') or isinstance(x, complex):
            from . import csym
            return csym.un(f, csym.as_c(x))
        if isinstance(x, Undef):
            raise MemError('use of an uninitialised array element')
        return f(T.norm(x))
    return g


def _u(name):
    def g(x):
        return T.uf(name, T.to_real(x))
    return g


def _isnan(x):
    return (not isinstance(x, Node)) and x != x


def _isfinite(x):
    return isinstance(x, Node) or (x == x and abs(x) != math.inf)


def _isinf(x):
    return (not isinstance(x, Node)) and abs(x) == math.inf


def _fl(x): return T.to_real(T.to_int_floor(x)) if isinstance(x, Node) or math.isfinite(x) else x
def _cl(x): return T.neg(T.to_real(T.to_int_floor(T.neg(x)))) if isinstance(x, Node) or math.isfinite(x) else x
def _log2(x): return T.div(T.uf('log', T.to_real(x)), math.log(2.0))
def _npfloordiv(a, b): return T.floordiv(a, b)
def _sign(x): return T.ite(T.lt(0, x), 1.0, T.ite(T.lt(x, 0), -1.0, 0.0))
def _ident(x): return x


def _sq(x): return T.mul(x, x)
def _recip(x): return T.div(1.0, x)


UFUNCS = {
    'add': (_arith(T.add), 'a'), 'subtract': (_arith(T.sub), 'a'), 'multiply': (_arith(T.mul), 'a'),
    'divide': (_arith(T.div), 'd'), 'true_divide': (_arith(T.div), 'd'), 'floor_divide': (_arith(_npfloordiv), 'a'),
    'remainder': (_arith(T.mod), 'a'), 'mod': (_arith(T.mod), 'a'), 'power': (_arith(T.power), 'a'),
    'float_power': (_arith(T.power), 'd'),
    'negative': (_un(T.neg), 'a'), 'positive': (_un(_ident), 'a'), 'absolute': (_un(T.absv), 'abs'), 'fabs': (_un(T.absv), 'd'),
    'sqrt': (_un(T.sqrt), 'd'), 'square': (_un(_sq), 'a'), 'reciprocal': (_un(_recip), 'a'), 'exp': (_un(_u('exp')), 'd'), 'log': (_un(_u('log')), 'd'),
    'log2': (_un(_log2), 'd'), 'expm1': (_un(_u('expm1')), 'd'), 'log10': (_un(_u('log10')), 'd'), 'log1p': (_un(_u('log1p')), 'd'),
    'sin': (_un(_u('sin')), 'd'), 'cos': (_un(_u('cos')), 'd'), 'tan': (_un(_u('tan')), 'd'),
    'tanh': (_un(_u('tanh')), 'd'), 'arctan': (_un(_u('atan')), 'd'),
    'floor': (_un(_fl), 'd'), 'ceil': (_un(_cl), 'd'),
    'maximum': (_arith(T.maxv), 'a'), 'minimum': (_arith(T.minv), 'a'), 'fmax': (_arith(T.maxv), 'a'), 'fmin': (_arith(T.minv), 'a'),
    'less': (_arith(T.lt), 'b'), 'less_equal': (_arith(T.le), 'b'), 'equal': (_arith(T.eq), 'b'), 'not_equal': (_arith(T.ne), 'b'),
    'greater': (_arith(lambda a, b: T.lt(b, a)), 'b'), 'greater_equal': (_arith(lambda a, b: T.le(b, a)), 'b'),
    'logical_and': (_arith(T.and_), 'b'), 'logical_or': (_arith(T.or_), 'b'), 'logical_xor': (_arith(T.xor_), 'b'), 'logical_not': (_un(T.not_), 'b'),
    'bitwise_and': (_arith(T.and_), 'a'), 'bitwise_or': (_arith(T.or_), 'a'), 'bitwise_xor': (_arith(T.xor_), 'a'), 'invert': (_un(T.not_), 'a'),
    'isnan': (_un(_isnan), 'b'), 'isfinite': (_un(_isfinite), 'b'), 'isinf': (_un(_isinf), 'b'),
    'sign': (_un(_sign), 'a'), 'conjugate': (lambda x: x.conjugate(), 'a'), 'hypot': (_arith(lambda a, b: T.sqrt(a * a + b * b)), 'd'),
    'arctan2': (_arith(lambda a, b: T.uf('atan2', T.to_real(a), T.to_real(b))), 'd'),
}


def _respd(ufunc, name, kind, ins, dtype):
    if dtype is not None:
        return _np.dtype(dtype)
    if kind == 'b':
        return _np.dtype(bool)
    ds = []
    for i in ins:
        if isinstance(i, _np.ndarray):
            ds.append(i.dtype if i.dtype != object else _np.dtype(float))
        elif isinstance(i, Node):
            ds.append(1.5 if i.sort == 'R' else 1)
        elif hasattr(i, '_is_csym'):
            ds.append(1.5j)
        elif isinstance(i, (list, tuple)):
            ds.append(_np.asarray(i).dtype)
        else:
            ds.append(i)
    try:
        scal = [d for d in ds if not isinstance(d, _np.dtype)]
        arrd = [_np.zeros(1, d) for d in ds if isinstance(d, _np.dtype)]
        r = _np.result_type(*arrd, *scal)
    except Exception:
        r = _np.dtype(float)
    if kind == 'd' and r.kind not in 'fc':
        r = _np.dtype(float)
    if kind == 'abs':
        r = _realpd(r)
    return r


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(a % nd for a in axis)
    return (axis % nd,)


def reduce_(f, a, axis, keepdims, dtype, init):
    a = asarr(a)
    ax = _axes(axis, a.ndim)
    if dtype is not None:
        a = conv(a, dtype) if _np.dtype(dtype) != a._pd else a
    pd = a._pd
    f = _arith(f)
    p = _plain(a)
    keep = [i for i in range(a.ndim) if i not in ax]
    q = p.transpose(keep + list(ax)).reshape([p.shape[i] for i in keep] + [-1])
    shape = q.shape[:-1]

    def red(row):
        it = iter(row)
        r = None
        for v in it:
            r = v if r is None else f(r, v)
            if r.__class__ is float and pd == _np.float32:
                r = F32(r)
        if r is None:
            if init is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            r = init
        return r
    if not shape and not keepdims:
        return red(q.reshape(-1))
    out = _np.empty(shape, dtype=object)
    for ix in _np.ndindex(*shape):
        out[ix] = red(q[ix])
    if keepdims:
        out = out.reshape([1 if i in ax else p.shape[i] for i in range(a.ndim)])
    return _wrap(out, pd)


def _out(r, out):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        return r
    if not isinstance(o, SArr) and isinstance(r, _np.ndarray) and any(isinstance(v, Node) for v in r.flat):
        raise Unsupported('symbolic result into a concrete output array')
    if isinstance(o, SArr):
        o[...] = r
    else:
        o[...] = _np.array([T.norm(v) for v in asarr(r).flat], dtype=o.dtype).reshape(_np.shape(r))
    return o


def sort_(a, axis=-1):
    from .ir import sort_terms
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    p = _np.moveaxis(_plain(a), axis, -1)
    out = _np.empty(p.shape, dtype=object)
    for ix in _np.ndindex(*p.shape[:-1]):
        out[ix] = sort_terms(list(p[ix]))
    r = _np.moveaxis(out, -1, axis)
    r = _wrap(_np.ascontiguousarray(r), a._pd)
    if r.ndim == 1:
        r._multiset = sorted(p.flat, key=lambda x: (0, x.id) if isinstance(x, Node) else (1, x))
    return r


def searchsorted_(a, v, side='left', sorter=None):
    """Number of elements of a sorted array below (side 'left') or not above a value."""
    a = asarr(a)
    xs = getattr(a, '_multiset', None) if sorter is None else None
    if xs is None:
        raise Unsupported('searchsorted in an array that was not just sorted')
    cmp = T.lt if side == 'left' else T.le
    def count(x):
        n = 0
        for y in xs:
            n = T.add(n, T.ite(cmp(y, x), 1, 0))
        return n
    if not isinstance(v, _np.ndarray):
        return count(T.norm(v))
    return amap(count, v, pd=_np.dtype(_np.intp))


def argsort_(a, axis=-1):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    p = _np.moveaxis(_plain(a), axis, -1)
    out = _np.empty(p.shape, dtype=int)
    for ix in _np.ndindex(*p.shape[:-1]):
        row = p[ix]
        order = []
        for i, v in enumerate(row):
            j = len(order)
            while j > 0 and bool(T.lt(v, row[order[j - 1]])):
                j -= 1
            order.insert(j, i)
        out[ix] = order
    return _np.moveaxis(out, -1, axis)


def _argext(a, axis, better):
    a = asarr(a)
    if axis is None:
        row = list(a.flat)
        b = 0
        for i in range(1, len(row)):
            if bool(better(row[b], row[i])):
                b = i
        return b
    p = _np.moveaxis(_plain(a), axis, -1)
    out = _np.empty(p.shape[:-1], dtype=int)
    for ix in _np.ndindex(*p.shape[:-1]):
        row = p[ix]
        b = 0
        for i in range(1, len(row)):
            if bool(better(row[b], row[i])):
                b = i
        out[ix] = b
    return out


def cumsum_(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    p = _np.moveaxis(_plain(a), axis, 0)
    o = _np.empty(p.shape, dtype=object)
    for i in range(p.shape[0]):
        o[i] = p[i] if i == 0 else _plain(amap(T.add, o[i - 1], p[i])) if p.ndim > 1 else T.add(o[i - 1], p[i])
    return _out(_wrap(_np.ascontiguousarray(_np.moveaxis(o, 0, axis)), a._pd), out)


def clip_(a, a_min=None, a_max=None, out=None, **k):
    a = asarr(a)
    r = a
    if a_min is not None:
        r = amap(_arith(T.maxv), r, a_min, pd=a._pd)
    if a_max is not None:
        r = amap(_arith(T.minv), r, a_max, pd=a._pd)
    if r is a:
        r = a.copy()
    return _out(r, out)


def dot_(a, b, out=None):
    a, b = asarr(a), asarr(b)
    pa, pb = _plain(a), _plain(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        r = _np.empty(pa.shape[:-1], dtype=object)
        for ix in _np.ndindex(*pa.shape[:-1]):
            s = 0.0
            for x, y in zip(pa[ix], pb):
                s = _arith(T.add)(s, _arith(T.mul)(x, y))
            r[ix] = s
        return _wrap(r, _np.result_type(a._pd, b._pd)) if r.ndim else r[()]
    if b.ndim == 2:
        r = _np.empty(pa.shape[:-1] + (pb.shape[1],), dtype=object)
        for ix in _np.ndindex(*r.shape):
            s = 0.0
            row = pa[ix[:-1]]
            for k in range(pb.shape[0]):
                s = _arith(T.add)(s, _arith(T.mul)(row[k], pb[k, ix[-1]]))
            r[ix] = s
        return _wrap(r, _np.result_type(a._pd, b._pd))
    raise Unsupported('dot')


def median_(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = asarr(a)
    if axis is None:
        s = sort_(a, None)
        s = list(s)
        n = len(s)
        r = s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
        return r
    if isinstance(axis, (tuple, list)):
        if len(axis) != 1:
            raise Unsupported('median over several axes')
        axis = axis[0]
    s = sort_(a, axis)
    n = a.shape[axis]
    g = lambda i: _np.take(_plain(s), i, axis=axis)
    r = _wrap(_np.array(g(n // 2), dtype=object), a._pd) if n % 2 else \
        (_wrap(_np.array(g(n // 2 - 1), dtype=object), a._pd) + _wrap(_np.array(g(n // 2), dtype=object), a._pd)) / 2
    if keepdims:
        r = _np.expand_dims(r, axis)
    return _out(r, out)


def where_(c, *xy):
    c = asarr(c)
    if not xy:
        return _np.nonzero(_boolarr(c))
    x, y = xy
    pd = _respd(None, '', 'a', [x, y], None)
    return amap(lambda w, a, b: T.ite(_cond(w), cast1(a, pd), cast1(b, pd)), c, x, y, pd=pd)


def like(a, dtype, fill, order='K', shape=None, subok=True):
    pd = _np.dtype(dtype) if dtype is not None else a.dtype
    if shape is None:
        base = _np.empty_like(_plain(a), dtype=object, order=order) if isinstance(a, SArr) else _np.empty(_np.shape(a), dtype=object, order='C' if order == 'K' and not _np.isfortran(a) else ('F' if order == 'K' else order))
    else:
        base = _np.empty(shape, dtype=object)
    base.fill(UNINIT if fill is None else cast1(fill, pd))
    return _wrap(base, pd)


def _stats(name):
    def f(a, axis=None, *args, **k):
        return getattr(asarr(a), name)(axis, *args, **{x: y for x, y in k.items() if y is not _np._NoValue})
    return f


def _gradient(f, *varargs, axis=None, edge_order=1):
    f = asarr(f)
    axes = range(f.ndim) if axis is None else _axes(axis, f.ndim)
    if any(_np.ndim(v) != 0 or _has_sym(v) for v in varargs) or len(varargs) not in (0, 1, len(axes)) or edge_order != 1:
        raise Unsupported('gradient spacing')
    hs = [1.0] * len(axes) if not varargs else [float(v) for v in (varargs * len(axes) if len(varargs) == 1 else varargs)]
    res = []
    for ax, h in zip(axes, hs):
        p = _np.moveaxis(_plain(f), ax, 0)
        o = _np.empty(p.shape, dtype=object)
        n = p.shape[0]
        def S(x, y, q):
            g = lambda u, v: T.div(T.sub(u, v), q) if q != 1.0 else T.sub(u, v)
            return _plain(asarr(amap(g, x, y))) if p.ndim > 1 else g(x, y)
        if n < 2:
            raise ValueError('Shape of array too small to calculate a numerical gradient')
        o[0] = S(p[1], p[0], h)
        o[n - 1] = S(p[n - 1], p[n - 2], h)
        for i in range(1, n - 1):
            o[i] = S(p[i + 1], p[i - 1], 2.0 * h)
        res.append(_wrap(_np.ascontiguousarray(_np.moveaxis(o, 0, ax)), f._pd if f._pd.kind in 'fc' else _np.float64))
    return res[0] if len(res) == 1 else res


def _pad(a, pad_width, mode='constant', **kw):
    a = asarr(a)
    idx = _np.arange(a.size).reshape(a.shape)
    pw = pad_width
    if mode == 'constant':
        cv = kw.get('constant_values', 0)
        if _np.ndim(cv) != 0:
            raise Unsupported('pad constant_values')
        p = _np.pad(idx, pw, mode='constant', constant_values=-1)
        fl = list(_plain(a).reshape(-1))
        cvv = cast1(cv, a._pd)
        out = _np.empty(p.shape, dtype=object)
        of = out.reshape(-1)
        for i, j in enumerate(p.flat):
            of[i] = cvv if j < 0 else fl[j]
        return _wrap(out, a._pd)
    if mode in ('edge', 'reflect', 'symmetric', 'wrap'):
        p = _np.pad(idx, pw, mode=mode, **kw)
        fl = list(_plain(a).reshape(-1))
        out = _np.empty(p.shape, dtype=object)
        of = out.reshape(-1)
        for i, j in enumerate(p.flat):
            of[i] = fl[j]
        return _wrap(out, a._pd)
    if mode == 'mean':
        # numpy pads one axis after the other with the mean along it
        cur = a
        pwb = _np.broadcast_to(_np.asarray(pw), (a.ndim, 2))
        for ax in range(a.ndim):
            b, e = int(pwb[ax][0]), int(pwb[ax][1])
            if b or e:
                m = cur.mean(axis=ax, keepdims=True)
                cur = _concat([m] * b + [cur] + [m] * e, axis=ax)
        return cur
    raise Unsupported('pad mode %s' % mode)


def _concat(seq, axis=0, out=None, dtype=None, **k):
    xs = [asarr(x) for x in seq]
    pd = _np.result_type(*[x._pd for x in xs]) if dtype is None else _np.dtype(dtype)
    return _out(_wrap(_np.concatenate([_plain(conv(x, pd)) for x in xs], axis=axis), pd), out)


def _shapefn(name):
    real = getattr(_np, name)
    def f(*args, **kw):
        pds = []
        def un(x):
            if isinstance(x, SArr):
                pds.append(x._pd)
                return _plain(x)
            if isinstance(x, (list, tuple)) and any(isinstance(y, _np.ndarray) for y in x):
                return type(x)(un(y) for y in x)
            return x
        r = real(*[un(a) for a in args], **{k: un(v) for k, v in kw.items()})
        pd = _np.result_type(*pds) if pds else _np.float64
        if isinstance(r, _np.ndarray) and r.dtype == object:
            return _wrap(r, pd)
        if isinstance(r, (list, tuple)):
            return type(r)(_wrap(x, pd) if isinstance(x, _np.ndarray) and x.dtype == object else x for x in r)
        return r
    return f


def _copyto(dst, src, casting='same_kind', where=True):
    if where is not True:
        dst[...] = where_(where, src, dst)
    else:
        dst[...] = src


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)
    return (abs(a - b) <= atol + rtol * abs(b)).all()


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarr(x)
    def f(v):
        if isinstance(v, Node): return v
        if v != v: return nan
        return v
    r = amap(f, x, pd=x._pd)
    if not copy:
        x[...] = r
        return x
    return r


def _polyfit(*a, **k):
    raise Unsupported('polyfit')


def _apply_along_axis(func1d, axis, arr, *args, **kw):
    a = asarr(arr)
    p = _np.moveaxis(_plain(a), axis, -1)
    rows = {}
    for ix in _np.ndindex(*p.shape[:-1]):
        rows[ix] = func1d(_wrap(p[ix].copy(), a._pd), *args, **kw)
    first = rows[next(iter(rows))]
    if isinstance(first, _np.ndarray):
        out = _np.empty(p.shape[:-1] + first.shape, dtype=object)
        for ix in rows:
            out[ix] = _plain(asarr(rows[ix]))
        return _wrap(_np.ascontiguousarray(_np.moveaxis(out, -1, axis)), asarr(first)._pd)
    out = _np.empty(p.shape[:-1], dtype=object)
    for ix in rows:
        out[ix] = rows[ix]
    return _wrap(out, a._pd)


def _array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    return a.shape == b.shape and (a == b).all()


def _percentile(*a, **k):
    raise Unsupported('percentile')


def _convolve(a, v, mode='full'):
    a, v = list(asarr(a)), list(asarr(v))
    n, m = len(a), len(v)
    full = []
    for k in range(n + m - 1):
        s = 0.0
        for i in range(max(0, k - m + 1), min(n, k + 1)):
            s = T.add(s, T.mul(T.norm(a[i]), T.norm(v[k - i])))
        full.append(s)
    if mode == 'same':
        big = max(n, m)
        st = (len(full) - big) // 2
        full = full[st:st + big]
    elif mode == 'valid':
        small, big = min(n, m), max(n, m)
        full = full[small - 1:big]
    return asarr(full)


def _kron(a, b):
    a, b = asarr(a), asarr(b)
    n = max(a.ndim, b.ndim)
    pa, pb = [_plain(x).reshape((1,) * (n - x.ndim) + x.shape) for x in (a, b)]
    o = _np.empty([i * j for i, j in zip(pa.shape, pb.shape)], dtype=object)
    for ix in _np.ndindex(*o.shape):
        o[ix] = T.mul(T.norm(pa[tuple(i // k for i, k in zip(ix, pb.shape))]), T.norm(pb[tuple(i % k for i, k in zip(ix, pb.shape))]))
    return _wrap(o, _np.result_type(a._pd, b._pd))


def _norm(x, ord=None, axis=None, keepdims=False):
    if axis is not None or keepdims or ord not in (None, 2) or (ord == 2 and asarr(x).ndim != 1):
        raise Unsupported('linalg.norm')
    s = 0.0
    for v in _plain(asarr(x)).reshape(-1):
        s = T.add(s, T.mul(T.norm(v), T.norm(v)))
    return T.sqrt(s) if isinstance(s, Node) else _np.float64(math.sqrt(s))


def _interp(*a, **k):
    raise Unsupported('interp')


def histogram_(a, bins=10, range=None, density=None, weights=None):
    """Counts decided element by element."""
    a = asarr(a)
    if weights is not None or density or not isinstance(bins, (int, _np.integer)) or range is None:
        raise Unsupported('histogram')
    lo, hi = (T.to_real(T.norm(v)) for v in range)
    w = T.sub(hi, lo)
    e = [T.add(lo, T.mul(w, k / bins)) for k in _builtin_range(bins)] + [hi]
    n = _np.zeros(bins, int)
    for v in a.flat:
        v = T.norm(v)
        if not (bool(T.le(e[0], v)) and bool(T.le(v, e[-1]))):
            continue
        i, j = 0, bins
        while j - i > 1:
            k = (i + j) // 2
            if bool(T.le(e[k], v)):
                i = k
            else:
                j = k
        n[i] += 1
    r = _np.empty(bins + 1, dtype=object)
    r[:] = e
    return n, _wrap(r, _np.dtype('f8'))


_builtin_range = range
FUNCS = {
    'histogram': histogram_,
    'mean': _stats('mean'), 'sum': _stats('sum'), 'prod': _stats('prod'), 'std': _stats('std'), 'var': _stats('var'),
    'amax': _stats('max'), 'amin': _stats('min'), 'max': _stats('max'), 'min': _stats('min'), 'any': _stats('any'), 'all': _stats('all'),
    'argmax': _stats('argmax'), 'argmin': _stats('argmin'), 'median': median_, 'sort': sort_, 'searchsorted': searchsorted_, 'argsort': argsort_,
    'cumsum': cumsum_, 'clip': clip_, 'dot': dot_, 'where': where_, 'gradient': _gradient, 'pad': _pad, 'concatenate': _concat,
    'copyto': _copyto, 'allclose': _allclose, 'nan_to_num': _nan_to_num, 'convolve': _convolve, 'kron': _kron, 'norm': _norm,
    'apply_along_axis': _apply_along_axis, 'array_equal': _array_equal, 'nonzero': lambda a: asarr(a).nonzero(),
    'zeros_like': lambda a, dtype=None, order='K', subok=True, shape=None: like(a, dtype, 0, order, shape),
    'ones_like': lambda a, dtype=None, order='K', subok=True, shape=None: like(a, dtype, 1, order, shape),
    'empty_like': lambda prototype, dtype=None, order='K', subok=True, shape=None: like(prototype, dtype, None, order, shape),
    'full_like': lambda a, fill_value, dtype=None, order='K', subok=True, shape=None: like(a, dtype, fill_value, order, shape),
    'copy': lambda a, order='K', subok=False: a.copy(order),
    'real': lambda v: v.real, 'imag': lambda v: v.imag,
    'may_share_memory': lambda a, b, *x: _np.may_share_memory(_plain(a), _plain(b)),
    'shares_memory': lambda a, b, *x: _np.shares_memory(_plain(a), _plain(b)),
    'result_type': lambda *a: _np.result_type(*[x.dtype if isinstance(x, _np.ndarray) else x for x in a]),
    'iscomplexobj': lambda a: a.dtype.kind == 'c', 'isrealobj': lambda a: a.dtype.kind != 'c',
    'count_nonzero': lambda a, axis=None, **k: reduce_(T.add, amap(lambda x: T.ite(_cond(x), 1, 0), asarr(a), pd=_np.dtype(int)), axis, False, None, 0),
    'nanmedian': median_,
}
for _n in ('swapaxes', 'transpose', 'moveaxis', 'reshape', 'squeeze', 'expand_dims', 'flipud', 'fliplr', 'flip', 'rot90', 'roll',
           'repeat', 'tile', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'take', 'split', 'array_split', 'delete', 'diagonal',
           'ravel', 'rollaxis', 'broadcast_arrays', 'hsplit', 'vsplit', 'dsplit', 'resize', 'trim_zeros', 'tril', 'triu', 'diag', 'append', 'insert'):
    FUNCS[_n] = _shapefn(_n)
for _n in ('stack', 'vstack', 'hstack', 'dstack', 'column_stack'):
    def _stk(seq, *a, _r=getattr(_np, _n), **k):
        xs = [asarr(x) for x in seq]
        pd = _np.result_type(*[x._pd for x in xs])
        return _wrap(_r([_plain(conv(x, pd)) for x in xs], *a, **k), pd)
    FUNCS[_n] = _stk
PASS = {'shape', 'size', 'ndim', 'meshgrid', 'linspace'}


# ----------------------------------------------------------------------------------------------- proxy module
def _scalar_type(real):
    """numpy scalar type that may be called on a symbol."""
    class Meta(type):
        def __instancecheck__(cls, x): return isinstance(x, real)
        def __subclasscheck__(cls, c): return issubclass(c, real)
        def __eq__(cls, o): return o is cls or o is real
        def __hash__(cls): return hash(real)
    def new(cls, x=0, *a):
        if isinstance(x, Node):
            return cast1(x, _np.dtype(real))
        if isinstance(x, (list, tuple)) and _has_sym(x):
            return asarr(x, real)
        return x.astype(real) if isinstance(x, SArr) else real(x, *a)
    return Meta(real.__name__, (real,), {'__new__': new})


class NumpyProxy(types.ModuleType):
    """`numpy` as the tomopy modules see it during symbolic execution."""

    def __init__(self):
        super().__init__('numpy')
        self.__dict__['fft'] = FFTProxy()
        self.__dict__['linalg'] = _np.linalg
        self.__dict__['lib'] = LibProxy()
        self.__dict__['ctypeslib'] = CtypeslibProxy()
        self.__dict__['random'] = RandomProxy()

    def __getattr__(self, n):
        return getattr(_np, n)

    @staticmethod
    def zeros(shape, dtype=float, order='C', **k):
        return _create(shape, dtype, 0, order)

    @staticmethod
    def ones(shape, dtype=None, order='C', **k):
        return _create(shape, float if dtype is None else dtype, 1, order)

    @staticmethod
    def empty(shape, dtype=float, order='C', **k):
        return _create(shape, dtype, None, order)

    @staticmethod
    def full(shape, fill_value, dtype=None, order='C', **k):
        if dtype is None:
            if isinstance(fill_value, Node):
                dtype = {'R': float, 'I': int, 'B': bool}[fill_value.sort]
            else:
                dtype = _np.asarray(fill_value).dtype
        if _np.ndim(fill_value) != 0:
            a = _create(shape, dtype, None, order)
            a[...] = fill_value
            return a
        return _create(shape, dtype, fill_value, order)

    @staticmethod
    def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
        if isinstance(x, MaskSel):
            x = x.force()
        if isinstance(x, SArr):
            r = x.astype(dtype or x._pd, order='K' if order is None else order, copy=True) if copy or (dtype is not None and _np.dtype(dtype) != x._pd) else x
            if order == 'C' and not r.flags.c_contiguous:
                r = r.copy('C')
        elif _has_sym(x) or isinstance(x, Undef):
            r = asarr(x, dtype)
        else:
            return _np.array(x, dtype=dtype, copy=copy, order=order, subok=subok, ndmin=ndmin)
        while r.ndim < ndmin:
            r = r[None]
        return r

    @staticmethod
    def asarray(x, dtype=None, order=None, **k):
        if isinstance(x, MaskSel):
            x = x.force()
        if isinstance(x, SArr):
            r = x if dtype is None or _np.dtype(dtype) == x._pd else x.astype(dtype)
            if order == 'C' and not r.flags.c_contiguous:
                r = r.copy('C')
            return r
        if _has_sym(x):
            return asarr(x, dtype)
        return _np.asarray(x, dtype=dtype, order=order)

    asanyarray = asarray

    @staticmethod
    def ascontiguousarray(x, dtype=None):
        if isinstance(x, SArr):
            r = x if dtype is None or _np.dtype(dtype) == x._pd else x.astype(dtype)
            return r if r.flags.c_contiguous else r.copy('C')
        if _has_sym(x):
            return asarr(x, dtype)
        return _np.ascontiguousarray(x, dtype)

    @staticmethod
    def asfortranarray(x, dtype=None):
        if isinstance(x, SArr):
            r = x if dtype is None or _np.dtype(dtype) == x._pd else x.astype(dtype)
            return r if r.flags.f_contiguous else r.copy('F')
        return _np.asfortranarray(x, dtype)

    @staticmethod
    def require(a, dtype=None, requirements=None, **k):
        if not (isinstance(a, SArr) or _has_sym(a)):
            return _np.require(a, dtype, requirements)
        r = asarr(a)
        if dtype is not None and _np.dtype(dtype) != r._pd:
            r = r.astype(dtype)
        req = {x.upper()[0] for x in ([requirements] if isinstance(requirements, str) and len(requirements) == 1 else list(requirements or ''))}
        if 'C' in req and not r.flags.c_contiguous:
            r = r.copy('C')
        elif 'F' in req and not r.flags.f_contiguous:
            r = r.copy('F')
        if 'O' in req and not r.flags.owndata and r is a:
            pass
        return r

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
        if not (_has_sym(start) or _has_sym(stop)):
            return _np.linspace(start, stop, num, endpoint, retstep, dtype, axis, **k)
        if retstep or dtype is not None or _np.ndim(start) or _np.ndim(stop):
            raise Unsupported('linspace')
        num = int(num)
        div = num - 1 if endpoint else num
        d = T.sub(stop, start)
        o = _np.empty(num, dtype=object)
        for i in range(num):
            o[i] = T.add(start, T.mul(d, i / float(div))) if i else T.add(start, 0.0)
        return _wrap(o, _np.dtype('f8'))

    @staticmethod
    def frombuffer(buf, dtype=float, count=-1, offset=0, **k):
        if hasattr(buf, '_verif_shared'):
            return buf.as_array(dtype, count, offset)
        if isinstance(buf, SArr):
            if not buf.flags.c_contiguous:
                raise ValueError('ndarray is not C-contiguous')
            if _np.dtype(dtype) != buf._pd:
                raise Unsupported('frombuffer with another dtype')
            return buf.reshape(-1)
        return _np.frombuffer(buf, dtype, count, offset)

    @staticmethod
    def copy(a, order='K', **k):
        if isinstance(a, MaskSel):
            a = a.force()
        return a.copy(order) if isinstance(a, SArr) else _np.array(a, order=order, copy=True)

    @staticmethod
    def isscalar(x):
        return isinstance(x, Node) or _np.isscalar(x)

    @staticmethod
    def zeros_like(a, dtype=None, **k):
        if isinstance(a, SArr):
            return FUNCS['zeros_like'](a, dtype, **k)
        return _promote(_np.zeros_like(a, dtype, **k))

    @staticmethod
    def ones_like(a, dtype=None, **k):
        if isinstance(a, SArr):
            return FUNCS['ones_like'](a, dtype, **k)
        return _promote(_np.ones_like(a, dtype, **k))

    @staticmethod
    def empty_like(a, dtype=None, **k):
        if isinstance(a, SArr):
            return FUNCS['empty_like'](a, dtype, **k)
        r = _np.empty_like(a, dtype, **k)
        return _promote(_np.zeros_like(r)) if True else r

    @staticmethod
    def fromiter(it, dtype, count=-1):
        xs = list(it)
        return asarr(xs, dtype) if _has_sym(xs) else _np.fromiter(xs, dtype, count)

    @staticmethod
    def sum(a, *args, **k):
        if _has_sym(a) and not isinstance(a, SArr):
            a = asarr(a)
        return _np.sum(a, *args, **k)

    # scalar symbols given to ufuncs by name
    def _ufun(name):
        def f(*a, **k):
            if any(isinstance(x, SArr) for x in a) or isinstance(k.get('out'), SArr) or not any(_has_sym(x) for x in a):
                return getattr(_np, name)(*[asarr(x) if isinstance(x, Node) else x for x in a], **k)
            xs = [asarr(x) if isinstance(x, (list, tuple)) else x for x in a]
            if any(isinstance(x, _np.ndarray) for x in xs):
                return getattr(_np, name)(*[asarr(x) for x in xs], **k)
            uname = getattr(_np, name).__name__
            return UFUNCS[uname][0](*xs)
        return staticmethod(f)

    for _n in ('sqrt', 'exp', 'log', 'log2', 'floor', 'ceil', 'abs', 'absolute', 'fabs', 'maximum', 'minimum', 'sin', 'cos', 'tan', 'square',
               'isnan', 'isfinite', 'isinf', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'negative', 'logical_and', 'logical_or',
               'logical_not', 'sign', 'arctan2', 'expm1', 'less', 'greater', 'equal', 'not_equal', 'less_equal', 'greater_equal', 'mod', 'hypot'):
        locals()[_n] = _ufun(_n)
    for _n in ('float32', 'float64', 'int32', 'int64', 'intp', 'uint8', 'uint16'):
        locals()[_n] = _scalar_type(getattr(_np, _n))
    # np.add must stay a ufunc object for .outer/.reduce uses
    del locals()['add']

    @staticmethod
    def max(a, *x, **k):
        return _np.max(asarr(a) if _has_sym(a) and not isinstance(a, SArr) else a, *x, **k)

    @staticmethod
    def min(a, *x, **k):
        return _np.min(asarr(a) if _has_sym(a) and not isinstance(a, SArr) else a, *x, **k)

    @staticmethod
    def clip(a, lo=None, hi=None, *x, **k):
        if isinstance(a, Node) or isinstance(lo, Node) or isinstance(hi, Node):
            if not isinstance(a, _np.ndarray):
                r = a
                if lo is not None: r = T.maxv(r, T.norm(lo))
                if hi is not None: r = T.minv(r, T.norm(hi))
                return r
            return clip_(a, lo, hi)
        return _np.clip(a, lo, hi, *x, **k)

    @staticmethod
    def stack(seq, *a, **k):
        seq = list(seq)
        return FUNCS['stack'](seq, *a, **k) if _has_sym(seq) else _np.stack(seq, *a, **k)

    @staticmethod
    def where(c, *xy):
        if _has_sym(c) or any(_has_sym(x) for x in xy):
            if not isinstance(c, _np.ndarray) and xy and not any(isinstance(x, _np.ndarray) for x in xy):
                return T.ite(_cond(c), xy[0], xy[1])
            return where_(c, *xy)
        return _np.where(c, *xy)


def _promote(r):
    if r.dtype.kind in 'fc' and r.ndim:
        return conv(r, r.dtype)
    return r


def _create(shape, dtype, fill, order='C'):
    dt = _np.dtype(dtype)
    if isinstance(shape, (tuple, list)):
        shape = tuple(C.concretize(s) if isinstance(s, Node) else int(s) for s in shape)
    elif isinstance(shape, Node):
        shape = (C.concretize(shape),)
    else:
        shape = tuple(int(x) for x in _np.ravel(shape))
    if dt.kind == 'f' or dt.kind == 'c' or (dt.kind in 'ub' and len(shape) >= 2) or isinstance(fill, Node) or (dt.kind in 'i' and len(shape) >= 3):
        a = _np.empty(shape, dtype=object, order=order or 'C')
        a.fill(UNINIT if fill is None else cast1(fill, dt))
        return _wrap(a, dt)
    if fill is None:
        return _np.zeros(shape, dt, order)
    return _np.full(shape, fill, dt, order)


class CtypeslibProxy:
    def __getattr__(self, n):
        return getattr(_np.ctypeslib, n)
    @staticmethod
    def as_ctypes(a):
        if isinstance(a, SArr):
            return _np.ctypeslib.as_ctypes(_np.zeros(a.shape, a._pd))
        return _np.ctypeslib.as_ctypes(a)
    @staticmethod
    def as_array(o, shape=None):
        if hasattr(o, '_verif_shared'):
            return o.as_array(o.pd)
        return _np.ctypeslib.as_array(o, shape)


class LibProxy:
    def __getattr__(self, n):
        return getattr(_np.lib, n)
    @staticmethod
    def pad(a, *x, **k):
        return _np.pad(a, *x, **k)


class RandomProxy:
    """The generator itself is the real one; symbolic parameters of a distribution scale its standard draws."""
    def __getattr__(self, n):
        return getattr(_np.random, n)

    @staticmethod
    def normal(loc=0.0, scale=1.0, size=None):
        if _has_sym(loc) or _has_sym(scale):
            return asarr(_np.random.normal(0.0, 1.0, size)) * scale + loc
        return _np.random.normal(to_plain(loc), to_plain(scale), size)

    @staticmethod
    def uniform(low=0.0, high=1.0, size=None):
        if _has_sym(low) or _has_sym(high):
            return asarr(_np.random.uniform(0.0, 1.0, size)) * (high - low) + low
        return _np.random.uniform(to_plain(low), to_plain(high), size)

    @staticmethod
    def poisson(lam=1.0, size=None):
        if _has_sym(lam):
            raise Unsupported('poisson of symbolic data')
        return _np.random.poisson(to_plain(lam), size)


def to_plain(x):
    return to_real_array(x) if isinstance(x, SArr) else x


class FFTProxy:
    def __getattr__(self, n):
        from . import csym
        f = getattr(csym, 'np_' + n, None)
        real = getattr(_np.fft, n)
        if f is None:
            return real
        def g(a, *x, **k):
            if _has_sym(a):
                return f(a, *x, **k)
            return real(a, *x, **k)
        return g


NP = NumpyProxy()


def symarr(name, shape, pd=_np.float32, sort=None):
    """A fresh symbolic array: one input symbol per element."""
    pd = _np.dtype(pd)
    sort = sort or {'f': 'R', 'i': 'I', 'u': 'I', 'b': 'B'}[pd.kind]
    a = _np.empty(shape, dtype=object)
    for ix in _np.ndindex(*a.shape):
        a[ix] = T.var('%s[%s]' % (name, ','.join(map(str, ix))), sort)
    return _wrap(a, pd)


def concarr(x, pd=None):
    return conv(_np.asarray(x), pd or _np.asarray(x).dtype)


def all_concrete(a):
    return not any(isinstance(v, Node) or hasattr(v, '_is_csym') for v in a.flat)


def to_real_array(a):
    """SArr with concrete content -> ordinary array."""
    if isinstance(a, SArr):
        return _np.array([T.norm(v) if not isinstance(v, Undef) else _np.nan for v in a.flat], dtype=a._pd).reshape(a.shape)
    return a
