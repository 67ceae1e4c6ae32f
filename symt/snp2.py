"""Further numpy functions on arrays with symbolic elements."""
import math
import numpy as _np
from . import terms as T
from .terms import Node, Unsupported
from . import snp as S
from .snp import asarr, amap, _plain, _wrap, _out, _arith, _un, conv, reduce_, sort_, argsort_, where_, FUNCS, UFUNCS, _cond, _has_sym


def _idx(name):
    """Functions that only move elements: numpy does it on the object array."""
    FUNCS[name] = S._shapefn(name)


for _n in ('take_along_axis', 'compress', 'extract', 'choose', 'diagflat'):
    _idx(_n)


def take_along_axis(arr, indices, axis):
    if _has_sym(indices):
        raise Unsupported('symbolic indices')
    a = asarr(arr)
    i = _np.asarray(indices)
    if i.dtype == object:
        i = i.astype(int)
    return _wrap(_np.take_along_axis(_plain(a), i, axis), a._pd)


def put_along_axis(arr, indices, values, axis):
    if _has_sym(indices):
        raise Unsupported('symbolic indices')
    i = _np.asarray(indices)
    if i.dtype == object:
        i = i.astype(int)
    v = asarr(values)
    if not isinstance(arr, S.SArr):
        raise Unsupported('symbolic values into a concrete array')
    _np.put_along_axis(_plain(arr), i, _np.vectorize(lambda x: S.cast1(x, arr._pd), otypes=[object])(_plain(v)), axis)


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = asarr(a)
    if returned:
        raise Unsupported('average(returned)')
    if weights is None:
        return a.mean(axis=axis, keepdims=keepdims)
    w = asarr(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise Unsupported('average')
        sh = [1] * a.ndim
        sh[axis % a.ndim] = w.shape[0]
        w = w.reshape(sh)
        tot = w.sum()
    else:
        tot = w.sum(axis=axis, keepdims=keepdims)
    return (a * w).sum(axis=axis, keepdims=keepdims) / tot


def _nan(name):
    g = S._stats(name)

    def f(a, *x, **k):
        a = asarr(a)
        if any(not isinstance(v, Node) and v != v for v in a.flat):
            raise Unsupported('nan%s of NaN' % name)
        return g(a, *x, **k)
    return f


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    if prepend is not None or append is not None:
        raise Unsupported('diff')
    for _ in range(n):
        lo, hi = [slice(None)] * a.ndim, [slice(None)] * a.ndim
        lo[axis], hi[axis] = slice(None, -1), slice(1, None)
        a = a[tuple(hi)] - a[tuple(lo)]
    return a


def outer(a, b, out=None):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    return _out(a[:, None] * b[None, :], out)


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, (int, _np.integer)):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = [[x] if isinstance(x, (int, _np.integer)) else list(x) for x in axes]
    aa, bb = [x % a.ndim for x in aa], [x % b.ndim for x in bb]
    ka, kb = [i for i in range(a.ndim) if i not in aa], [i for i in range(b.ndim) if i not in bb]
    m = int(_np.prod([a.shape[i] for i in aa], dtype=int))
    p = a.transpose(ka + aa).reshape((-1, m))
    q = b.transpose(bb + kb).reshape((m, -1))
    r = S.dot_(p, q)
    return r.reshape([a.shape[i] for i in ka] + [b.shape[i] for i in kb])


def matmul(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return _out(S.dot_(a, b), out)
    if a.ndim == 1 or b.ndim == 1:
        raise Unsupported('matmul')
    sh = _np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A, B = _np.broadcast_to(_plain(a), sh + a.shape[-2:]), _np.broadcast_to(_plain(b), sh + b.shape[-2:])
    r = _np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for ix in _np.ndindex(*sh):
        r[ix] = _plain(S.dot_(_wrap(A[ix], a._pd), _wrap(B[ix], b._pd)))
    return _out(_wrap(r, _np.result_type(a._pd, b._pd)), out)


def einsum(spec, *ops, **k):
    if not isinstance(spec, str) or '...' in spec:
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    ins, _, res = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        al = ''.join(ins)
        res = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    ops = [asarr(o) for o in ops]
    dim = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dim[c] = n
    summed = [c for c in dim if c not in res]
    out = _np.empty([dim[c] for c in res], dtype=object)
    P = [_plain(o) for o in ops]
    for ix in _np.ndindex(*out.shape):
        e = dict(zip(res, ix))
        t = None
        for jx in _np.ndindex(*[dim[c] for c in summed]):
            e.update(zip(summed, jx))
            v = None
            for s, p in zip(ins, P):
                x = p[tuple(e[c] for c in s)]
                v = x if v is None else _arith(T.mul)(v, x)
            t = v if t is None else _arith(T.add)(t, v)
        out[ix] = 0.0 if t is None else t
    pd = _np.result_type(*[o._pd for o in ops])
    r = _wrap(out, pd)
    return _out(r, k.get('out')) if r.ndim else r[()]


def quantile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, scale=1.0, **k):
    if method != 'linear' or k.get('interpolation', 'linear') != 'linear':
        raise Unsupported('quantile method')
    a = asarr(a)
    if _has_sym(q):
        raise Unsupported('symbolic quantile')
    if isinstance(q, (list, tuple, _np.ndarray)) and _np.ndim(q):
        return _np.stack([asarr(quantile(a, x, axis, None, False, method, keepdims, scale)) for x in q])
    q = float(q) / scale
    if isinstance(axis, (tuple, list)):
        if len(axis) != 1:
            raise Unsupported('quantile over several axes')
        axis = axis[0]
    s = _plain(sort_(a, axis))
    n = a.size if axis is None else a.shape[axis]
    pos = q * (n - 1)
    i = min(int(math.floor(pos)), n - 1)
    f = pos - i
    ax = 0 if axis is None else axis
    pd = _np.result_type(a._pd, _np.float32) if a._pd.kind == 'f' else _np.dtype(float)
    g = lambda j: _np.take(s, j, axis=ax)
    r = g(i) if f == 0 else amap(lambda x, y: T.add(x, T.mul(T.sub(y, x), f)), _wrap(_np.array(g(i), dtype=object), pd), _wrap(_np.array(g(i + 1), dtype=object), pd), pd=pd)
    if isinstance(r, _np.ndarray) and r.ndim == 0:
        r = r[()]
    if isinstance(r, _np.ndarray):
        r = _wrap(_np.array(r, dtype=object), pd)
        if keepdims:
            r = _np.expand_dims(r, ax)
    elif keepdims:
        raise Unsupported('quantile keepdims')
    return _out(r, out)


def ptp(a, axis=None, out=None, keepdims=False):
    a = asarr(a)
    return _out(a.max(axis=axis, keepdims=keepdims) - a.min(axis=axis, keepdims=keepdims), out)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)
    return abs(a - b) <= atol + rtol * abs(b)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    lo, hi = [slice(None)] * y.ndim, [slice(None)] * y.ndim
    lo[axis], hi[axis] = slice(None, -1), slice(1, None)
    m = (y[tuple(hi)] + y[tuple(lo)]) / 2.0
    if x is None:
        return (m * dx).sum(axis=axis)
    d = diff(asarr(x)) if _np.ndim(x) == 1 else diff(asarr(x), axis=axis)
    if _np.ndim(x) == 1:
        sh = [1] * y.ndim
        sh[axis] = d.shape[0]
        d = d.reshape(sh)
    return (m * d).sum(axis=axis)


def cumprod(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    p = _np.moveaxis(_plain(a), axis, 0)
    o = _np.empty(p.shape, dtype=object)
    for i in range(p.shape[0]):
        o[i] = p[i] if i == 0 else _plain(amap(T.mul, o[i - 1], p[i])) if p.ndim > 1 else T.mul(o[i - 1], p[i])
    return _out(_wrap(_np.ascontiguousarray(_np.moveaxis(o, 0, axis)), a._pd), out)


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None or _has_sym(x) or _has_sym(xp):
        raise Unsupported('interp')
    fp = list(asarr(fp))
    X = _np.asarray(x, float)
    xp = _np.asarray(xp, float)
    r = _np.empty(X.shape, dtype=object)
    for ix in _np.ndindex(*X.shape):
        v = X[ix]
        if v < xp[0]:
            r[ix] = fp[0] if left is None else left
        elif v > xp[-1]:
            r[ix] = fp[-1] if right is None else right
        else:
            j = min(max(int(_np.searchsorted(xp, v, 'right')) - 1, 0), len(xp) - 1)
            if j == len(xp) - 1 or xp[j] == v:
                r[ix] = fp[j]
            else:
                w = (v - xp[j]) / (xp[j + 1] - xp[j])
                r[ix] = T.add(fp[j], T.mul(T.sub(fp[j + 1], fp[j]), w))
    r = _wrap(r, _np.dtype(float))
    return r if r.ndim else r[()]


def select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = where_(c, v, r)
    return r


def argwhere(a):
    return _np.transpose(asarr(a).nonzero())


def flatnonzero(a):
    return asarr(a).reshape(-1).nonzero()[0]


def put(a, ind, v, mode='raise'):
    if mode != 'raise' or _has_sym(ind) or not isinstance(a, S.SArr):
        raise Unsupported('put')
    ind = _np.asarray(ind).reshape(-1)
    v = list(asarr(v).flat)
    for n, i in enumerate(ind):
        a[_np.unravel_index(int(i) % a.size, a.shape)] = v[n % len(v)]


def putmask(a, mask, values):
    v = asarr(values)
    if v.size != 1 and v.shape != _np.shape(a):
        raise Unsupported('putmask')
    a[...] = where_(mask, v, a)


def fill_diagonal(a, val, wrap=False):
    if wrap:
        raise Unsupported('fill_diagonal')
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


def round_(a, decimals=0, out=None):
    if isinstance(a, Node):
        return asarr(a).round(decimals).item()
    return asarr(a).round(decimals, out) if out is not None else asarr(a).round(decimals)


def cross(a, b, *x, **k):
    a, b = asarr(a), asarr(b)
    if x or k or a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported('cross')
    c = [a[..., (i + 1) % 3] * b[..., (i + 2) % 3] - a[..., (i + 2) % 3] * b[..., (i + 1) % 3] for i in range(3)]
    return _np.stack(c, axis=-1)


def trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    return _out(_np.diagonal(asarr(a), offset, axis1, axis2).sum(axis=-1), out)


def block(x):
    def depth(y):
        return 1 + depth(y[0]) if isinstance(y, list) else 0
    def go(y, ax):
        return _np.concatenate([asarr(go(z, ax + 1)) for z in y], axis=ax) if isinstance(y, list) else y
    return go(x, -depth(x))


FUNCS['block'] = block
for _n in ('mean', 'sum', 'prod', 'std', 'var', 'max', 'min', 'argmax', 'argmin'):
    FUNCS['nan' + _n] = _nan(_n)
for _f in (take_along_axis, put_along_axis, average, diff, outer, tensordot, einsum, quantile, ptp, isclose, cumprod, interp, select, argwhere, flatnonzero,
           put, putmask, fill_diagonal, cross, trace):
    FUNCS[_f.__name__] = _f
FUNCS.update({
    'percentile': lambda a, q, *x, **k: quantile(a, q, *x, scale=100.0, **k),
    'nanpercentile': lambda a, q, *x, **k: quantile(a, q, *x, scale=100.0, **k), 'nanquantile': quantile,
    'trapezoid': trapezoid, 'trapz': trapezoid, 'inner': lambda a, b: (asarr(a) * asarr(b)).sum() if _np.ndim(a) == _np.ndim(b) == 1 else tensordot(a, b, (-1, -1)),
    'vdot': lambda a, b: (asarr(a).conj() * asarr(b)).sum(), 'round': round_, 'around': round_,
    'partition': lambda a, kth, axis=-1, **k: sort_(a, axis), 'argpartition': lambda a, kth, axis=-1, **k: argsort_(a, axis),
    'cumulative_sum': S.cumsum_, 'place': lambda a, m, v: putmask(a, m, v) if _np.size(v) == 1 else (_ for _ in ()).throw(Unsupported('place')),
    'astype': lambda x, dtype, copy=True, **k: asarr(x).astype(dtype), 'permute_dims': FUNCS['transpose'], 'concat': FUNCS['concatenate'],
    'iscomplex': lambda x: _np.zeros(_np.shape(x), bool) if asarr(x)._pd.kind != 'c' else (_ for _ in ()).throw(Unsupported('iscomplex')),
    'isreal': lambda x: _np.ones(_np.shape(x), bool) if asarr(x)._pd.kind != 'c' else (_ for _ in ()).throw(Unsupported('isreal')),
})
_R = math.pi / 180
UFUNCS.update({
    'deg2rad': (_un(lambda x: T.mul(x, _R)), 'd'), 'radians': (_un(lambda x: T.mul(x, _R)), 'd'),
    'rad2deg': (_un(lambda x: T.div(x, _R)), 'd'), 'degrees': (_un(lambda x: T.div(x, _R)), 'd'),
    'trunc': (_un(lambda x: T.ite(T.lt(x, 0), S._cl(x), S._fl(x)) if isinstance(x, Node) else float(math.trunc(x)) if math.isfinite(x) else x), 'd'),
    'heaviside': (_arith(lambda x, h: T.ite(T.lt(x, 0), 0.0, T.ite(T.lt(0, x), 1.0, h))), 'd'),
    'copysign': (_arith(lambda x, y: T.ite(T.lt(y, 0), T.neg(T.absv(x)), T.absv(x)) if isinstance(x, Node) or isinstance(y, Node) else math.copysign(x, y)), 'd'),
    'signbit': (_un(lambda x: T.lt(x, 0) if isinstance(x, Node) else math.copysign(1, x) < 0), 'b'),
    'exp2': (_un(lambda x: T.uf('exp', T.mul(T.to_real(x), math.log(2.0))) if isinstance(x, Node) else 2.0 ** x), 'd'),
})
for _n in ('radians', 'deg2rad', 'degrees', 'rad2deg', 'trunc', 'sinh', 'cosh', 'tanh', 'arctan', 'log10', 'log1p', 'exp2', 'reciprocal', 'cbrt', 'arcsin', 'arccos'):
    if getattr(_np, _n).__name__ in UFUNCS and _n not in S.NumpyProxy.__dict__:
        setattr(S.NumpyProxy, _n, staticmethod(S.NumpyProxy.__dict__['_ufun'](_n).__func__))


UFUNCS['rint'] = (_un(T.round_even), 'd')
S.NumpyProxy.rint = staticmethod(S.NumpyProxy.__dict__['_ufun']('rint').__func__)
for _n in ('round', 'around'):
    setattr(S.NumpyProxy, _n, staticmethod(lambda a, decimals=0, out=None: round_(a, decimals, out) if S._has_sym(a) else _np.round(a, decimals, out)))


class _Grid:
    """Coordinate grids of floating numbers may receive symbolic values afterwards; integer ones are indices."""
    def __init__(self, g): self.g = g

    def __getitem__(self, k):
        r = self.g[k]
        return type(r)(S._promote(x) for x in r) if isinstance(r, (list, tuple)) else S._promote(r)


S.NP.__dict__['mgrid'] = _Grid(_np.mgrid)
S.NP.__dict__['ogrid'] = _Grid(_np.ogrid)




def _holds(x, d=0):
    return isinstance(x, (list, tuple)) and d < 3 and any(isinstance(v, (S.SArr, Node)) or _holds(v, d + 1) for v in x)


def _seqarg(name, f):
    def g(*a, **k):
        if any(_holds(x) for x in a[:2]):
            a = tuple(asarr(x) if i < 2 and _holds(x) else x for i, x in enumerate(a))
        return f(*a, **k)
    g.__name__ = name
    return g


for _n in ('mean', 'median', 'average', 'std', 'var', 'prod', 'tensordot', 'dot', 'matmul', 'outer', 'inner', 'cumsum', 'diff', 'sort', 'argsort', 'argmax', 'argmin',
           'ptp', 'percentile', 'quantile', 'transpose', 'moveaxis', 'swapaxes', 'roll', 'flip', 'amax', 'amin', 'any', 'all', 'count_nonzero', 'repeat', 'tile', 'pad'):
    if _n in FUNCS and _n not in S.NumpyProxy.__dict__:
        setattr(S.NumpyProxy, _n, staticmethod(_seqarg(_n, getattr(_np, _n))))
