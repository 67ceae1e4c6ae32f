"""Complex terms (pairs of real terms) and exact small DFTs."""
import cmath
import math
import numpy as _np
from . import terms as T

Node = T.Node


class CSym:
    _is_csym = True
    __array_ufunc__ = None
    __slots__ = ('re', 'im')
    __hash__ = object.__hash__

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def conjugate(self): return CSym(self.re, T.neg(self.im))
    def __add__(a, b): return _b(T.add, a, b)
    def __radd__(a, b): return _b(T.add, b, a)
    def __sub__(a, b): return _b(T.sub, a, b)
    def __rsub__(a, b): return _b(T.sub, b, a)
    def __mul__(a, b): return _b(T.mul, a, b)
    def __rmul__(a, b): return _b(T.mul, b, a)
    def __truediv__(a, b): return _b(T.div, a, b)
    def __rtruediv__(a, b): return _b(T.div, b, a)
    def __neg__(a): return CSym(T.neg(a.re), T.neg(a.im))
    def __abs__(a): return T.sqrt(T.add(T.mul(a.re, a.re), T.mul(a.im, a.im)))
    def __pow__(a, n):
        if n == 2: return a * a
        raise T.Unsupported('complex power')
    def __repr__(a): return 'C(%r,%r)' % (a.re, a.im)
    def __deepcopy__(a, m): return a


def as_c(x):
    if isinstance(x, CSym): return x
    if isinstance(x, (complex, _np.complexfloating)): return CSym(float(x.real), float(x.imag))
    return CSym(T.norm(x), 0.0)


def _b(f, a, b):
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        if isinstance(a, _np.ndarray) and a.ndim or isinstance(b, _np.ndarray) and b.ndim:
            from . import snp
            return snp.broadcast_op(f, a, b)
    return op(f, as_c(a), as_c(b))


def op(f, a, b):
    if f is T.add: return CSym(T.add(a.re, b.re), T.add(a.im, b.im))
    if f is T.sub: return CSym(T.sub(a.re, b.re), T.sub(a.im, b.im))
    if f is T.mul:
        return CSym(T.sub(T.mul(a.re, b.re), T.mul(a.im, b.im)), T.add(T.mul(a.re, b.im), T.mul(a.im, b.re)))
    if f is T.div:
        if not isinstance(b.re, Node) and not isinstance(b.im, Node) and b.im == 0:
            return CSym(T.div(a.re, b.re), T.div(a.im, b.re))
        d = T.add(T.mul(b.re, b.re), T.mul(b.im, b.im))
        n = op(T.mul, a, CSym(b.re, T.neg(b.im)))
        return CSym(T.div(n.re, d), T.div(n.im, d))
    if f is T.eq: return T.and_(T.eq(a.re, b.re), T.eq(a.im, b.im))
    if f is T.ne: return T.not_(op(T.eq, a, b))
    if f is T.power and not isinstance(b.re, Node) and b.re == 2: return op(T.mul, a, a)
    raise T.Unsupported('complex operation')


def un(f, a):
    if f is T.neg: return -a
    if f is T.absv: return abs(a)
    if getattr(f, '__name__', '') == '_sq': return a * a
    if getattr(f, '__name__', '') == '_ident': return a
    if not isinstance(a.re, Node) and not isinstance(a.im, Node):
        if getattr(f, '__name__', '') == 'g':
            raise T.Unsupported('complex function')
    raise T.Unsupported('complex function')


_tw = {}


def twiddle(n, sign):
    k = (n, sign)
    if k not in _tw:
        t = []
        for j in range(n):
            c, s = math.cos(2 * math.pi * j / n), sign * math.sin(2 * math.pi * j / n)
            for v in (0.0, 1.0, -1.0, 0.5, -0.5):
                if abs(c - v) < 1e-15: c = v
                if abs(s - v) < 1e-15: s = v
            t.append((c, s))
        _tw[k] = t
    return _tw[k]


def dft1(xs, sign=-1, scale=1.0):
    n = len(xs)
    tw = twiddle(n, sign)
    xs = [as_c(x) for x in xs]
    out = []
    for k in range(n):
        re, im = 0.0, 0.0
        for j, x in enumerate(xs):
            c, s = tw[(j * k) % n]
            re = T.add(re, T.sub(T.mul(c, x.re), T.mul(s, x.im)))
            im = T.add(im, T.add(T.mul(c, x.im), T.mul(s, x.re)))
        if scale != 1.0:
            re, im = T.mul(scale, re), T.mul(scale, im)
        out.append(CSym(re, im))
    return out


def dft1f(xs, sign):
    """DFT by radix-2 splitting where the length allows (fewer terms, same function)."""
    n = len(xs)
    if n % 2 or n < 4:
        return dft1(xs, sign)
    if all(x.re.__class__ is float and x.im.__class__ is float and x.re == 0.0 and x.im == 0.0 for x in xs):
        return [CSym(0.0, 0.0)] * n
    e, o = dft1f(xs[0::2], sign), dft1f(xs[1::2], sign)
    tw = twiddle(n, sign)
    out = [None] * n
    h = n // 2
    for k in range(h):
        c, s = tw[k]
        re = T.sub(T.mul(c, o[k].re), T.mul(s, o[k].im))
        im = T.add(T.mul(c, o[k].im), T.mul(s, o[k].re))
        out[k] = CSym(T.add(e[k].re, re), T.add(e[k].im, im))
        out[k + h] = CSym(T.sub(e[k].re, re), T.sub(e[k].im, im))
    return out


def _fft_axis(a, n, axis, sign, scale):
    from . import snp
    a = snp.asarr(a)
    p = _np.moveaxis(snp._plain(a), axis, -1)
    if n is None:
        n = p.shape[-1]
    out = _np.empty(p.shape[:-1] + (n,), dtype=object)
    for ix in _np.ndindex(*p.shape[:-1]):
        row = list(p[ix])
        row = row[:n] + [0.0] * (n - len(row))
        r = dft1(row, sign, 1.0 / n if scale else 1.0)
        for k in range(n):
            out[ix + (k,)] = r[k]
    return snp._wrap(_np.ascontiguousarray(_np.moveaxis(out, -1, axis)),
                     _np.complex64 if a._pd in (_np.dtype('f4'), _np.dtype('c8')) else _np.complex128)


def np_fft(a, n=None, axis=-1, norm=None, **k): return _fft_axis(a, n, axis, -1, False)
def np_ifft(a, n=None, axis=-1, norm=None, **k): return _fft_axis(a, n, axis, 1, True)


def np_fft2(a, s=None, axes=(-2, -1), norm=None, **k):
    for i, ax in enumerate(axes):
        a = _fft_axis(a, None if s is None else s[i], ax, -1, False)
    return a


def np_ifft2(a, s=None, axes=(-2, -1), norm=None, **k):
    for i, ax in enumerate(axes):
        a = _fft_axis(a, None if s is None else s[i], ax, 1, True)
    return a


def np_fftshift(a, axes=None):
    from . import snp
    a = snp.asarr(a)
    ax = range(a.ndim) if axes is None else ([axes] if isinstance(axes, int) else axes)
    r = snp._plain(a)
    for x in ax:
        r = _np.roll(r, a.shape[x] // 2, x)
    return snp._wrap(r, a._pd)


def np_ifftshift(a, axes=None):
    from . import snp
    a = snp.asarr(a)
    ax = range(a.ndim) if axes is None else ([axes] if isinstance(axes, int) else axes)
    r = snp._plain(a)
    for x in ax:
        r = _np.roll(r, -(a.shape[x] // 2), x)
    return snp._wrap(r, a._pd)
