"""Filters and pointwise corrections of single images and stacks."""
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close
from . import _spec as S
from ._recon import fixed

LIBS = ()
BOUNDS = 'stacks up to 4 x 6 x 6 and images up to 3 x 5 with every value symbolic, thresholds and limits symbolic, kernel sizes 1 to 5, all axes, 1 to 9 workers in any order'
OUTSIDE = 'larger arrays; float32 rounding; the CUDA variants'
ASSUMPTIONS = ['scipy.ndimage filters are linear in the data (their weights are taken from the installed scipy and compared with their definition)',
               'operations on symbolic values are over the reals', 'numexpr evaluates its expressions elementwise']
P = 'tomopy.misc.corr.'


def reflect(i, n):
    """Index of the half-sample symmetric extension."""
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def mirror(i, n):
    """Index of the whole-sample symmetric extension."""
    if n == 1:
        return 0
    i %= 2 * n - 2
    return i if i < n else 2 * n - 2 - i


def window(size):
    return range(-(size // 2), size - size // 2)


def med_window(a, ix, sizes, ext=reflect):
    """Median of scipy: the element of rank n // 2 of the window."""
    xs = []
    for off in np.ndindex(*sizes):
        xs.append(sc(a[tuple(ext(i + o - s // 2, n) for i, o, s, n in zip(ix, off, sizes, a.shape))]))
    return T.rank(len(xs) // 2, xs)


def slices(a, axis, y):
    """(slice of a, slice of y) along axis."""
    a, y = S.plain(a), S.plain(y)
    for i in range(a.shape[axis]):
        yield i, np.take(a, i, axis), np.take(y, i, axis)


def eq(a, b, tol=1e-4, rtol=1e-5):
    return close(sc(a), sc(b), tol, rtol)


def framed(name, shape, call, spec, funcs, dt='f4', extra=None, order='fifo', out=None, lo=-8, hi=8, view=None, inplace=False, bounds='', validate=True, cpus=None):
    """A filter of a stack: `spec(X, a, ix)` is the value at ix."""
    ins = {'a': Sym(shape, dt, lo, hi)}
    ins.update(extra or {})
    if out == 'other':
        ins['out'] = Sym(shape, 'f4', -9, 9)

    def impl(tp, X):
        a = X['a']
        if view is not None:
            a = view(a)
        keep = a.copy()
        kw = {} if out is None else {'out': a if out == 'inplace' else X['out']}
        Y = call(tp, X, a, **kw)
        return Y, kw.get('out'), a, keep

    def check(X, R):
        Y, o, now, was = R
        a = S.plain(was)
        yield ('shape', tuple(Y.shape) == a.shape)
        yield ('dtype', Y.dtype == np.float32)
        for ix in np.ndindex(*a.shape):
            v = spec(X, a, ix)
            if v is None:
                continue
            yield ('value %s' % list(ix), eq(S.plain(Y)[ix], v))
            if o is not None:
                yield ('output array %s' % list(ix), eq(S.plain(o)[ix], v))
        if out != 'inplace' and not inplace:
            yield from arrays_close('input unchanged', now, was, 1e-6)

    return Case(name, ins, impl, check, funcs=funcs, bounds='%s %s' % (shape, bounds), order=order, validate=validate, cpus=cpus)


# ------------------------------------------------------------------ linear filters
def gauss_w(sigma, order):
    """Weights of the (derivative of a) Gaussian, cut at four standard deviations: w[k] multiplies x[i + k]."""
    if sigma <= 1e-15:
        return {0: 1.0}
    r = int(4.0 * float(sigma) + 0.5)
    g = {k: math.exp(-0.5 * (k / sigma) ** 2) for k in range(-r, r + 1)}
    n = math.fsum(g.values())
    h = {0: lambda x: 1.0, 1: lambda x: -x, 2: lambda x: x * x - 1, 3: lambda x: 3 * x - x ** 3}[order]
    # derivative of the convolution kernel at -k, which is what multiplies x[i + k]
    return {k: g[k] / n * h(-k / sigma) / sigma ** order for k in g}


def separable(a, ix, ws):
    """sum over offsets of product of weights times the reflected neighbour."""
    terms = {}
    def rec(d, pos, w):
        if d == len(ws):
            terms[pos] = terms.get(pos, 0.0) + w
            return
        acc = {}
        for k, wk in ws[d].items():
            j = reflect(ix[d] + k, a.shape[d])
            acc[j] = acc.get(j, 0.0) + wk
        for j, wk in acc.items():
            rec(d + 1, pos + (j,), w * wk)
    rec(0, (), 1.0)
    r = 0.0
    for pos, w in terms.items():
        r = r + w * sc(a[pos])
    return r


def per_slice(axis, f):
    def spec(X, a, ix):
        ax = axis % a.ndim
        s = np.take(a, ix[ax], ax)
        return f(X, s, ix[:ax] + ix[ax + 1:])
    return spec


def gauss(name, shape, axis, sigma, order=0, ncore=None, **k):
    nd = len(shape) - 1
    sg = list(sigma) if isinstance(sigma, (tuple, list)) else [sigma] * nd
    od = list(order) if isinstance(order, (tuple, list)) else [order] * nd
    ws = [gauss_w(s, o) for s, o in zip(sg, od)]
    kw = dict(sigma=sigma, order=order, axis=axis)
    if ncore != 'default':
        kw['ncore'] = ncore
    if sigma == 3 and order == 0:
        kw.pop('sigma'), kw.pop('order')
    return framed(name, shape, lambda tp, X, a: tp.gaussian_filter(a, **kw), per_slice(axis, lambda X, s, ix: separable(s, ix, ws)),
                  [P + 'gaussian_filter'], bounds='axis %d' % axis, **k)


def sobel(name, shape, axis, ncore=None, **k):
    def f(X, s, ix):
        # derivative along the last axis, smoothing along the others
        ws = [{-1: 1, 0: 2, 1: 1}] * (s.ndim - 1) + [{-1: -1, 1: 1}]
        return separable(s, ix, ws)
    return framed(name, shape, lambda tp, X, a: tp.sobel_filter(a, axis=axis, ncore=ncore), per_slice(axis, f), [P + 'sobel_filter'], bounds='axis %d' % axis, **k)


# ------------------------------------------------------------------ medians
def med(name, shape, axis, size=3, ncore=None, **k):
    return framed(name, shape, lambda tp, X, a: tp.median_filter(a, size=size, axis=axis, ncore=ncore), per_slice(axis, lambda X, s, ix: med_window(s, ix, (size, size))),
                  [P + 'median_filter'], bounds='axis %d size %d' % (axis, size), **k)


def pick(a, m, dif):
    return T.ite(sc(a) - m >= dif, m, sc(a))


def outlier(name, shape, axis, size=3, ncore=None, dt='f4', **k):
    def spec(X, a, ix):
        sz = [size] * a.ndim
        sz[axis] = 1
        return pick(a[ix], med_window(a, ix, sz), X['dif'])
    lo, hi = (0, 60) if dt[0] in 'iu' else (-8, 8)
    return framed(name, shape, lambda tp, X, a, **kw: tp.remove_outlier(a, X['dif'], size=size, axis=axis, ncore=ncore, **kw), spec, [P + 'remove_outlier'], dt=dt,
                  lo=lo, hi=hi, extra={'dif': SymScalar('f8', 0.5, 6)}, bounds='axis %d size %d' % (axis, size), **k)


def outlier1d(name, shape, axis, size=3, ncore=None, dt='f4', **k):
    def spec(X, a, ix):
        sz = [1] * a.ndim
        sz[axis] = size
        return pick(a[ix], med_window(a, ix, sz, mirror), X['dif'])
    lo, hi = (0, 60) if dt[0] in 'iu' else (-8, 8)
    return framed(name, shape, lambda tp, X, a, **kw: tp.remove_outlier1d(a, X['dif'], size=size, axis=axis, ncore=ncore, **kw), spec, [P + 'remove_outlier1d'], dt=dt,
                  lo=lo, hi=hi, extra={'dif': SymScalar('f8', 0.5, 6)}, bounds='axis %d size %d' % (axis, size), **k)


# ------------------------------------------------------------------ pointwise
def neg(name, shape, dt='f4', ncore=None, **k):
    lo, hi = (-9, 9)
    return framed(name, shape, lambda tp, X, a: tp.remove_neg(a, val=X['val'], ncore=ncore), lambda X, a, ix: T.ite(sc(a[ix]) < 0, X['val'], sc(a[ix])), [P + 'remove_neg'],
                  dt=dt, lo=lo, hi=hi, extra={'val': SymScalar('f8', -3, 3)}, inplace=True, **k)


def mask(name, shape, axis, ratio=1, ncore=None, default=False, **k):
    ax = axis % 3

    def spec(X, a, ix):
        ny, nx = [n for i, n in enumerate(a.shape) if i != ax]
        y, x = [v for i, v in enumerate(ix) if i != ax]
        r2 = (y + 0.5 - ny / 2.0) ** 2 + (x + 0.5 - nx / 2.0) ** 2
        lim = (ratio * min(ny, nx) / 2.0) ** 2
        if abs(r2 - lim) < 1e-9:
            # a pixel centre exactly on the circle
            return None
        return sc(a[ix]) if r2 < lim else (0.0 if default else X['val'])

    def call(tp, X, a):
        if default:
            return tp.circ_mask(a, axis)
        return tp.circ_mask(a, axis, ratio=ratio, val=X['val'], ncore=ncore)
    return framed(name, shape, call, spec, [P + 'circ_mask', P + '_get_mask'], extra={} if default else {'val': SymScalar('f8', -3, 3)}, inplace=True, bounds='axis %d ratio %s' % (axis, ratio), **k)


def adjust(name, shape, lims, dt='f4'):
    ins = {'a': Sym(shape, dt, -8, 8)}
    if 'max' in lims:
        ins['hi'] = SymScalar('f8', 0, 9)
    if 'min' in lims:
        ins['lo'] = SymScalar('f8', -9, 0)

    def impl(tp, X):
        was = X['a'].copy()
        kw = {}
        if 'hi' in X:
            kw['dmax'] = X['hi']
        if 'lo' in X:
            kw['dmin'] = X['lo']
        return tp.adjust_range(X['a'], **kw), was

    def check(X, R):
        Y, was = R
        a, y = S.plain(was), S.plain(Y)
        yield ('shape', y.shape == a.shape)
        for ix in np.ndindex(*shape):
            v = sc(a[ix])
            if 'hi' in X:
                v = T.minv(v, X['hi'])
            if 'lo' in X:
                v = T.maxv(v, X['lo'])
            yield ('value %s' % list(ix), eq(y[ix], v))

    def assume(X):
        # the range is not empty: the limit that is not given is the smallest or largest value
        a = [sc(v) for v in S.plain(X['a']).flat]
        out = []
        if lims == ('max',):
            c = False
            for v in a:
                c = T.or_(c, v <= X['hi'])
            out.append(c)
        if lims == ('min',):
            c = False
            for v in a:
                c = T.or_(c, v >= X['lo'])
            out.append(c)
        return out

    return Case(name, ins, impl, check, assume=assume, funcs=[P + 'adjust_range'], bounds='%s' % (shape,),
                sample_filter=lambda X: ('hi' not in X or X['hi'] >= X['a'].min()) and ('lo' not in X or X['lo'] <= X['a'].max()))


def nonfinite(name, shape, bad, size=3, callback=False, raises=False):
    """bad: {index: nan or inf}."""
    base = np.zeros(shape, 'f4')
    for ix, v in bad.items():
        base[ix] = v
    free = [ix for ix in np.ndindex(*shape) if ix not in bad]
    log = []

    def impl(tp, X):
        was = X['a'].copy()
        calls = []
        kw = {}
        if callback:
            kw['callback'] = lambda total, description, unit: calls.append((int(total), description, unit))
        try:
            Y = tp.misc.corr.median_filter_nonfinite(X['a'], size=size, **kw)
        except ValueError:
            return None, X['a'], was, calls
        return Y, X['a'], was, calls

    def check(X, R):
        Y, now, was, calls = R
        if raises:
            yield ('an all-bad window is refused', Y is None)
            return
        yield ('a result', Y is not None)
        if Y is None:
            return
        a, y = S.plain(was), S.plain(Y)
        h = size // 2
        for ix in np.ndindex(*shape):
            if ix not in bad:
                yield ('finite values stay %s' % list(ix), eq(y[ix], a[ix]))
                continue
            p, i, j = ix
            xs = [sc(a[p, r, c]) for r in range(max(0, i - h), min(shape[1], i + h + 1)) for c in range(max(0, j - h), min(shape[2], j + h + 1)) if (p, r, c) not in bad]
            n = len(xs)
            v = T.rank(n // 2, xs) if n % 2 else T.div(T.add(T.rank(n // 2 - 1, xs), T.rank(n // 2, xs)), 2.0)
            yield ('median of the finite neighbours %s' % list(ix), eq(y[ix], v))
            yield ('in place %s' % list(ix), eq(S.plain(now)[ix], v))
        if callback:
            yield ('one call per projection', calls == [(shape[0], 'Nonfinite median filter', ' prjs')] * shape[0])

    return Case(name, {'a': Sym(shape, 'f4', -8, 8, base=base, free=free)}, impl, check, funcs=[P + 'median_filter_nonfinite'], bounds='%s size %d, %d bad values' % (shape, size, len(bad)))


def nan(name, shape, bad, dt='f4', ncore=None, default=False, view=None):
    base = np.zeros(shape, dt)
    for ix in bad:
        base[ix] = np.nan
    free = [ix for ix in np.ndindex(*shape) if ix not in bad]
    ins = {'a': Sym(shape, dt, -8, 8, base=base, free=free)}
    if not default:
        ins['val'] = SymScalar('f8', -3, 3)

    def impl(tp, X):
        a = X['a'] if view is None else view(X['a'])
        was = X['a'].copy()
        Y = tp.remove_nan(a, ncore=ncore, **({} if default else {'val': X['val']}))
        return Y, was

    def check(X, R):
        Y, was = R
        y, a = S.plain(Y), S.plain(was)
        m = np.zeros(shape, bool)
        for ix in bad:
            m[ix] = True
        if view is not None:
            a, m = view(a), view(m)
        yield ('shape', y.shape == a.shape)
        for ix in np.ndindex(*a.shape):
            yield ('value %s' % list(ix), eq(y[ix], (0.0 if default else X['val']) if m[ix] else a[ix]))

    return Case(name, ins, impl, check, funcs=[P + 'remove_nan'], bounds='%s, %d nan' % (shape, len(bad)))


def enhance(name, shape, ks):
    """Enhanced image times its largest value equals squared local median times the share of pixels not above."""
    def impl(tp, X):
        keep = X['a'].copy()
        return tp.misc.corr.enhance_projs_aps_1id(X['a'], median_ks=ks, ncore=2), X['a'], keep

    def check(X, R):
        Y, now, was = R
        yield ('shape', tuple(Y.shape) == shape)
        a, y = S.plain(was), S.plain(Y)
        n, h, w = shape
        for k in range(n):
            raw = {}
            for i in range(h):
                for j in range(w):
                    xs = [sc(a[k, r, c]) if 0 <= r < h and 0 <= c < w else 0.0 for r in range(i - ks // 2, i + ks // 2 + 1) for c in range(j - ks // 2, j + ks // 2 + 1)]
                    m = T.rank(len(xs) // 2, xs)
                    # position of the pixel's value in the sorted image
                    below = 0
                    for r in range(h):
                        for c in range(w):
                            below = T.add(below, T.ite(sc(a[k, r, c]) < sc(a[k, i, j]), 1, 0))
                    raw[i, j] = T.mul(T.mul(m, m), T.div(T.add(below, 1), h * w))
            top = None
            for v in raw.values():
                top = v if top is None else T.maxv(top, v)
            for (i, j), v in raw.items():
                yield ('image %d pixel %s' % (k, [i, j]), eq(y[k, i, j], T.div(v, top)))
        yield from arrays_close('input unchanged', now, was, 1e-6)

    return Case(name, {'a': Sym(shape, 'f4', 1, 9)}, impl, check, funcs=[P + 'enhance_projs_aps_1id', P + '_enhance_img', P + '_calc_histequal_wgt'], bounds='%s kernel %d' % (shape, ks))


def failure(name, call):
    """A filter that cannot run reports it instead of returning something else."""
    def impl(tp, X):
        try:
            call(tp, X['a'])
        except Exception:
            return True
        return False

    def check(X, R):
        yield ('the failure is reported', R)
    return Case(name, {'a': Sym((2, 3, 3), 'f4', 0, 4)}, impl, check, funcs=[P + 'gaussian_filter'])


def T3(a):
    return a.transpose(2, 0, 1)


def rev(a):
    return a[:, ::-1]


def cases(tier):
    nan_ = float('nan')
    inf = float('inf')
    for ax, sh in ((0, (3, 4, 5)), (1, (3, 4, 5)), (2, (4, 2, 3)), (-1, (4, 2, 3)), (-3, (2, 3, 4))):
        yield gauss('gaussian axis %d' % ax, sh, ax, 1.2)
        yield sobel('sobel axis %d' % ax, sh, ax)
        yield med('median axis %d' % ax, sh, ax)
        yield outlier('outlier axis %d' % ax, (2, 3, 3) if ax != 2 else (3, 3, 2), ax)
        yield outlier1d('outlier1d axis %d' % ax, sh, ax)
    yield gauss('gaussian defaults', (2, 4, 4), 0, 3, ncore='default')
    yield gauss('gaussian two widths', (2, 4, 5), 0, (0.5, 1.4), ncore=3)
    yield gauss('gaussian two widths, other axis', (4, 2, 5), 1, (0.5, 1.4), ncore=1)
    yield gauss('gaussian no width', (2, 3, 3), 0, 0)
    yield gauss('gaussian first derivative', (2, 5, 5), 0, 0.8, order=1, ncore=2)
    yield gauss('gaussian mixed derivatives', (5, 2, 5), 1, 0.9, order=(0, 2))
    yield gauss('gaussian third derivative', (2, 4, 5), 0, 0.7, order=(3, 0))
    for o in ('lifo',):
        yield framed('gaussian reversed tasks', (4, 3, 3), lambda tp, X, a: tp.gaussian_filter(a, sigma=0.8, ncore=2), per_slice(0, lambda X, s, ix: separable(s, ix, [gauss_w(0.8, 0)] * 2)), [P + 'gaussian_filter'], order=o)
        yield sobel('sobel reversed tasks', (4, 3, 3), 0, ncore=2, order=o)
        yield med('median reversed tasks', (4, 3, 3), 0, ncore=2, order=o)
        yield outlier('outlier reversed tasks', (4, 3, 2), 0, ncore=3, order=o)
        yield outlier1d('outlier1d reversed tasks', (4, 3, 2), 0, ncore=2, order=o)
    yield med('median transposed view', (3, 4, 2), 1, view=T3)
    yield med('median of doubles', (2, 3, 3), 0, dt='f8')
    for size in (1, 2, 4, 5):
        yield med('median size %d' % size, (2, 4, 3), 0, size=size, ncore=2)
        yield outlier('outlier size %d' % size, (2, 3, 3), 0, size=size, ncore=9)
        yield outlier1d('outlier1d size %d' % size, (2, 5, 3), 1, size=size, ncore=4)
    yield sobel('sobel reversed view', (2, 4, 3), 0, view=rev)
    yield gauss('gaussian reversed view', (2, 4, 3), 2, 0.7, view=rev)
    for ax in (0, 1):
        for n in (2, 3):
            yield outlier('outlier 2-D axis %d of %d' % (ax, n), (n, 5), ax, ncore=n)
            yield outlier1d('outlier1d 2-D axis %d of %d' % (ax, n), (n, 5), ax, ncore=n)
    yield outlier('outlier 4-D', (2, 2, 2, 3), 1, ncore=2)
    yield outlier1d('outlier1d 4-D', (2, 2, 2, 3), 3, ncore=2)
    for out in ('inplace', 'other'):
        yield outlier('outlier %s' % out, (3, 3, 3), 0, ncore=2, out=out)
        yield outlier1d('outlier1d %s' % out, (3, 4, 2), 1, ncore=2, out=out)
        yield outlier('outlier view %s' % out, (3, 2, 3), 0, ncore=2, out=out, view=rev)
    yield outlier('outlier integers', (2, 3, 3), 0, dt='u2')
    yield outlier('outlier doubles', (2, 3, 3), 1, dt='f8')
    yield outlier1d('outlier1d integers', (2, 3, 3), 0, dt='u2')
    yield outlier('outlier transposed view', (3, 2, 3), 1, view=T3, ncore=2)
    yield outlier1d('outlier1d transposed view', (3, 2, 4), 1, view=T3, ncore=2)
    yield outlier('outlier more workers than slices', (2, 3, 3), 0, ncore=8)
    yield outlier1d('outlier1d one slice', (1, 5, 1), 1, ncore=4)
    yield neg('remove_neg', (2, 3, 3))
    yield neg('remove_neg of doubles', (2, 2), dt='f8', ncore=3)
    yield neg('remove_neg of integers', (2, 3), dt='i4')
    yield neg('remove_neg of a view', (2, 3, 2), view=T3, ncore=2)
    for dt in ('f4', 'f8'):
        yield nan('remove_nan %s' % dt, (2, 2, 3), [(0, 0, 0), (1, 1, 2), (0, 1, 1)], dt)
    yield nan('remove_nan all', (2, 2), list(np.ndindex(2, 2)), ncore=2)
    yield nan('remove_nan none', (2, 2), [])
    yield nan('remove_nan default value', (2, 3), [(0, 1), (1, 0)], default=True)
    yield nan('remove_nan of a view', (2, 3, 2), [(0, 1, 0), (1, 2, 1)], view=T3)
    for ax, sh in ((0, (2, 5, 5)), (1, (5, 2, 4)), (2, (3, 6, 2)), (-1, (4, 5, 2))):
        for ratio in (1, 0.8, 0.45, 1.3):
            yield mask('circular mask axis %d ratio %s' % (ax, ratio), sh, ax, ratio, ncore=2)
    yield mask('circular mask defaults', (2, 4, 6), 0, default=True)
    yield mask('circular mask of doubles', (2, 3, 4), 0, 0.9, dt='f8')
    yield mask('circular mask odd by even', (2, 5, 4), 0, 0.95)
    yield mask('circular mask of a view', (4, 4, 3), 1, 0.9, view=T3)
    yield mask('circular mask wide', (1, 3, 7), 0, 2.0)
    for lims in (('max',), ('min',), ('max', 'min'), ()):
        yield adjust('adjust range %s' % '+'.join(lims), (2, 2), lims)
    yield adjust('adjust range of doubles', (2, 2), ('max', 'min'), 'f8')
    yield adjust('adjust range of a stack', (1, 2, 2), ('max', 'min'))
    yield nonfinite('nonfinite inside', (1, 3, 4), {(0, 1, 1): nan_})
    yield nonfinite('nonfinite neighbours', (2, 3, 4), {(0, 1, 1): nan_, (0, 1, 2): inf, (1, 0, 0): -inf}, callback=True)
    yield nonfinite('nonfinite corners', (2, 3, 5), {(0, 0, 0): inf, (0, 2, 4): nan_, (1, 2, 0): nan_, (1, 0, 4): -inf})
    yield nonfinite('nonfinite wide kernel', (1, 3, 5), {(0, 0, 2): inf, (0, 2, 4): nan_}, size=5)
    yield nonfinite('nonfinite even kernel', (1, 4, 3), {(0, 1, 2): inf, (0, 0, 0): nan_}, size=2)
    yield nonfinite('nonfinite tall', (1, 6, 2), {(0, 5, 1): inf, (0, 4, 1): nan_})
    yield nonfinite('nonfinite none', (2, 2, 2), {}, callback=True)
    yield nonfinite('nonfinite refused', (1, 3, 3), {ix: nan_ for ix in np.ndindex(1, 2, 2)}, raises=True)
    yield nonfinite('nonfinite kernel 1 refused', (1, 2, 2), {(0, 0, 1): nan_}, size=1, raises=True)
    yield enhance('enhance', (2, 2, 2), 3)
    yield enhance('enhance one image', (1, 2, 3), 3)
    yield failure('too many widths', lambda tp, a: tp.gaussian_filter(a, sigma=(1, 1, 1)))
    yield failure('bad derivative', lambda tp, a: tp.gaussian_filter(a, sigma=1, order=(1, 1, 1)))
    yield failure('empty median window', lambda tp, a: tp.median_filter(a, size=0))
    yield failure('outlier with an empty window', lambda tp, a: tp.remove_outlier(a, 1, size=0))
    if tier == 'thorough':
        for ax in (0, 1, 2):
            for s in (0.4, 0.9, 2.1, (0.6, 1.9)):
                yield gauss('thorough gaussian %s axis %d' % (s, ax), (5, 6, 4), ax, s, ncore=3)
            for size in (3, 5):
                yield med('thorough median %d axis %d' % (size, ax), (4, 6, 5), ax, size=size, ncore=3, order='lifo')
                yield outlier('thorough outlier %d axis %d' % (size, ax), (3, 4, 4), ax, size=size, ncore=3, order='lifo')
                yield outlier1d('thorough outlier1d %d axis %d' % (size, ax), (4, 6, 4), ax, size=size, ncore=3, order='lifo')
            for ratio in (0.3, 0.7, 0.9, 1.05, 1.41):
                for n in (4, 5, 7):
                    yield mask('thorough mask %d %s %d' % (n, ratio, ax), tuple(2 if i == ax else n + (i == 2) for i in range(3)), ax, ratio)
