"""Three-dimensional median filter and dezinger."""
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ('misc',)
BOUNDS = 'volumes up to 4 x 3 x 4 (float32 and uint16) with every voxel and the threshold symbolic, kernel sizes 1 to 7, 1 to 5 workers'
OUTSIDE = 'larger volumes and kernels; threads that really run at the same time (C26)'
ASSUMPTIONS = ['qsort sorts by the given comparator', 'operations on symbolic values are over the reals']
P = 'tomopy.misc.corr.'


def radius(size):
    """An odd kernel of at least 3; an even size counts as the next smaller odd one."""
    return (max(int(size), 3) - 1) // 2


def neighbour_median(a, ix, r, real=False):
    """Median over the cube; a neighbour outside the volume is replaced, along the axis concerned, by the centre's index."""
    xs = []
    for off in np.ndindex(*(2 * r + 1,) * 3):
        j = [i + o - r for i, o in zip(ix, off)]
        xs.append(sc(a[tuple(k if 0 <= k < n else i for k, n, i in zip(j, a.shape, ix))]))
    return T.rank(len(xs) // 2, [T.to_real(x) for x in xs] if real else xs)


def vol(name, shape, dt='f4', size=3, dif=None, ncore=None, order='C', view=None, default=False, lo=0, hi=None, exact=0.0):
    hi = hi if hi is not None else (60000 if dt == 'u2' else 9)
    ins = {'a': Sym(shape, dt, lo, hi)}
    if dif == 'sym':
        ins['dif'] = SymScalar('f8', *( (0.5, 9000) if dt == 'u2' else (0.25, 6)))

    def impl(tp, X):
        a = X['a'] if view is None else view(X['a'])
        keep = a.copy()
        kw = {} if default else {'size': size, 'ncore': ncore}
        if dif is None:
            Y = tp.misc.corr.median_filter3d(a, **kw)
        else:
            Y = tp.misc.corr.remove_outlier3d(a, X['dif'] if dif == 'sym' else dif, **kw)
        return Y, a, keep

    def check(X, R):
        Y, now, was = R
        a = S.plain(was)
        yield ('shape', tuple(Y.shape) == a.shape)
        yield ('dtype', Y.dtype == (np.uint16 if dt == 'u2' else np.float32))
        d = X['dif'] if dif == 'sym' else dif
        for ix in np.ndindex(*a.shape):
            m = neighbour_median(a, ix, radius(3 if default else size), dt in ('i4', 'u1'))
            v = sc(a[ix])
            if dt in ('i4', 'u1') and d is not None:
                v = T.to_real(v)
            y = sc(S.plain(Y)[ix])
            if d is None:
                yield ('median %s' % list(ix), close(y, m, 1e-3))
            else:
                gap = T.sub(v, m)
                gap = T.maxv(gap, T.neg(gap))
                yield ('value %s' % list(ix), close(y, T.ite(gap >= d, m, v), 1e-3))
        yield from arrays_close('input unchanged', now, was, 1e-6)

    return Case(name, ins, impl, check, funcs=[P + ('median_filter3d' if dif is None else 'remove_outlier3d'), 'medianfilter_main_float', 'medianfilter_main_uint16'],
                bounds='%s %s size %s' % (shape, dt, size))


def refuse(name, shape):
    def impl(tp, X):
        out = []
        for f in (lambda a: tp.misc.corr.median_filter3d(a), lambda a: tp.misc.corr.remove_outlier3d(a, 1.0)):
            try:
                f(X['a'])
                out.append(False)
            except ValueError:
                out.append(True)
        return out

    def check(X, R):
        yield ('median_filter3d refuses', R[0])
        yield ('remove_outlier3d refuses', R[1])
    return Case(name, {'a': Sym(shape, 'f4', 0, 1) if np.prod(shape) else np.zeros(shape, 'f4')}, impl, check, funcs=[P + 'median_filter3d'])


def T3(a):
    return a.transpose(2, 0, 1)


def rev(a):
    return a[::-1, :, ::-1]


def half(a):
    return a[:, :, ::2]


def cases(tier):
    for dt in ('f4', 'u2'):
        for d, nm in ((None, 'median'), ('sym', 'dezinger')):
            yield vol('%s %s' % (nm, dt), (3, 3, 4), dt, 3, d)
            yield vol('%s %s defaults' % (nm, dt), (2, 3, 2), dt, 3, d, default=True)
            yield vol('%s %s flat volume' % (nm, dt), (1, 4, 3), dt, 3, d, ncore=2)
            yield vol('%s %s tall' % (nm, dt), (5, 1, 2), dt, 3, d, ncore=5)
            for size in (1, 2, 4, 5, 6):
                yield vol('%s %s size %d' % (nm, dt, size), (2, 3, 2), dt, size, d, ncore=2)
            yield vol('%s %s transposed view' % (nm, dt), (3, 2, 4), dt, 3, d, view=T3)
            yield vol('%s %s reversed view' % (nm, dt), (3, 2, 3), dt, 3, d, view=rev)
            yield vol('%s %s strided view' % (nm, dt), (2, 2, 5), dt, 3, d, view=half)
    for dt in ('f8', 'i4', 'u1'):
        yield vol('median %s' % dt, (2, 3, 3), dt, 3, hi=200)
        yield vol('dezinger %s' % dt, (2, 3, 3), dt, 3, 2.5, hi=200)
        yield vol('dezinger transposed %s' % dt, (2, 3, 3), dt, 3, 2.5, hi=200, view=T3)
    yield vol('median signed', (2, 3, 3), 'f4', 3, lo=-9)
    yield vol('dezinger signed', (2, 3, 3), 'f4', 3, 'sym', lo=-9)
    yield vol('dezinger of nothing', (2, 2, 3), 'f4', 3, 0.0, lo=-9)
    yield vol('dezinger large threshold', (2, 2, 3), 'u2', 3, 65535.0)
    yield vol('dezinger integer threshold', (2, 2, 3), 'u2', 3, 300)
    yield refuse('two dimensions', (3, 3))
    yield refuse('empty', (0, 3, 3))
    if tier == 'thorough':
        for dt in ('f4', 'u2'):
            for d in (None, 'sym'):
                for size in (3, 5, 7):
                    for sh in ((4, 3, 4), (2, 5, 3), (6, 2, 2)):
                        yield vol('thorough %s %s %d %s' % ('median' if d is None else 'dezinger', dt, size, sh), sh, dt, size, d, ncore=3)
