"""Padding, resampling, trimming and joining of data."""
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ('misc',)
BOUNDS = 'arrays up to 8 x 5 x 9 with every value symbolic; all axes, paddings 0 to 4 and the default, levels 0 to 3, all overlaps below the width of arrays up to 7 wide, circles inside and partly outside of the detector'
OUTSIDE = 'larger arrays; overlaps of the full width or more; float32 rounding'
ASSUMPTIONS = ['operations on symbolic values are over the reals']
P = 'tomopy.misc.morph.'


def make(name, shape, call, want, funcs, dt='f4', outdt=None, lo=-9, hi=9, view=None, tol=1e-4, extra=None, **kw):
    ins = {'a': Sym(shape, dt, lo, hi)}
    if extra:
        ins.update(extra)

    def impl(tp, X):
        a = X['a'] if view is None else view(X['a'])
        was = a.copy()
        return call(tp, a, X), a, was

    def check(X, R):
        Y, now, was = R
        a = S.plain(was)
        w = want(a, X)
        yield ('shape', tuple(Y.shape) == w.shape)
        if tuple(Y.shape) != w.shape:
            return
        yield ('type', str(np.dtype(Y.dtype)) == str(np.dtype(outdt or dt)))
        y = S.plain(Y)
        for ix in np.ndindex(*w.shape):
            yield ('value %s' % list(ix), close(sc(y[ix]), w[ix], tol))
        yield from arrays_close('input unchanged', now, was, 0)
    return Case(name, ins, impl, check, funcs=[P + f if f[0] != '!' else f[1:] for f in funcs], bounds=str(shape), **kw)


def filled(shape, f):
    o = np.empty(shape, object)
    for ix in np.ndindex(*shape):
        o[ix] = f(*ix)
    return o


# ------------------------------------------------------------------------------------------------ padding
def padcase(name, shape, axis, npad=None, mode='constant', value=None, symvalue=False, dt='f4', **kw):
    ax = axis % len(shape)
    n = shape[ax]
    if npad is None:
        np_ = math.ceil((n * math.sqrt(2) - n) / 2)
    else:
        np_ = npad
    oshape = list(shape)
    if kw.get('view') is not None:
        oshape = list(kw['view'](np.empty(shape)).shape)
        n = oshape[ax]
        if npad is None:
            np_ = math.ceil((n * math.sqrt(2) - n) / 2)
    oshape[ax] += 2 * np_

    def want(a, X):
        def at(*ix):
            k = ix[ax] - np_
            if mode == 'constant' and not 0 <= k < n:
                return sc(X['v']) if symvalue else (0 if value is None else value)
            ix = list(ix)
            ix[ax] = min(max(k, 0), n - 1)
            return sc(a[tuple(ix)])
        return filled(tuple(oshape), at)

    def call(tp, a, X):
        k = {}
        if symvalue:
            k['constant_values'] = X['v']
        elif value is not None:
            k['constant_values'] = value
        if npad is not None:
            k['npad'] = npad
        return tp.misc.morph.pad(a, axis, mode=mode, **k)
    lo, hi = (0, 9) if np.dtype(dt).kind in 'iu' else (-9, 9)
    extra = {'v': SymScalar('f8', -5, 5)} if symvalue else None
    return make('pad: ' + name, shape, call, want, ['pad', '_get_npad', '_get_slices'], dt=dt, lo=lo, hi=hi, extra=extra, **kw)


# ------------------------------------------------------------------------------------------------ resampling
def down(shape, level, axis, **kw):
    b = 2 ** level

    def want(a, X):
        o = list(a.shape)
        o[axis] //= b

        def at(*ix):
            r = 0.0
            for p in range(b):
                j = list(ix)
                j[axis] = ix[axis] * b + p
                r = T.add(r, sc(a[tuple(j)]))
            return T.mul(r, 1.0 / b)
        return filled(tuple(o), at)
    return make('downsample %s level %d axis %d%s' % (shape, level, axis, kw.pop('tag', '')), shape, lambda tp, a, X: tp.misc.morph.downsample(a, level=level, axis=axis), want,
                ['downsample', '_sample', '_init_out', '!downsample', '!sample'], outdt='f4', **kw)


def up(shape, level, axis, **kw):
    b = 2 ** level

    def want(a, X):
        o = list(a.shape)
        o[axis] *= b

        def at(*ix):
            j = list(ix)
            j[axis] //= b
            return sc(a[tuple(j)])
        return filled(tuple(o), at)
    return make('upsample %s level %d axis %d%s' % (shape, level, axis, kw.pop('tag', '')), shape, lambda tp, a, X: tp.misc.morph.upsample(a, level=level, axis=axis), want,
                ['upsample', '_sample', '_init_out', '!upsample', '!sample'], outdt='f4', **kw)


# ------------------------------------------------------------------------------------------------ joining halves
def join(shape, overlap, rotation, old=False, **kw):
    ov = int(np.round(overlap))

    def want(a, X):
        dx, dy, dz = a.shape
        n = dx // 2

        def ramp(k):
            """Weight of a pixel k pixels away from the edge where its half ends."""
            return 0.5 if ov == 1 else k / (ov - 1.0)

        def at(i, s, j):
            # position on the joined detector: the second half turn is the mirror image
            if rotation == 'left':
                d, m = j - (dz - ov), dz - 1 - j              # direct pixel, mirrored pixel
                dist, mdist = d, m
            else:
                d, m = j, 2 * dz - ov - 1 - j
                dist, mdist = dz - 1 - d, dz - 1 - m
            ind, inm = 0 <= d < dz, 0 <= m < dz
            if ind and inm:
                return T.add(T.mul(ramp(dist), sc(a[i, s, d])), T.mul(ramp(mdist), sc(a[n + i, s, m])))
            return sc(a[i, s, d]) if ind else sc(a[n + i, s, m])
        return filled((n, dy, 2 * dz - ov), at)
    return make('join %s overlap %s %s%s' % (shape, overlap, rotation, ' (old name)' if old else ''), shape,
                lambda tp, a, X: (tp.misc.morph.sino_360_t0_180 if old else tp.misc.morph.sino_360_to_180)(a, overlap, rotation), want, ['sino_360_to_180'], **kw)


# ------------------------------------------------------------------------------------------------ region of interest
def trim(shape, center, x, y, diameter, **kw):
    def want(a, X):
        dx, dy, dz = a.shape
        o = filled((dx, dy, int(diameter)), lambda *ix: 1.0)
        for m in range(dx):
            phi = m * math.pi / dx
            start = center - diameter / 2.0 + x * math.sin(phi) + y * math.cos(phi)
            for v in (start, start + diameter):
                assert abs(v - round(v)) > 1e-5, 'ambiguous'
            lo, hi = min(max(math.ceil(start), 0), dz), min(max(math.floor(start + diameter), 0), dz)
            for k in range(hi - lo):
                for s in range(dy):
                    o[m, s, k] = sc(a[m, s, lo + k])
        return o
    return make('trim %s centre %s circle at %s, %s of %s' % (shape, center, x, y, diameter), shape, lambda tp, a, X: tp.misc.morph.trim_sinogram(a, center, x, y, diameter), want,
                ['trim_sinogram'], outdt='f4', **kw)


def swapped(a):
    return a.swapaxes(0, 2)


def cases(tier):
    for ax in (0, 1, 2):
        yield padcase('axis %d, default width' % ax, (3, 4, 5), ax)
        yield padcase('axis %d, edge' % ax, (3, 4, 2), ax, 2, 'edge')
        yield padcase('axis %d, value' % ax, (2, 3, 4), ax, 1, value=2.5)
    yield padcase('last axis from the end', (2, 3, 4), -1, 2)
    yield padcase('any value', (2, 3, 2), 1, 3, symvalue=True)
    yield padcase('width 0', (2, 3, 2), 2, 0)
    yield padcase('width 0, edge', (2, 3, 2), 2, 0, 'edge')
    yield padcase('axis of one', (2, 1, 3), 1, 4, 'edge')
    yield padcase('two dimensions', (3, 4), 1, 2, 'edge')
    yield padcase('default width of a long axis', (1, 1, 30), 2)
    for dt in ('f8', 'i4', 'i8', 'i2', 'u2', 'u1'):
        yield padcase('type ' + dt, (2, 2, 3), 2, 2, dt=dt, value=3)
        yield padcase('edge, type ' + dt, (2, 2, 3), 2, 2, 'edge', dt=dt)
    yield padcase('bool', (2, 2, 2), 2, 1, dt='?', value=True)
    yield padcase('bool, edge', (2, 2, 2), 1, 1, 'edge', dt='?')
    yield padcase('view', (2, 3, 4), 2, None, 'edge', view=swapped)
    for ax in (0, 1, 2):
        for lv, sh in ((0, (2, 3, 2)), (1, (4, 2, 2)), (1, (4, 4, 6)), (2, (8, 4, 4)), (1, (5, 5, 5)), (1, (3, 5, 7)), (2, (5, 6, 7))):
            yield down(sh, lv, ax)
        for lv, sh in ((0, (2, 3, 2)), (1, (3, 2, 4)), (2, (2, 3, 3)), (3, (1, 2, 2))):
            yield up(sh, lv, ax)
    yield down((2, 2, 8), 3, 2)
    yield down((2, 1, 5), 1, 2)
    yield down((1, 2, 7), 2, 2)
    yield down((1, 1, 6), 2, 2)
    yield down((1, 5, 2), 1, 1)
    yield down((2, 7, 1), 2, 1)
    yield down((5, 1, 2), 1, 0)
    yield down((7, 2, 1), 2, 0)
    yield down((6, 4, 2), 1, 2, view=swapped, tag=', view')
    yield up((3, 4, 2), 1, 0, view=swapped, tag=', view')
    yield down((4, 2, 4), 1, 0, dt='f8', tag=', double')
    yield down((4, 2, 4), 1, 2, dt='i4', lo=0, tag=', integers')
    yield up((2, 2, 3), 1, 1, dt='u2', lo=0, tag=', integers')
    for rot in ('left', 'right'):
        for ov in (0, 1, 2, 3, 4):
            yield join((4, 2, 5), ov, rot)
        yield join((5, 1, 7), 6, rot)
        yield join((2, 3, 6), 2.4, rot)
        yield join((3, 1, 4), 2.6, rot)
        yield join((6, 2, 3), 2, rot, old=True)
        yield join((4, 2, 6), 3, rot, dt='f8')
    yield trim((5, 2, 9), 4.3, 0.7, 0.4, 4)
    yield trim((4, 1, 8), 3.8, -1.37, 1.1, 3)
    yield trim((6, 2, 8), 3.6, 2.3, -2.6, 5)
    yield trim((6, 1, 7), 1.2, -2.4, 1.3, 4)
    yield trim((5, 1, 7), 5.9, 2.2, 1.9, 5)
    yield trim((4, 2, 9), 4.25, 0, 0, 6)
    yield trim((3, 1, 9), 4.3, 0.6, 0.4, 4.5)
    yield trim((4, 2, 8), 3.3, 1, 1, 3, dt='f8')
