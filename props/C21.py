"""Geometric corrections of projections."""
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ()
BOUNDS = 'projections up to 3 x 6 x 7: every value symbolic for distortion correction, blurring, cropping, jitter and whole-pixel shifts; one symbolic value with clipping decided path by path otherwise; eight distortion models, centres inside and outside, up to three workers'
OUTSIDE = 'larger projections; other coefficients and shifts; the spline that interpolates between pixels in image shifts is taken from scipy; automatic detection of slits; reading coefficients from a file; stacks of zeros in scaling and shifting'
ASSUMPTIONS = ['scipy interpolation is the linear map it computes on unit images', 'operations on symbolic values are over the reals']
P = 'tomopy.prep.alignment.'


def bilinear(img, y, x):
    h, w = img.shape
    y0, x0 = min(int(math.floor(y)), h - 1), min(int(math.floor(x)), w - 1)
    y1, x1 = min(y0 + 1, h - 1), min(x0 + 1, w - 1)
    fy, fx = y - y0, x - x0
    r = 0.0
    for yy, wy in ((y0, 1 - fy), (y1, fy)):
        for xx, wx in ((x0, 1 - fx), (x1, fx)):
            if wy * wx:
                r = T.add(r, T.mul(wy * wx, sc(img[yy, xx])))
    return r


def unwarped(img, xc, yc, fact):
    h, w = img.shape
    out = np.empty((h, w), object)
    for i in range(h):
        for j in range(w):
            dx, dy = j - xc, i - yc
            r = math.hypot(dx, dy)
            f = sum(c * r ** k for k, c in enumerate(fact))
            out[i, j] = bilinear(img, min(max(yc + f * dy, 0.0), h - 1.0), min(max(xc + f * dx, 0.0), w - 1.0))
    return out


def distortion(name, shape, xc, yc, fact, ncore=1, nchunk=None, dt='f4', **kw):
    """Projections and all of their sinograms."""
    ins = {'a': Sym(shape, dt, -3, 3)}

    def impl(tp, X):
        a = X['a']
        was = a.copy()
        m = tp.prep.alignment
        y = m.distortion_correction_proj(a, xc, yc, fact, ncore=ncore, nchunk=nchunk)
        return y, [m.distortion_correction_sino(a, i, xc, yc, fact) for i in range(shape[1])], a, was

    def check(X, R):
        y, sinos, a, was = R
        yield ('shape', tuple(y.shape) == shape and y.dtype == np.dtype(dt))
        A = S.plain(X['a'])
        Y = S.plain(y)
        for m in range(shape[0]):
            want = unwarped(A[m], xc, yc, fact)
            for ix in np.ndindex(*shape[1:]):
                yield ('projection %d %s' % (m, list(ix)), close(sc(Y[(m,) + ix]), want[ix], 2e-5))
            for i, s in enumerate(sinos):
                yield ('shape of sinogram', tuple(s.shape) == (shape[0], shape[2]) and s.dtype == np.float32)
                Z = S.plain(s)
                for j in range(shape[2]):
                    yield ('sinogram %d [%d, %d]' % (i, m, j), close(sc(Z[m, j]), want[i, j], 2e-5))
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('distortion: ' + name, ins, impl, check, funcs=[P + 'distortion_correction_proj', P + 'distortion_correction_sino', P + '_unwarp_image_backward'], bounds=str(shape), **kw)


def blur(shape, low, high):
    ins = {'a': Sym(shape, 'f8', -3, 3)}

    def impl(tp, X):
        was = X['a'].copy()
        kw = {} if low is None else dict(low=low, high=high)
        return tp.prep.alignment.blur_edges(X['a'], **kw), X['a'], was

    def check(X, R):
        y, a, was = R
        yield ('shape', tuple(y.shape) == shape)
        lo, hi = (0.0, 0.8) if low is None else (low, high)
        A, Y = S.plain(X['a']), S.plain(y)
        far = max(math.hypot(i - shape[1] / 2.0, j - shape[2] / 2.0) for i in range(shape[1]) for j in range(shape[2]))
        for ix in np.ndindex(*shape):
            r = math.hypot(ix[1] - shape[1] / 2.0, ix[2] - shape[2] / 2.0) / far
            w = 1.0 if r < lo else 0.0 if r > hi else (hi - r) / (hi - lo)
            yield ('value %s' % list(ix), close(sc(Y[ix]), T.mul(sc(A[ix]), w), 1e-6))
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('blur %s from %s to %s' % (shape, low, high), ins, impl, check, funcs=[P + 'blur_edges'], bounds=str(shape))


def scaling(shape, free=None, lo=-3, hi=3, up=0.0, tag=''):
    base = (np.arange(np.prod(shape)).reshape(shape) - 3.0) / 7 + up
    ins = {'a': Sym(shape, 'f4', lo, hi, base=base, free=free)}

    def impl(tp, X):
        return tp.prep.alignment.scale(X['a'])

    def check(X, R):
        y, s = R
        s = sc(s)
        one = False
        A, Y = S.plain(X['a']), S.plain(y)
        for ix in np.ndindex(*shape):
            v = sc(A[ix])
            yield ('within [-1, 1] %s' % list(ix), T.le(T.absv(v), T.add(s, 1e-6)))
            yield ('value %s' % list(ix), close(T.mul(sc(Y[ix]), s), v, 1e-5))
            one = T.or_(one, T.le(T.absv(T.sub(T.absv(v), s)), 1e-6))
        yield ('the largest magnitude', one)
    return Case('scale %s%s' % (shape, tag), ins, impl, check, funcs=[P + 'scale'], bounds=str(shape), forks=free is not None)


def spline(h, w, dy, dx):
    """Weights of the quintic spline of an image at its shifted grid; nothing outside of the image."""
    from scipy.ndimage import map_coordinates
    c = np.mgrid[:h, :w].astype(float)
    c[0] += dy
    c[1] += dx
    W = np.zeros((h * w, h * w))
    for i in range(h * w):
        e = np.zeros(h * w)
        e[i] = 1
        W[:, i] = map_coordinates(e.reshape(h, w), c, order=5, mode='grid-constant', cval=0.0).ravel()
    return W


def least(xs, less):
    r = xs[0]
    for x in xs[1:]:
        r = less(r, x)
    return r


def shifting(name, base, free, sx, sy, lo=-4, hi=4):
    """Projection m shows at (r, c) what was at (r + sx[m], c + sy[m])."""
    base = np.asarray(base, 'f4')
    shape = base.shape
    ins = {'a': Sym(shape, 'f4', lo, hi, base=base, free=free)}
    whole = all(float(v).is_integer() for v in list(sx) + list(sy))

    def impl(tp, X):
        return tp.prep.alignment.shift_images(X['a'], sx, sy)

    def check(X, R):
        yield ('shape', tuple(R.shape) == shape)
        A, Y = S.plain(X['a']), S.plain(R)
        h, w = shape[1:]
        for m in range(shape[0]):
            xs = [sc(v) for v in A[m].ravel()]
            if whole:
                ys = []
                for r in range(h):
                    for c in range(w):
                        i, j = r + int(sx[m]), c + int(sy[m])
                        ys.append(sc(A[m, i, j]) if 0 <= i < h and 0 <= j < w else 0.0)
            else:
                W = spline(h, w, sx[m], sy[m])
                ys = []
                for row in W:
                    v = 0.0
                    for k, x in enumerate(xs):
                        if abs(row[k]) > 1e-14:
                            v = T.add(v, T.mul(float(row[k]), x))
                    ys.append(v)
                a, b = least(xs, T.minv), least(xs, T.maxv)
                # values stay within those of the image, and zero where the shift reaches outside
                reach = any(not (0 <= r + sx[m] <= h - 1) for r in range(h)) or any(not (0 <= c + sy[m] <= w - 1) for c in range(w))
                if reach:
                    a, b = T.minv(a, 0.0), T.maxv(b, 0.0)
                ys = [T.minv(T.maxv(v, a), b) for v in ys]
            for k, ix in enumerate(np.ndindex(h, w)):
                yield ('value %s' % list((m,) + ix), close(sc(Y[(m,) + ix]), ys[k], 1e-4))
    return Case('shift: ' + name, ins, impl, check, funcs=[P + 'shift_images', P + 'scale'], bounds=str(shape), forks=True, timeout=100)


def jitter(shape, low, high, seed):
    base = (np.arange(np.prod(shape)).reshape(shape) % 7 - 2.5)
    ins = {'a': Sym(shape, 'f4', -4, 4, base=base, free=[(0, 1, 2)])}

    def impl(tp, X):
        np.random.seed(seed)
        kw = {} if low is None else dict(low=low, high=high)
        y, tx, ty = tp.prep.alignment.add_jitter(X['a'], **kw)
        return y, tx, ty

    def check(X, R):
        y, tx, ty = R
        yield ('shapes', tuple(y.shape) == shape and tuple(tx.shape) == shape[:1] and tuple(ty.shape) == shape[:1])
        A, Y = S.plain(X['a']), S.plain(y)
        a, b = (0.0, 1.0) if low is None else (low, high)
        h, w = shape[1:]
        for m in range(shape[0]):
            dx, dy = float(sc(tx.flat[m])), float(sc(ty.flat[m]))
            yield ('jitter within limits', a <= dx <= b and a <= dy <= b)
            for r in range(h):
                for c in range(w):
                    i, j = r + dy, c + dx
                    if min(abs(i + 0.5 - round(i + 0.5)), abs(j + 0.5 - round(j + 0.5))) < 1e-3:
                        continue   # two pixels are as near
                    i, j = int(math.floor(i + 0.5)), int(math.floor(j + 0.5))
                    v = sc(A[m, i, j]) if 0 <= i < h and 0 <= j < w else 0.0
                    yield ('value %s' % [m, r, c], close(sc(Y[m, r, c]), v, 1e-4))
    return Case('jitter from %s to %s, seed %d' % (low, high, seed), ins, impl, check, funcs=[P + 'add_jitter'], bounds=str(shape), forks=True, timeout=100)


def noise(shape, ratio, free):
    base = np.arange(np.prod(shape)).reshape(shape) / 4.0
    ins = {'a': Sym(shape, 'f4', 0, 5, base=base, free=free)}

    def impl(tp, X):
        was = X['a'].copy()
        np.random.seed(3)
        ref = tp.prep.alignment.add_noise(np.ones(shape, 'f4'), ratio=1.0)
        np.random.seed(3)
        return ref, tp.prep.alignment.add_noise(X['a'], ratio=ratio), X['a'], was

    def check(X, R):
        ref, y, now, was = R
        A, Z, Y = S.plain(X['a']), S.plain(ref), S.plain(y)
        top = least([sc(v) for v in A.ravel()], T.maxv)
        for ix in np.ndindex(*shape):
            z = T.sub(sc(Z[ix]), 1.0)
            yield ('value %s' % list(ix), close(sc(Y[ix]), T.add(sc(A[ix]), T.mul(z, T.mul(top, ratio))), 2e-5, 1e-5))
        yield from arrays_close('input unchanged', now, was, 0)
    return Case('noise %s' % ratio, ins, impl, check, funcs=[P + 'add_noise'], bounds=str(shape))


def slits(shape, clip):
    """The window between the corners, without the given margins."""
    x0, x1, y0, y1 = 0.3, shape[2] - 1.4, 1.2, shape[1] - 0.6
    cn = np.array([[x0, y0], [x0 + 0.5, y1], [x1, y1 - 0.2], [x1 - 0.3, y0 + 0.4]])
    ins = {'a': Sym(shape, 'f4', -3, 3)}

    def impl(tp, X):
        return tp.prep.alignment.remove_slits_aps_1id(X['a'], cn.copy(), inclip=clip)

    def check(X, R):
        l, u = int(math.floor(x0)) + clip[0], int(math.ceil(x1)) - clip[1]
        t, b = int(math.floor(y0)) + clip[2], int(math.ceil(y1)) - clip[3]
        A = S.plain(X['a'])[:, t:b, l:u]
        yield from arrays_close('window', R, A, 0)
    return Case('slits %s' % (clip,), ins, impl, check, funcs=[P + 'remove_slits_aps_1id', P + 'calc_slit_box_aps_1id'], bounds=str(shape))


def cases(tier):
    yield distortion('none', (2, 4, 5), 2.0, 1.5, [1.0])
    yield distortion('magnified', (1, 5, 6), 2.3, 1.9, [0.8])
    yield distortion('shrunk beyond the border', (1, 4, 5), 2.1, 1.4, [1.5])
    yield distortion('barrel', (2, 5, 6), 2.4, 2.2, [1.0, -0.02, 0.003])
    yield distortion('pincushion', (1, 6, 5), 2.4, 2.6, [1.0, 0.03, 0.004, -0.0005])
    yield distortion('centre in a corner', (1, 5, 5), 0.2, 4.1, [0.9, 0.02])
    yield distortion('centre outside', (1, 4, 5), 6.5, -2.3, [1.02, -0.01])
    yield distortion('strong pincushion', (1, 6, 9), 4.0, 1.0, [0.7, 0.08])
    yield distortion('strong barrel', (1, 6, 9), 4.2, 3.9, [1.3, -0.08])
    yield distortion('zero terms', (1, 4, 4), 1.5, 1.5, [1.0, 0.0, 0.02])
    yield distortion('two tasks', (3, 4, 4), 1.3, 1.7, [1.0, -0.03], ncore=2, order='lifo')
    yield distortion('tasks of one', (3, 3, 4), 1.3, 1.1, [1.0, 0.04], ncore=3, nchunk=1)
    yield distortion('single row', (2, 1, 6), 2.6, 0.0, [1.0, 0.05])
    yield distortion('single column', (2, 5, 1), 0.0, 2.2, [0.9, 0.02])
    yield blur((2, 5, 6), None, None)
    yield blur((1, 6, 5), 0.3, 0.9)
    yield blur((1, 5, 5), 0.5, 0.51)
    yield blur((2, 4, 7), 0.2, 1.0)
    yield blur((1, 1, 4), 0.0, 0.7)
    yield scaling((1, 2, 2), [(0, 0, 1)])
    yield scaling((2, 2, 2), [(1, 0, 0)])
    yield scaling((3, 1, 2), [(1, 0, 1)], lo=0, up=0.5, tag=', no negative values')
    yield scaling((3, 2, 1), [(1, 1, 0)], hi=0, up=-2, tag=', no positive values')
    b = np.random.RandomState(3).uniform(-2, 3, (2, 5, 6))
    b[1, 0, 0] = 6
    yield shifting('whole pixels', b, [(0, 2, 3)], [1, 0], [0, -2])
    yield shifting('whole pixels, both directions', b, [(1, 2, 2)], [-1, 2], [1, -1])
    yield shifting('far', b, [(0, 2, 3)], [4, -7], [0, 1])
    yield shifting('value that sets the scale', b[:1], [(0, 2, 3)], [1], [1], lo=-9, hi=9)
    yield shifting('fractions', b, [(0, 2, 3)], [0.3, -0.4], [-0.6, 0.2])
    yield shifting('fraction along one axis', b, [(1, 3, 1)], [0.5, 0.0], [0.0, 0.25])
    b4 = np.random.RandomState(4).uniform(-2, 3, (4, 4, 5))
    yield shifting('a shift of its own for each of four', b4, [(3, 2, 2)], [0, 1, -1, 2], [1, -1, 2, -2])
    yield jitter((2, 4, 5), None, None, 1)
    yield jitter((3, 5, 4), -1.4, 2.2, 2)
    yield jitter((2, 4, 4), -3, -1, 3)
    yield noise((2, 2, 3), 0.05, [(0, 1, 1)])
    yield noise((1, 3, 2), 0.4, [(0, 1, 1), (0, 0, 0)])
    yield slits((2, 8, 9), (1, 2, 1, 3))
    yield slits((1, 7, 8), (0, 0, 0, 0))
    if tier == 'thorough':
        for k, f in enumerate(([1.0, 0.01, -0.004], [0.7, 0.05], [1.2, -0.06, 0.01])):
            yield distortion('larger %d' % k, (2, 8, 9), 3.7, 4.4, f)
