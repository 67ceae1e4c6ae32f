"""Slit boxes: finding their corners, and moving drifted images back."""
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close

LIBS = ()
BOUNDS = 'drift: stacks of up to 4 images of 7 x 9 pixels with every value symbolic, whole-pixel and affine drifts, corners found at once, after several attempts or never; transforms of 3 to 6 fixed points with every entry symbolic; corners: images up to 20 x 30 pixels with up to four symbolic values'
OUTSIDE = 'the curve fit that refines corners to parts of a pixel; larger images; reading coefficients from a file'
ASSUMPTIONS = ['scipy interpolation and least squares are the linear maps they compute on unit arrays', 'operations on symbolic values are over the reals', 'drift: the corner finder is replaced by a table']
P = 'tomopy.prep.alignment.'
TABLE = []


def corners(img, method='quadrant+', medfilt2_kernel_size=3, medfilt_kernel_size=23):
    """Stand-in for the corner finder: the first value of the image says which it is."""
    k = int(round(float(sc(img[0, 0]))))
    return np.array(TABLE[k](medfilt2_kernel_size, medfilt_kernel_size), float)


def spline3(h, w, G):
    """Cubic interpolation of every unit image at G (x, y, 1)."""
    from scipy.ndimage import map_coordinates
    r, c = np.mgrid[:h, :w].astype(float)
    x = G[0, 0] * c + G[0, 1] * r + G[0, 2]
    y = G[1, 0] * c + G[1, 1] * r + G[1, 2]
    W = np.zeros((h * w, h * w))
    for i in range(h * w):
        e = np.zeros(h * w)
        e[i] = 1
        W[:, i] = map_coordinates(e.reshape(h, w), [y, x], order=3, mode='constant', cval=0.0).ravel()
    # border: coordinates that rounding may put on either side of it
    b = np.minimum(np.minimum(abs(x), abs(x - (w - 1))), np.minimum(abs(y), abs(y - (h - 1)))).ravel() < 1e-9
    return W, b


REF = np.array([[1.0, 1.0], [1.0, 5.0], [7.0, 5.0], [7.0, 1.0]])


def drift(name, shape, maps, found=None, ncore=1, ref=REF, **kw):
    """maps[n]: where the reference points appear in image n, as a 2 x 3 matrix acting on (x, y, 1)."""
    n = shape[0]
    base = np.zeros(shape, 'f8')
    for k in range(n):
        base[k, 0, 0] = k
    ins = {'a': Sym(shape, 'f8', -3, 3, base=base, free=[ix for ix in np.ndindex(*shape) if ix[1:] != (0, 0)])}
    G = [np.vstack([np.asarray(m, float), [0, 0, 1]]) for m in maps]

    def at(k):
        return (G[k] @ np.vstack([ref.T, np.ones(len(ref))]))[:2].T

    def impl(tp, X):
        m = tp.prep.alignment
        keep = m.find_slits_corners_aps_1id
        del TABLE[:]
        for k in range(n):
            TABLE.append((lambda a, b, k=k: at(k)) if not found or not found[k] else (lambda a, b, k=k: found[k](a, b, at(k))))
        a = X['a']
        was = a.copy()
        try:
            m.find_slits_corners_aps_1id = corners
            y, c, F = m.detector_drift_adjust_aps_1id(a, ref.copy(), ncore=ncore)
        finally:
            m.find_slits_corners_aps_1id = keep
        return y, c, F, a, was

    def check(X, R):
        y, c, F, a, was = R
        h, w = shape[1:]
        yield ('shape', tuple(y.shape) == shape)
        A, Y = S_plain(X['a']), S_plain(y)
        for k in range(n):
            yield from arrays_close('corners of image %d' % k, c[k], at(k), 1e-6)
            want = np.linalg.inv(G[k])
            yield from arrays_close('transform of image %d' % k, F[k], want, 1e-6)
            W, border = spline3(h, w, G[k])
            xs = [sc(v) for v in A[k].ravel()]
            ys = [sc(v) for v in Y[k].ravel()]
            for i in range(h * w):
                if border[i] and not np.array_equal(G[k], np.round(G[k])):
                    continue
                v = 0.0
                for j, x in enumerate(xs):
                    if abs(W[i, j]) > 1e-13:
                        v = T.add(v, T.mul(float(W[i, j]), x))
                if border[i]:
                    continue
                yield ('image %d %s' % (k, [i // w, i % w]), close(ys[i], v, 1e-6))
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('drift: ' + name, ins, impl, check, funcs=[P + 'detector_drift_adjust_aps_1id', P + '_calc_proj_cnrs', 'tomopy.misc.npmath.calc_affine_transform'], bounds=str(shape), **kw)


def S_plain(x):
    from . import _spec as S
    return S.plain(x)


def transform(name, pts, exact=True):
    """Fixed source points; targets are an affine image of them with symbolic entries, or any points at all."""
    pts = np.asarray(pts, float)
    ins = {'m': Sym((2, 3), 'f8', -3, 3)} if exact else {'t': Sym(pts.shape, 'f8', -5, 5)}

    def impl(tp, X):
        from importlib import import_module
        f = tp.misc.npmath.calc_affine_transform
        if not exact:
            return f(pts.copy(), X['t'])
        m = X['m']
        t = np.stack([np.ones(len(pts)) * m[i, 2] + pts[:, 0] * m[i, 0] + pts[:, 1] * m[i, 1] for i in range(2)], axis=1) if not hasattr(m, '_pd') else stack(m)
        return f(pts.copy(), t)

    def stack(m):
        from symt import snp
        t = np.empty(pts.shape, object)
        M = S_plain(m)
        for k, (x, y) in enumerate(pts):
            for i in range(2):
                t[k, i] = T.add(T.add(T.mul(x, sc(M[i, 0])), T.mul(y, sc(M[i, 1]))), sc(M[i, 2]))
        return snp._wrap(t, m._pd) if hasattr(snp, '_wrap') else snp.SArr(t, m._pd)

    def check(X, R):
        R = S_plain(R)
        yield ('shape', R.shape == (3, 3))
        for j in range(3):
            yield ('last row %d' % j, close(sc(R[2, j]), float(j == 2), 1e-6))
        if exact:
            M = S_plain(X['m'])
            for ix in np.ndindex(2, 3):
                yield ('entry %s' % list(ix), close(sc(R[ix]), sc(M[ix]), 1e-6))
        else:
            # least squares: the residual is orthogonal to x, y and 1
            t = S_plain(X['t'])
            for i in range(2):
                res = []
                for k, (x, y) in enumerate(pts):
                    v = T.add(T.add(T.mul(x, sc(R[i, 0])), T.mul(y, sc(R[i, 1]))), sc(R[i, 2]))
                    res.append(T.sub(v, sc(t[k, i])))
                for nm, w in (('x', pts[:, 0]), ('y', pts[:, 1]), ('1', np.ones(len(pts)))):
                    s = 0.0
                    for q, r in zip(w, res):
                        s = T.add(s, T.mul(float(q), r))
                    yield ('residual of row %d against %s' % (i, nm), close(s, 0.0, 1e-5))
    return Case('transform: ' + name, ins, impl, check, funcs=['tomopy.misc.npmath.calc_affine_transform'], bounds='%d points' % len(pts))


def box(name, method, shape, rows, cols, free=(), k2=3, k1=3, **kw):
    """Bright box on a dark frame: rows[0]..rows[1]-1 and cols[0]..cols[1]-1."""
    rs = np.random.RandomState(3)
    base = np.full(shape, 1.0)
    base[rows[0]:rows[1], cols[0]:cols[1]] = 50
    base *= 1 + 0.01 * rs.rand(*shape)
    ins = {'a': Sym(shape, 'f8', 0.9, 60, base=base, free=list(free))}

    def impl(tp, X):
        return tp.prep.alignment.find_slits_corners_aps_1id(X['a'], method=method, medfilt2_kernel_size=k2, medfilt_kernel_size=k1)

    def check(X, R):
        R = S_plain(R)
        yield ('four corners', R.shape == (4, 2))
        t, b, l, r = rows[0] - 0.5, rows[1] - 0.5, cols[0] - 0.5, cols[1] - 0.5
        for k, (x, y) in enumerate(((l, t), (l, b), (r, b), (r, t))):
            # numeric gradients are centred: within two pixels of the edge
            yield ('corner %d, column' % k, close(sc(R[k, 0]), x, 2.0))
            yield ('corner %d, row' % k, close(sc(R[k, 1]), y, 2.0))
    return Case('corners: %s, %s' % (name, method), ins, impl, check, funcs=[P + 'find_slits_corners_aps_1id'], bounds=str(shape), forks=True, timeout=100, **kw)


def fitted(name, shape, rows, cols, free, k1=3):
    """Corners to parts of a pixel on frames without noise: single wrong pixels away from the edges do not matter."""
    base = np.full(shape, 1.0)
    for d, v in ((1, 3.0), (0, 10.0), (-1, 30.0), (-2, 50.0)):
        base[rows[0] - d:rows[1] + d, cols[0] - d:cols[1] + d] = v
    ins = {'a': Sym(shape, 'f8', 0.5, 90, base=base, free=list(free))}

    def impl(tp, X):
        return tp.prep.alignment.find_slits_corners_aps_1id(X['a'], medfilt_kernel_size=k1)

    def check(X, R):
        R = S_plain(R)
        yield ('four corners', R.shape == (4, 2))
        t, b, l, r = rows[0] - 0.5, rows[1] - 0.5, cols[0] - 0.5, cols[1] - 0.5
        for k, (x, y) in enumerate(((l, t), (l, b), (r, b), (r, t))):
            yield ('corner %d, column' % k, close(sc(R[k, 0]), x, 1.6))
            yield ('corner %d, row' % k, close(sc(R[k, 1]), y, 1.6))
    return Case('corners: %s, fitted' % name, ins, impl, check, funcs=[P + 'find_slits_corners_aps_1id', 'tomopy.misc.npmath.gauss1d'], bounds=str(shape), forks=True, timeout=100)


def cases(tier):
    I = [[1, 0, 0], [0, 1, 0]]

    def move(dx, dy):
        return [[1, 0, dx], [0, 1, dy]]
    yield drift('none', (2, 6, 8), [I, I])
    yield drift('whole pixels', (3, 7, 9), [move(1, 0), move(0, 2), move(-2, 1)])
    yield drift('parts of a pixel', (2, 6, 8), [move(0.4, -0.7), move(-1.3, 0.2)], ncore=2)
    yield drift('turned and stretched', (2, 6, 8), [[[0.95, 0.1, 0.3], [-0.05, 1.1, -0.4]], [[1.05, 0.0, -0.2], [0.2, 0.9, 0.1]]], ncore=3, order='lifo')

    def later(n):
        # far off until the kernels have grown
        def f(a, b, true):
            return true if b >= 3 + 2 * n else true + 100.0 + 7 * b
        return f

    def jumpy(a, b, true):
        return true + (3.0 + b if (a, b) < (5, 5) else 0.0) * 10
    yield drift('found later', (3, 5, 7), [move(1, 0), move(0, 1), move(-1, -1)], found=[later(3), None, later(1)])
    yield drift('found much later', (2, 4, 5), [move(1, 1), move(-1, 0)], found=[jumpy, None], ref=REF[:, ::-1].copy())
    never = lambda a, b, true: true + 1000.0 + 50 * a + b
    yield drift('never found', (2, 4, 5), [I, move(1, 0)], found=[never, None])
    yield drift('last never found', (3, 4, 5), [move(1, 0), I, move(0, 1)], found=[None, never, None])
    yield drift('needs large image kernels', (2, 4, 5), [move(1, 0), move(0, 1)], found=[None, lambda a, b, true: true if a >= 9 else true - 60.0 - a])
    yield transform('triangle', [[0, 0], [4, 1], [2, 5]])
    yield transform('square', REF)
    yield transform('six points', [[0, 0], [4, 1], [2, 5], [-3, 2], [1, -4], [6, 6]])
    yield transform('any targets', REF, exact=False)
    yield transform('any targets of six', [[0, 0], [4, 1], [2, 5], [-3, 2], [1, -4], [6, 6]], exact=False)
    yield fitted('square', (60, 60), (15, 44), (14, 45), [(30, 30), (5, 5)])
    yield fitted('wide', (56, 90), (14, 40), (15, 72), [(20, 60)])
    yield fitted('tall', (90, 58), (30, 70), (14, 42), [(50, 20)])
    for m in ('simple', 'quadrant'):
        yield box('square', m, (20, 20), (6, 15), (5, 14), [(10, 10)])
        yield box('wide', m, (14, 20), (4, 11), (5, 16), [(7, 10)])
        yield box('tall', m, (30, 16), (9, 24), (4, 12), [(14, 7)])
        yield box('off centre', m, (18, 24), (3, 15), (10, 20), [(9, 12)])
