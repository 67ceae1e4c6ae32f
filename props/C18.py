"""Ring removal in reconstructed slices."""
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close, settled
from symt.ir import sort_terms
from . import _spec as S

LIBS = ('misc',)
BOUNDS = 'slices up to 11 x 12 with one or two symbolic pixels (clipping, median, threshold and zero test decided path by path) and fixed others; ring widths 0 to 4, angles 0 to 170, both boundary modes, centres inside of the slice'
OUTSIDE = 'larger slices; more symbolic pixels at once; float32 rounding, including comparisons between values closer than 1e-4 and pixels whose position on the polar grid is within 1e-3 of a rounding border'
ASSUMPTIONS = ['operations on symbolic values are over the reals']
NEAR = []
EPS = 1e-4


def less(u, v):
    """u < v; comparisons closer than EPS are noted."""
    if not isinstance(u, T.Node) and not isinstance(v, T.Node):
        return u < v
    if u is v:
        return False
    c = settled(T.lt(u, v))
    d = T.sub(u, v)
    n = settled(T.and_(T.lt(d, EPS), T.lt(-EPS, d)))
    if n is not False:
        NEAR.append(n)
    if isinstance(c, T.Node):
        if settled(T.le(d, -EPS)) is False:
            return False
        if settled(T.le(EPS, d)) is False:
            return True
    return bool(c)


def median(xs):
    out = []
    for x in xs:
        i = len(out)
        while i and less(x, out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out[len(out) // 2]


def nearest(v, exact=False):
    f = math.floor(v + 0.5)
    assert exact or abs(v + 0.5 - f) > 1e-3 and abs(v + 0.5 - f - 1) > 1e-3, 'ambiguous'
    return f


def rings(img, cx, cy, thresh, tmax, tmin, theta_min, rwidth, reflect):
    dy, dx = img.shape
    w = min(int(cx + 1), int(cy + 1), int(dx - cx), int(dy - cy))
    if w < 1:
        return S.plain(img)
    h = int(math.floor(2 * math.pi * w + 0.5))
    polar = [[None] * w for _ in range(h)]
    for k in range(h):
        th = (k + 0.5) * 2 * math.pi / h
        for r in range(w):
            v = sc(img[nearest(r * math.sin(th) + cy, r == 0), nearest(r * math.cos(th) + cx, r == 0)])
            v = tmax if less(tmax, v) else tmin if less(v, tmin) else v
            polar[k][r] = v
    third = (w // 3, 2 * w // 3)
    zone = [0 if r < third[0] else 1 if r < third[1] else 2 for r in range(w)]
    m = 2 * rwidth + 1
    half = h // 2

    def at(k, r):
        if r >= 0:
            return polar[k][r] if r < w else 0.0
        k = k + half if k < half else k - half
        return polar[k][-r] if -r < w else 0.0
    diff = [[None] * w for _ in range(h)]
    for k in range(h):
        for r in range(w):
            n = (m // 3, 2 * m // 3, m)[zone[r]]
            d = T.sub(polar[k][r], median([at(k, r + o) for o in range(-n, n + 1)]))
            diff[k][r] = 0.0 if less(thresh, d) or less(d, -thresh) else d
    a = int(math.floor(h / 360.0 * theta_min))
    ring = [[None] * w for _ in range(h)]

    def mirror(k, lo, hi):
        return lo + (lo - k) if k < lo else hi - (k - hi) - 2 if k >= hi else k
    for r in range(w):
        n = (a // 3, 2 * a // 3, a)[zone[r]]
        for k in range(h):
            lo, hi = ((0, half) if k < half else (half, h)) if reflect else (0, h)
            ks = [mirror(k + o, lo, hi) if reflect else (k + o) % h for o in range(-n, n + 1)]
            s = 0.0
            for q in ks:
                s = T.add(s, diff[q][r])
            s = T.mul(s, 1.0 / len(ks))
            d = diff[k][r]
            if k != lo and not (less(d, 0.0) or less(0.0, d)):
                s = 0.0
            ring[k][r] = s
    out = np.empty(img.shape, object)
    for y in range(dy):
        for x in range(dx):
            th = math.atan2(y - cy, x - cx - math.pi / h)
            th = th + 2 * math.pi if th < 0 else th
            k, r = nearest(th * h / (2 * math.pi)), nearest(math.hypot(y - cy, x - cx))
            out[y, x] = T.sub(sc(img[y, x]), ring[k][r]) if k < h and r < w else sc(img[y, x])
    return out


def clear(ny, nx, cx, cy):
    """A centre near the given one for which no pixel is on a rounding border."""
    for k in range(400):
        x, y = cx + 0.0171 * (k % 20), cy + 0.0137 * (k // 20)
        try:
            rings(np.zeros((ny, nx)), x, y, 300.0, 300.0, -100.0, 30, 0, False)
            return dict(cx=round(x, 6), cy=round(y, 6))
        except AssertionError:
            pass
    raise AssertionError('ambiguous')


def case(name, base, free, cx=None, cy=None, thresh=300.0, tmax=300.0, tmin=-100.0, theta_min=30, rwidth=30, mode='WRAP', ncore=1, nchunk=None, out=None, lo=-4, hi=4, **kw):
    base = np.asarray(base, 'f4')
    ins = {'a': Sym(base.shape, 'f4', lo, hi, base=base, free=free)}
    if out == 'other':
        ins['o'] = Sym(base.shape, 'f4', lo, hi, base=base * 0 + 1, free=[])
    C = [(base.shape[2] - 1) / 2.0 if cx is None else cx, (base.shape[1] - 1) / 2.0 if cy is None else cy]

    def impl(tp, X):
        a = X['a']
        was = a.copy()
        k = dict(thresh=thresh, thresh_max=tmax, thresh_min=tmin, theta_min=theta_min, rwidth=rwidth, int_mode=mode, ncore=ncore, nchunk=nchunk)
        if cx is not None:
            k['center_x'] = cx
        if cy is not None:
            k['center_y'] = cy
        if out == 'same':
            k['out'] = a
        elif out == 'other':
            k['out'] = X['o']
        y = tp.misc.corr.remove_ring(a, **k)
        return y, (a, was) if out != 'same' else None, None if out is None else (a if out == 'same' else X['o'])

    def check(X, R):
        Y, unchanged, given = R
        a = S.plain(X['a'])
        yield ('shape', tuple(Y.shape) == a.shape)
        y = S.plain(Y)
        for s in range(a.shape[0]):
            del NEAR[:]
            want = rings(a[s], C[0], C[1], thresh, tmax, tmin, theta_min, rwidth, mode.lower() == 'reflect')
            near = False
            for n in NEAR:
                near = T.or_(near, n)
            for ix in np.ndindex(*a.shape[1:]):
                yield ('value %s' % list((s,) + ix), close(sc(y[(s,) + ix]), want[ix], 2e-4, unless=near))
        if unchanged:
            yield from arrays_close('input unchanged', unchanged[0], unchanged[1], 0)
        if given is not None:
            yield from arrays_close('output array', given, Y, 0)
    return Case(name, ins, impl, check, funcs=['tomopy.misc.corr.remove_ring', 'remove_ring', 'polar_transform', 'ring_filter', 'median_filter_fast_1D', 'mean_filter_fast_1D', 'inverse_polar_transform'],
                bounds=str(base.shape), forks=True, timeout=kw.pop('timeout', 100), **kw)


def default_centre(shape):
    """Without a centre, the middle of the slice is taken."""
    base = disc(*shape, 7, 2, (shape[2] - 1) / 2.0, (shape[1] - 1) / 2.0)
    ins = {'a': Sym(shape, 'f4', -4, 4, base=base, free=[(0, 2, 3)])}

    def impl(tp, X):
        f = tp.misc.corr.remove_ring
        k = dict(rwidth=1, ncore=1)
        cx, cy = (shape[2] - 1) / 2.0, (shape[1] - 1) / 2.0
        return f(X['a'], **k), f(X['a'], center_x=cx, center_y=cy, **k), f(X['a'], center_x=cx, **k), f(X['a'], center_y=cy, **k)

    def check(X, R):
        for y in R[1:]:
            yield from arrays_close('default centre', R[0], y, 1e-6)
    return Case('default centre %s' % (shape,), ins, impl, check, funcs=['tomopy.misc.corr.remove_ring'], bounds=str(shape), forks=True, timeout=100)


def disc(n, ny, nx, seed, ring=2, cx=3.2, cy=3.2, amp=1.0):
    rng = np.random.default_rng(seed)
    a = rng.random((n, ny, nx)) * 0.5 + 1
    y, x = np.mgrid[:ny, :nx]
    r = np.round(np.hypot(y - cy, x - cx))
    a[:, r == ring] += amp
    return a.astype('f4')


def cases(tier):
    c = dict(cx=3.2, cy=3.3)
    d = disc(1, 7, 8, 1)
    yield case('one pixel', d, [(0, 3, 5)], rwidth=1, **c)
    yield case('pixel beside the centre', d, [(0, 3, 3)], rwidth=1, **c)
    yield case('pixel outside of the circle', d, [(0, 0, 0)], rwidth=1, **c)
    yield case('wide window', d, [(0, 2, 4)], rwidth=4, **c)
    yield case('default width', disc(1, 4, 5, 1, 1, 2.2, 1.7), [(0, 2, 3)], **clear(4, 5, 2.2, 1.7))
    yield case('width 0', d, [(0, 2, 4)], rwidth=0, **c)
    yield case('width 2', disc(1, 11, 10, 3, 3, 4.7, 4.8), [(0, 3, 6)], rwidth=2, **clear(11, 10, 4.7, 4.8))
    yield case('width 3', disc(1, 11, 12, 4, 3, 5.2, 4.8), [(0, 5, 8)], rwidth=3, **clear(11, 12, 5.2, 4.8))
    for th in (0, 1, 30, 45, 90, 120, 170):
        yield case('angle %d' % th, d, [(0, 4, 1)], rwidth=1, theta_min=th, **c)
    for th in (0, 30, 60, 100, 170):
        yield case('reflect, angle %d' % th, disc(1, 7, 8, 2), [(0, 4, 2)], rwidth=1, mode='reflect', theta_min=th, **c)
    yield case('reflect, odd number of rows', disc(1, 9, 9, 5, 2, 4.2, 4.3), [(0, 5, 5)], rwidth=1, mode='REFLECT', theta_min=70, cx=4.2, cy=4.3)
    yield case('threshold', disc(1, 7, 8, 6, amp=2), [(0, 3, 5)], rwidth=1, thresh=0.7, **c)
    yield case('threshold, negative', disc(1, 7, 8, 6, amp=-2), [(0, 5, 3)], rwidth=1, thresh=0.9, **c)
    yield case('clipped above', d, [(0, 3, 5)], rwidth=1, tmax=1.6, **c)
    yield case('clipped below', d, [(0, 4, 4)], rwidth=1, tmin=1.2, **c)
    yield case('clipped on both sides', d, [(0, 2, 4)], rwidth=2, tmin=1.1, tmax=1.4, thresh=0.25, **c)
    yield default_centre((2, 6, 8))
    yield default_centre((1, 7, 5))
    yield case('centre off to one side', disc(1, 8, 9, 8, 2, 2.7, 4.2), [(0, 4, 4)], rwidth=1, cx=2.7, cy=4.2)
    yield case('centre near the corner', disc(1, 6, 7, 9, 1, 5.2, 4.3), [(0, 4, 4)], rwidth=1, **clear(6, 7, 4.7, 4.3))
    yield case('wide slice', disc(1, 5, 9, 10, 2, 4.2, 2.3), [(0, 1, 4)], rwidth=1, cx=4.2, cy=2.3)
    yield case('tall slice', disc(1, 9, 5, 11, 2, 2.3, 4.2), [(0, 4, 1)], rwidth=1, cx=2.3, cy=4.2)
    e = disc(3, 6, 6, 12, 1, 2.3, 2.7)
    q = dict(cx=2.3, cy=2.7, rwidth=1)
    yield case('three slices', e, [(1, 2, 3)], **q)
    yield case('three slices, two tasks, reversed', e, [(2, 3, 2)], ncore=2, order='lifo', **q)
    yield case('three slices, tasks of one', e, [(0, 3, 4)], ncore=2, nchunk=1, **q)
    yield case('in place', e[:2], [(0, 3, 2)], out='same', **q)
    yield case('into another array', e[:2], [(1, 3, 2)], out='other', **q)
    yield case('two pixels', disc(1, 5, 5, 13, 1, 2.2, 1.7), [(0, 1, 2), (0, 3, 3)], cx=2.2, cy=1.7, rwidth=1)
    yield case('small slice', disc(1, 3, 3, 14, 1, 1.2, 1.1), [(0, 1, 2)], rwidth=1, **clear(3, 3, 1.2, 1.1))
    yield case('slice of one pixel', disc(1, 1, 1, 15, 1, 0.2, 0.1), [(0, 0, 0)], cx=0.2, cy=0.1, rwidth=1)
    yield case('centre outside on the left', disc(1, 5, 5, 16, 1, 2.2, 1.7), [(0, 1, 2)], cx=-3.2, cy=1.7, rwidth=1)
    yield case('centre outside below', disc(1, 5, 5, 16, 1, 2.2, 1.7), [(0, 1, 2)], cx=2.2, cy=8.7, rwidth=1)
    yield case('centre in the last column', disc(1, 5, 5, 17, 1, 2.2, 1.7), [(0, 1, 2)], cx=4.2, cy=1.7, rwidth=1)
    if tier == 'thorough':
        big = disc(1, 11, 12, 4, 3, 5.2, 4.8)
        for k, f in enumerate([(2, 3), (5, 5), (8, 9), (1, 6), (6, 1)]):
            for m in ('wrap', 'reflect'):
                yield case('large %d, %s' % (k, m), big, [(0,) + f], rwidth=2, theta_min=50, mode=m, **clear(11, 12, 5.2, 4.8))
