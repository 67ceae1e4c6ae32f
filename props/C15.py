"""Stripe detection in three dimensions and the stripe mask made from its weights."""
from functools import reduce
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close, settled
from symt.ir import sort_terms
from . import _spec as S

LIBS = ('prep',)
BOUNDS = 'detection: volumes up to 6 x 3 x 6 with every voxel symbolic, sizes 1 to 3, radii 1 to 3; mask: volumes up to 12 x 4 x 8 with up to 9 symbolic weights and the threshold symbolic, lengths 1 to 7, depths 0 to 3, widths 1 to 4, sensitivities 1 to 100'
OUTSIDE = 'larger volumes; float32 rounding'
ASSUMPTIONS = ['qsort sorts by the given comparator', 'operations on symbolic values are over the reals']
P = 'tomopy.prep.stripe.'


def at(i, o, n):
    """Index i + o; mirrored about i where that leaves the axis, i itself where the mirror image leaves it too."""
    if 0 <= i + o < n:
        return i + o
    return i - o if 0 <= i - o < n else i


def mean(vs):
    r = 0.0
    for v in vs:
        r = T.add(r, T.absv(v))
    return T.div(r, float(len(vs)))


def ratio(p, q):
    """Smaller over larger, 0 where both vanish."""
    if not isinstance(p, T.Node) and not isinstance(q, T.Node):
        return 0.0 if p == q == 0 else min(p, q) / max(p, q)
    a = T.ite(T.and_(T.le(p, q), T.ne(q, 0.0)), T.div(p, q) if isinstance(q, T.Node) or q else 0.0, 0.0)
    return T.ite(T.and_(T.lt(q, p), T.ne(p, 0.0)), T.div(q, p) if isinstance(p, T.Node) or p else 0.0, a)


def weights(a, size, r):
    nz, ny, nx = a.shape
    g = {}
    for z, y, x in np.ndindex(nz, ny, nx):
        g[z, y, x] = T.sub(sc(a[z, y, at(x, 2, nx)]), sc(a[z, y, x]))
    w = {}
    for z, y, x in np.ndindex(nz, ny, nx):
        along = mean([g[at(z, p, nz), at(y, o, ny), x] for o in range(-r, r + 1) for p in range(-r, r + 1)])
        right = mean([g[z, at(y, o, ny), at(x, p, nx)] for o in (-1, 0, 1) for p in range(1, r + 1)])
        left = mean([g[z, at(y, o, ny), at(x, p, nx)] for o in (-1, 0, 1) for p in range(-r, 0)])
        a1, a2 = ratio(along, right), ratio(along, left)
        w[z, y, x] = T.ite(T.lt(a2, a1), a2, a1)
    out = np.empty(a.shape, object)
    for z, y, x in np.ndindex(nz, ny, nx):
        out[z, y, x] = sort_terms([w[at(z, p, nz), y, x] for p in range(-size, size + 1)])[size - 1]
    return out


def detect(name, shape, size, r, dt='f4', lo=0, hi=8, ncore=None, view=None, flat=None, bounds01=True, **kw):
    ins = {'a': Sym(shape, dt, lo, hi, **kw)}

    def impl(tp, X):
        a = X['a'] if view is None else view(X['a'])
        keep = a.copy()
        return tp.prep.stripe.stripes_detect3d(a, size=size, radius=r, ncore=ncore), a, keep

    def check(X, R):
        Y, now, was = R
        a = S.plain(was)
        yield ('shape', tuple(Y.shape) == a.shape)
        yield ('dtype', Y.dtype == np.float32)
        want = weights(a, size, r)
        for ix in np.ndindex(*a.shape):
            yield ('weight %s' % list(ix), close(sc(S.plain(Y)[ix]), want[ix], 1e-3))
        yield from arrays_close('input unchanged', now, was, 1e-6)
    return Case(name, ins, impl, check, funcs=[P + 'stripes_detect3d', 'stripesdetect3d_main_float', 'gradient3D_local', 'ratio_mean_stride3d', 'vertical_median_stride3d'],
                bounds='%s %s size %d radius %d' % (shape, dt, size, r), timeout=120)


def not_(x):
    return T.not_(x)


def any_(xs):
    return reduce(T.or_, xs) if xs else False


def count(xs):
    r = 0
    for x in xs:
        r = T.add(r, T.ite(x, 1, 0))
    return r


def mask_of(w, thr, length, depth, width, sens):
    """Reference for the mask: candidates, then consistency in depth and along the stripe, then length, then merging."""
    nz, ny, nx = w.shape
    idx = list(np.ndindex(nz, ny, nx))
    m = {ix: settled(T.le(sc(w[ix]), thr)) for ix in idx}
    frac = np.float32(np.float32(0.01) * np.float32(sens))
    if depth:
        lim = int(np.float32(frac * np.float32(depth)))
        m = {(z, y, x): T.and_(m[z, y, x], T.le(count([m[z, at(y, o, ny), x] for o in range(-(depth // 2), depth // 2 + 1)]), lim)) for z, y, x in idx}
    lim = int(np.float32(frac * np.float32(length)))
    half = length // 2
    for need in (lim, half):
        m = {(z, y, x): T.and_(m[z, y, x], T.le(need, count([m[at(z, o, nz), y, x] for o in range(-half, half + 1)]))) for z, y, x in idx}
    for _ in range(width):
        n = {}
        for z, y, x in idx:
            side = T.and_(any_([m[z, y, at(x, -o, nx)] for o in range(width // 2 + 1)]), any_([m[z, y, at(x, o, nx)] for o in range(width // 2 + 1)]))
            ends = T.and_(any_([m[at(z, -o, nz), y, x] for o in range(2 * width + 1)]), any_([m[at(z, o, nz), y, x] for o in range(2 * width + 1)]))
            n[z, y, x] = T.or_(m[z, y, x], T.or_(side, ends))
        m = n
    return m


def mask(name, shape, free, length, depth, width, sens=85.0, thr=0.6, dt='f4', seed=0, dens=0.5, view=None, ncore=None):
    rng = np.random.default_rng(seed)
    base = np.where(rng.random(shape) < dens, 0.25, 0.875).astype('f4')
    n = int(np.prod(shape))
    cells = list(np.ndindex(*shape))
    if isinstance(free, int):
        free = [cells[k] for k in sorted(rng.choice(n, free, replace=False))]
    ins = {'w': Sym(shape, dt, 0, 1, base=base, free=free)}
    if thr == 'sym':
        ins['thr'] = SymScalar('f8', 0.3, 0.8)

    def impl(tp, X):
        w = X['w'] if view is None else view(X['w'])
        keep = w.copy()
        return tp.prep.stripe.stripes_mask3d(w, threshold=X['thr'] if thr == 'sym' else thr, min_stripe_length=length, min_stripe_depth=depth,
                                             min_stripe_width=width, sensitivity_perc=sens, ncore=ncore), w, keep

    def check(X, R):
        Y, now, was = R
        w = S.plain(was)
        yield ('shape', tuple(Y.shape) == w.shape)
        yield ('dtype', Y.dtype == np.bool_)
        t = X['thr'] if thr == 'sym' else float(np.float32(thr))
        want = mask_of(w, t, length, depth, width, sens)
        for ix in np.ndindex(*w.shape):
            yield ('mask %s' % list(ix), T.eq(T.ite(T.ne(sc(S.plain(Y)[ix]), 0), 1, 0), T.ite(want[ix], 1, 0)))
        yield from arrays_close('input unchanged', now, was, 1e-6)
    return Case(name, ins, impl, check, funcs=[P + 'stripes_mask3d', 'stripesmask3d_main_float', 'remove_inconsistent_stripes', 'remove_short_stripes', 'merge_stripes'],
                bounds='%s %s %d free, length %d depth %d width %d' % (shape, dt, len(free), length, depth, width), timeout=120)


def T3(a):
    return a.transpose(2, 0, 1)


def rev(a):
    return a[::-1, :, ::-1]


def refuse(name, what, fn, n=3):
    def impl(tp, X):
        try:
            fn(tp.prep.stripe, X['a'])
            return False
        except ValueError:
            return True
    shape = what
    return Case(name, {'a': Sym(shape, 'f4', 0, 1) if np.prod(shape) else np.zeros(shape, 'f4')}, impl, lambda X, R: [('refused', R)], funcs=[P + 'stripes_detect3d', P + 'stripes_mask3d'])


def cases(tier):
    yield detect('detect', (4, 2, 5), 1, 1)
    yield detect('detect size 2', (4, 1, 6), 2, 1)
    yield detect('detect size 3', (6, 1, 4), 3, 1)
    yield detect('detect radius 2', (4, 2, 5), 1, 2)
    yield detect('detect radius 3', (3, 1, 7), 1, 3)
    yield detect('detect thick', (2, 3, 4), 1, 1, ncore=3)
    yield detect('detect negative values', (4, 2, 4), 2, 1, lo=-8, ncore=2)
    for nx in (1, 2, 3):
        yield detect('detect %d wide' % nx, (3, 2, nx), 1, 1, lo=-3)
    yield detect('detect wide window in a small volume', (4, 2, 3), 2, 3, lo=-3)
    for dt in ('f8', 'i4', 'u2'):
        yield detect('detect %s' % dt, (3, 1, 5), 1, 1, dt, hi=200)
    yield detect('detect transposed view', (2, 4, 3), 1, 1, view=T3)
    yield detect('detect reversed view', (3, 2, 4), 1, 2, view=rev)
    yield detect('detect deep', (3, 6, 4), 1, 2, lo=-1)
    for v in (0.5, -0.5):
        yield detect('detect in a flat volume of %s' % v, (3, 2, 7), 1, 1, lo=-3, base=np.full((3, 2, 7), v, 'f4'), free=[(1, 0, 0)])
        yield detect('detect nothing in %s' % v, (2, 2, 5), 1, 1, base=np.full((2, 2, 5), v, 'f4'), free=[])
    stripe = np.tile(np.array([1, 1, 1, 5, 1, 1, 1, 2], 'f4'), (4, 2, 1))
    yield detect('detect next to a stripe', (4, 2, 8), 2, 1, lo=-3, base=stripe, free=[(2, 1, 1), (0, 0, 3)])
    k = 0
    for length, depth, width in ((3, 0, 1), (1, 1, 1), (4, 1, 2), (6, 2, 3), (5, 0, 2), (2, 2, 1), (7, 1, 1), (7, 0, 3)):
        for sh in ((8, 1, 4), (8, 3, 4), (9, 3, 5)):
            if depth < sh[1] and width < sh[2]:
                k += 1
                yield mask('mask %s length %d depth %d width %d' % (sh, length, depth, width), sh, 7, length, depth, width, seed=k, dens=(0.2, 0.5, 0.8)[k % 3],
                           sens=(85.0, 100.0, 50.0, 34.0, 1)[k % 5], ncore=(None, 1, 3)[k % 3], thr=('sym', 0.6)[k % 2])
    one = [(z, 0, 1) for z in range(7)]
    yield mask('mask one stripe', (8, 1, 3), one, 5, 0, 1, dens=0.0)
    yield mask('mask one stripe, strict', (8, 1, 3), one, 5, 0, 1, sens=100.0, dens=0.0)
    yield mask('mask two stripes', (4, 1, 6), [(z, 0, x) for z in range(3) for x in (1, 4)], 2, 0, 4, dens=0.0)
    yield mask('mask gaps along the angle', (9, 1, 2), [(z, 0, 0) for z in range(9)], 1, 0, 1, dens=0.0)
    yield mask('mask deep features', (4, 4, 2), [(z, y, 0) for z in (1, 2) for y in range(4)], 2, 3, 1, sens=60.0, dens=0.0)
    yield mask('mask wide in a short volume', (5, 1, 6), 7, 2, 0, 5, dens=0.3, seed=5)
    yield mask('mask threshold', (6, 2, 3), 6, 2, 1, 1, thr='sym', seed=9)
    yield mask('mask transposed view', (2, 4, 6), 6, 2, 1, 1, view=T3, seed=10)
    yield mask('mask reversed view', (6, 2, 4), 6, 2, 1, 1, view=rev, seed=11)
    yield mask('mask of doubles', (5, 2, 3), 6, 2, 1, 1, dt='f8', seed=12)
    for sh in ((3, 3), (2, 2, 2, 2), (0, 2, 3)):
        yield refuse('detect refuses %s' % (sh,), sh, lambda s, a: s.stripes_detect3d(a, size=1, radius=1))
        yield refuse('mask refuses %s' % (sh,), sh, lambda s, a: s.stripes_mask3d(a, min_stripe_length=1, min_stripe_depth=1, min_stripe_width=1))
    for size in (0, -1, 3):
        yield refuse('detect refuses size %d' % size, (4, 2, 4), lambda s, a, z=size: s.stripes_detect3d(a, size=z, radius=1))
    ok = dict(min_stripe_length=2, min_stripe_depth=1, min_stripe_width=2, sensitivity_perc=80.0)
    for k, vs in (('min_stripe_length', (0, -1, 4)), ('min_stripe_depth', (-1, 3)), ('min_stripe_width', (0, 5)), ('sensitivity_perc', (0.0, -3.0, 100.5))):
        for v in vs:
            yield refuse('mask refuses %s %s' % (k, v), (4, 3, 5), lambda s, a, kw={**ok, k: v}: s.stripes_mask3d(a, **kw))
    if tier == 'thorough':
        for k in range(60):
            rng = np.random.default_rng(1000 + k)
            sh = (int(rng.integers(4, 13)), int(rng.integers(1, 5)), int(rng.integers(3, 9)))
            yield mask('thorough mask %d' % k, sh, 9, int(rng.integers(1, min(8, sh[0]))), int(rng.integers(0, sh[1])), int(rng.integers(1, min(5, sh[2]))),
                       seed=k, dens=float(rng.random()), sens=float(rng.integers(1, 101)))
        for sh in ((5, 3, 6), (6, 2, 5), (4, 5, 4)):
            for size in (1, 2):
                for r in (1, 2, 3):
                    yield detect('thorough detect %s %d %d' % (sh, size, r), sh, size, r, lo=-5)
