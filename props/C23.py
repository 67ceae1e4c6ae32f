"""Rotation axis helpers."""
import importlib
import inspect
import math
import os
import shutil
import tempfile
import types
import warnings
import numpy as np
from scipy import ndimage
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close, settled
from . import _spec as S

LIBS = ('recon', 'gridrec')
BOUNDS = 'stacks up to 7 x 12 x 12: one symbolic value per stack for the searches and masks, every value symbolic for the written slices and the registered projections'
OUTSIDE = 'larger stacks (the search by downsampling above 4 million pixels); the simplex search of scipy and the phase correlation of scikit-image themselves, which are replaced by any answer; writing the files'
ASSUMPTIONS = ['scipy.optimize.minimize returns some point; phase_cross_correlation returns some shift', 'scipy.ndimage filters are the linear maps they compute on unit images', 'operations on symbolic values are over the reals']
P = 'tomopy.recon.rotation.'


def mod():
    return importlib.import_module('tomopy.recon.rotation')


class patched:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        m = mod()
        self.was = {k: getattr(m, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(m, k, v)
        return m

    def __exit__(self, *a):
        for k, v in self.was.items():
            setattr(mod(), k, v)


def stack(shape, seed, lo=0.5, hi=2.0):
    return np.random.RandomState(seed).uniform(lo, hi, shape).astype('f4')


# ------------------------------------------------------------------------------------- entropy
def entropy(name, shape, ind=None, init=None, mask=True, ratio=None, sino=False, free=None, wide=0.006, seed=0):
    """The search minimises the entropy of the histogram of the masked slice."""
    dt, dy, dx = (shape[1], shape[0], shape[2]) if sino else shape
    k = dy // 2 if ind is None else ind
    free = free or (k, 1, 2) if sino else free or (1, k, 2)
    base = stack(shape, seed)
    theta = S.angles(dt)
    ins = {'a': Sym(shape, 'f4', float(base[free]) - wide, float(base[free]) + wide, base=base, free=[free])}
    tries = [dx / 2.0 - 0.4, dx / 2.0 + 0.9]

    def impl(tp, X):
        got = {}

        def minimize(fun, x0, args=(), *a, **kw):
            got['x0'] = float(np.ravel(x0)[0])
            got['vals'] = [fun(np.array([c]), *args) for c in tries]
            return types.SimpleNamespace(x=np.array([dx / 2.0 + 0.125]))
        was = X['a'].copy()
        kw = {} if ratio is None else dict(ratio=ratio)
        with patched(minimize=minimize) as m:
            r = m.find_center(X['a'], theta, ind=ind, init=init, mask=mask, sinogram_order=sino, **kw)
        one = X['a'][k:k + 1] if sino else X['a'][:, k:k + 1]
        recs = [np.array(0)] * 0
        for c in [None] + tries:
            rec = tp.recon(one.copy(), theta, center=c, algorithm='gridrec', sinogram_order=sino)
            recs.append(rec)
        return r, got['x0'], got['vals'], recs, X['a'], was

    def check(X, R):
        r, x0, vals, recs, a, was = R
        yield ('the minimum is the answer', len(np.ravel(r)) == 1 and float(np.ravel(r)[0]) == dx / 2.0 + 0.125)
        yield ('first guess', x0 == (dx // 2 if init is None else init))
        rr = dx / 2.0 * (1.0 if ratio is None else ratio)

        def image(rec):
            p = S.plain(rec)[0]
            h, w = p.shape
            out = []
            for ix in np.ndindex(h, w):
                o = mask and (ix[0] + 0.5 - h / 2.0) ** 2 + (ix[1] + 0.5 - w / 2.0) ** 2 >= (min(h, w) / 2.0 * (1.0 if ratio is None else ratio)) ** 2
                out.append(0.0 if o else sc(p[ix]))
            return out
        v = image(recs[0])
        lo, hi = v[0], v[0]
        for x in v[1:]:
            lo, hi = T.minv(lo, x), T.maxv(hi, x)
        lo = T.mul(2 if settled(T.lt(lo, 0)) else 0.5, lo)
        hi = T.mul(0.5 if settled(T.lt(hi, 0)) else 2, hi)
        w = T.sub(hi, lo)
        edge = [T.add(lo, T.mul(w, k / 64)) for k in range(64)] + [hi]
        for c, val, rec in zip(tries, vals, recs[1:]):
            n = np.zeros(64)
            im = image(rec)
            for x in im:
                if not (settled(T.le(lo, x)) and settled(T.le(x, hi))):
                    continue
                i, j = 0, 64
                while j - i > 1:
                    q = (i + j) // 2
                    if settled(T.le(edge[q], x)):
                        i = q
                    else:
                        j = q
                n[i] += 1
            h = n / len(im) + 1e-12
            yield ('entropy with the centre %g' % c, close(sc(val), float(-(h * np.log2(h)).sum()), 1e-4))
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('entropy ' + name, ins, impl, check, funcs=[P + 'find_center', 'tomopy.recon.algorithm.recon', 'tomopy.misc.corr.circ_mask', 'gridrec'], bounds=str(shape), forks=True, timeout=150, max_paths=400)


# -------------------------------------------------------------------------------- correlation
def registration(name, shape, guess=None, tol=None):
    ins = {'a': Sym(shape, 'f4', -2, 2), 'b': Sym(shape, 'f4', -2, 2), 'sy': SymScalar('f8', -5, 5), 'sx': SymScalar('f8', -5, 5)}

    def impl(tp, X):
        got = {}

        def pcc(*a, **kw):
            from skimage.registration import phase_cross_correlation as real
            got.update(inspect.signature(real).bind(*a, **kw).arguments)
            return np.array([X['sy'], X['sx']]), 0.0, 0.0
        wa, wb = X['a'].copy(), X['b'].copy()
        kw = {}
        if guess is not None:
            kw['rotc_guess'] = guess
        if tol is not None:
            kw['tol'] = tol
        with patched(phase_cross_correlation=pcc) as m:
            r = m.find_center_pc(X['a'], X['b'], **kw)
        return r, got['reference_image'], got['moving_image'], got.get('upsample_factor', 1), X['a'], wa, X['b'], wb

    def check(X, R):
        r, ref, mov, up, a, wa, b, wb = R
        n = shape[1]
        off = 0.0 if guess is None else guess - (n - 1) / 2.0
        yield ('accuracy', abs(up - 1.0 / (0.5 if tol is None else tol)) < 1e-9)
        for label, img, src in (('first', ref, X['a']), ('second', mov, X['b'])):
            yield ('shape', tuple(img.shape) == shape)
            Z, A = S.plain(img), S.plain(src)
            W = np.zeros((n, n))
            for j in range(n):
                e = np.zeros(n)
                e[j] = 1
                W[:, j] = ndimage.map_coordinates(e, [np.arange(n) + off], order=3, mode='constant', cval=0.0)
            for i in range(shape[0]):
                for j in range(n):
                    q = j if label == 'first' else n - 1 - j
                    v = 0.0
                    for k in range(n):
                        if abs(W[q, k]) > 1e-12:
                            v = T.add(v, T.mul(float(W[q, k]), sc(A[i, k])))
                    yield ('%s image [%d, %d]' % (label, i, j), close(sc(Z[i, j]), v, 1e-4))
        # a point at x appears at 2c - x in the opposite projection
        yield ('centre', close(sc(r), T.add(T.div(T.add(n - 1.0, sc(X['sx'])), 2.0), off), 1e-6))
        yield from arrays_close('input unchanged', a, wa, 0)
        yield from arrays_close('input unchanged', b, wb, 0)
    return Case('registration ' + name, ins, impl, check, funcs=[P + 'find_center_pc'], bounds=str(shape))


# ------------------------------------------------------------------------------ written slices
def written(name, shape, rng, ind=None, mask=False, ratio=None, sino=False, alg=None, filt=None):
    dt, dy, dx = (shape[1], shape[0], shape[2]) if sino else shape
    k = dy // 2 if ind is None else ind
    theta = S.angles(dt)
    ins = {'a': Sym(shape, 'f4', -2, 2)}
    centers = np.arange(dx / 2 - 5, dx / 2 + 5, 0.5) if rng is None else np.arange(*rng)

    def impl(tp, X):
        got = []

        def write_tiff(data, fname='tmp/data', digit=None, ext='tiff'):
            got.append((os.path.relpath(os.path.join(fname, str(digit)), d), data.copy()))
        was = X['a'].copy()
        d = os.path.realpath(tempfile.mkdtemp())
        kw = {}
        for n, v in (('cen_range', rng), ('ratio', ratio), ('algorithm', alg), ('filter_name', filt)):
            if v is not None:
                kw[n] = v
        try:
            with patched(write_tiff=write_tiff) as m:
                m.write_center(X['a'], theta, dpath=os.path.join(d, 'x', 'y'), ind=ind, mask=mask, sinogram_order=sino, **kw)
        finally:
            shutil.rmtree(d)
        one = X['a'][k:k + 1] if sino else X['a'][:, k:k + 1]
        al = alg or 'gridrec'
        kw = dict(filter_name=filt or 'parzen') if al in ('gridrec', 'fbp') else {}
        recs = [tp.recon(one.copy(), theta, center=float(c), algorithm=al, sinogram_order=sino, **kw) for c in centers]
        return [g[0] for g in got], [g[1] for g in got], recs, X['a'], was

    def check(X, R):
        names, imgs, recs, a, was = R
        yield ('one image per centre', names == ['x/y/%.2f' % c for c in centers])
        for c, img, rec in zip(centers, imgs, recs):
            Z, Y = S.plain(img), S.plain(rec)[0]
            yield ('shape', Z.shape == Y.shape)
            h, w = Y.shape
            for ix in np.ndindex(h, w):
                o = mask and (ix[0] + 0.5 - h / 2.0) ** 2 + (ix[1] + 0.5 - w / 2.0) ** 2 >= (min(h, w) / 2.0 * (1.0 if ratio is None else ratio)) ** 2
                yield ('image for the centre %g %s' % (c, list(ix)), close(sc(Z[ix]), 0.0 if o else sc(Y[ix]), 1e-5))
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('written ' + name, ins, impl, check, funcs=[P + 'write_center', 'tomopy.recon.algorithm.recon'], bounds=str(shape), timeout=100)


# ----------------------------------------------------------------------------- double wedge
def metric(s, sino, flip, comp, mask):
    s = np.float32(s)
    if s == math.floor(s):
        s = int(s)
        z = np.roll(flip, s, axis=1)
        if s >= 0:
            z[:, :s] = comp[:, :s]
        else:
            z[:, s:] = comp[:, s:]
    else:
        z = ndimage.shift(flip, (0, s), order=3, prefilter=True)
        if s >= 0:
            z[:, :int(math.ceil(s))] = comp[:, :int(math.ceil(s))]
        else:
            z[:, int(math.floor(s)):] = comp[:, int(math.floor(s)):]
    f = np.abs(np.fft.fftshift(np.fft.fft2(np.vstack((sino, z)))))
    return float((f * mask).mean())


def wedge(nrow, ncol, radius, drop):
    m = np.zeros((nrow, ncol))
    cr, cc = int(math.ceil(nrow / 2.0)) - 1, int(math.ceil(ncol / 2.0)) - 1
    drop = min(drop, int(math.ceil(0.05 * nrow)))
    for i in range(nrow):
        p = math.ceil((i - cr) * (nrow - 1.0) / (nrow * 2 * math.pi) / radius * ncol)
        a, b = sorted((cc - p, cc + p))
        m[i, min(max(a, 0), ncol - 1):min(max(b, 0), ncol - 1) + 1] = 1
    m[cr - drop:cr + drop + 1] = 0
    m[:, cc - 1:cc + 2] = 0
    return m


def best(sino, cors, ratio, drop):
    n, w = sino.shape
    m = wedge(2 * n, w, 0.5 * ratio * w, drop)
    vals = [metric(2.0 * (c - (w - 1) / 2.0), sino, sino[:, ::-1], sino[::-1], m) for c in cors]
    o = sorted(vals)
    return cors[int(np.argmin(vals))], (o[1] - o[0]) / o[0]


def vo(tomo, ind=None, smin=-50, smax=50, srad=6, step=0.25, ratio=0.5, drop=20):
    tomo = np.asarray(tomo, float)
    if tomo.ndim == 2:
        s = tomo
    else:
        h = tomo.shape[1]
        s = tomo[:, h // 2 - 5:h // 2 + 5].mean(1) if ind is None and h > 10 else tomo[:, h // 2 if ind is None else ind]
    n, w = s.shape
    half = (w - 1.0) / 2
    lo = int(min(max(smin + half, 0), w - 1) - half)
    hi = int(min(max(smax + half, 0), w - 1) - half)
    c, gap = best(ndimage.gaussian_filter(s, (3, 1), mode='reflect'), np.arange(w // 2 + lo, w // 2 + hi + 0.5, 0.5), ratio, drop)
    srad = min(max(abs(srad), 1.0), w / 4.0)
    step = min(max(abs(step), 0.1), srad)
    c = min(max(c, srad), w - srad - 1)
    c, g2 = best(ndimage.gaussian_filter(s, (2, 2), mode='reflect'), c + np.arange(-srad, srad + step, step), ratio, drop)
    return float(c), min(gap, g2)


def sinogram(shape, c, seed):
    """Discs that turn around column c."""
    n = shape[0]
    r = np.random.RandomState(seed)
    th = np.linspace(0, math.pi, n)
    out = np.zeros(shape)
    cols = np.arange(shape[-1])
    for i in range(shape[1] if len(shape) == 3 else 1):
        s = np.zeros((n, shape[-1]))
        for _ in range(4):
            x, y, rad = r.uniform(-0.25, 0.25) * shape[-1], r.uniform(-0.25, 0.25) * shape[-1], r.uniform(0.6, 1.6)
            d = cols[None] - (c + x * np.cos(th) + y * np.sin(th))[:, None]
            s += 2 * np.sqrt(np.maximum(rad ** 2 - d ** 2, 0))
        if len(shape) == 3:
            out[:, i] = s + r.uniform(0, 0.1, s.shape)
        else:
            out = s + r.uniform(0, 0.1, s.shape)
    return out.astype('f4')


def double_wedge(name, shape, c, seed, free, wide=1e-3, ncore=None, order='fifo', **kw):
    for sd in range(seed, seed + 400):
        base = sinogram(shape, c, sd)
        if len(shape) == 3:
            # slices that the search has to leave alone show another centre
            h = shape[1]
            used = range(h // 2 - 5, h // 2 + 5) if h > 10 else [kw.get('ind', h // 2)]
            other = sinogram(shape, shape[-1] - 1 - c + 1.5, sd + 1)
            for i in set(range(h)) - set(used):
                base[:, i] = 8 * other[:, i]
        want, gap = vo(base, **kw)
        if len(shape) == 3 and any(vo(np.roll(base, k, 1), **kw)[0] == want for k in (-1, 1)):
            continue
        ends = [vo(base + d * np.eye(1, base.size, int(np.ravel_multi_index(free, shape))).reshape(shape), **kw)[0] for d in (-wide, wide)]
        if gap > 4e-3 and ends == [want, want]:
            break
    ins = {'a': Sym(shape, 'f4', float(base[free]) - wide, float(base[free]) + wide, base=base, free=[free])}

    def impl(tp, X):
        was = X['a'].copy()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return mod().find_center_vo(X['a'], ncore=ncore, **kw), X['a'], was

    def check(X, R):
        r, a, was = R
        yield ('centre', abs(float(r) - want) < 1e-4)
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('double wedge ' + name, ins, impl, check, funcs=[P + 'find_center_vo', 'tomopy.util.mproc.distribute_jobs'], bounds=str(shape), order=order, timeout=150, forks=True)


# --------------------------------------------------------------------------- empty slices
def empties(name, base, free, lo, hi, thr=None, dt='f4'):
    base = np.asarray(base)
    ins = {'a': Sym(base.shape, dt, lo, hi, base=base.astype(dt), free=free)}

    def impl(tp, X):
        was = X['a'].copy()
        kw = {} if thr is None else dict(threshold=thr)
        r = mod().mask_empty_slice(X['a'], **kw)
        return np.array([bool(v) for v in r]), X['a'], was

    def check(X, R):
        r, a, was = R
        n, h, w = base.shape
        yield ('one answer per slice', tuple(r.shape) == (h,))
        A = S.plain(X['a'])
        t = 0.25 if thr is None else thr
        s = np.empty((h, w), object)
        for i in range(h):
            for j in range(w):
                v = 0.0
                for m in range(n):
                    v = T.add(v, sc(A[m, i, j]))
                s[i, j] = v

        def top(xs):
            m = xs[0]
            for x in xs[1:]:
                m = T.maxv(m, x)
            return m

        def var(xs):
            mu = 0.0
            for x in xs:
                mu = T.add(mu, x)
            mu = T.div(mu, float(len(xs)))
            q = 0.0
            for x in xs:
                d = T.sub(x, mu)
                q = T.add(q, T.mul(d, d))
            return T.div(q, float(len(xs)))
        m1 = top(list(s.ravel()))
        cols = []
        for j in range(w):
            v = 0.0
            for i in range(h):
                v = T.add(v, s[i, j])
            cols.append(v)
        m2 = top(cols)
        # deviation of a slice below the given part of the deviation of the sum of all slices
        ref = T.mul(T.mul(t * t, var(cols)), T.mul(m1, m1))
        for i in range(h):
            q = T.mul(var(list(s[i])), T.mul(m2, m2))
            below, above = T.lt(T.mul(q, 1.001), ref), T.lt(ref, T.mul(q, 0.999))
            yield ('slice %d' % i, T.not_(above) if r[i] else T.not_(below))
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('empty slices ' + name, ins, impl, check, funcs=[P + 'mask_empty_slice'], bounds=str(base.shape), forks=True, timeout=100)


def cases(tier):
    yield entropy('plain', (4, 3, 5))
    yield entropy('first slice', (4, 2, 5), ind=0, seed=1)
    yield entropy('no mask', (5, 3, 4), ind=2, mask=False, seed=2)
    yield entropy('small mask', (4, 3, 6), ratio=0.7, seed=3)
    yield entropy('sinograms', (3, 4, 5), sino=True, init=2.2, seed=4)
    yield entropy('last sinogram', (3, 5, 4), sino=True, ind=2, init=3, ratio=0.8, seed=5)
    yield registration('plain', (2, 5))
    yield registration('accuracy', (3, 4), tol=0.1)
    yield registration('guess', (2, 6), guess=2.0)
    yield registration('guess to the right', (2, 5), guess=3.5, tol=0.25)
    yield registration('guess at the middle', (1, 5), guess=2.0)
    yield registration('whole pixels', (2, 6), guess=4.5)
    yield written('plain', (4, 3, 5), [1.5, 3.5, 0.5])
    yield written('default range', (3, 2, 4), None)
    yield written('slice', (3, 3, 4), [1, 3, 0.75], ind=0, filt='shepp')
    yield written('mask', (3, 2, 6), [2, 4, 1], mask=True)
    yield written('small mask', (3, 2, 6), [2.5, 4, 1], mask=True, ratio=0.6)
    yield written('sinograms', (3, 4, 5), [2, 3, 0.5], sino=True, ind=2)
    yield written('back-projection', (3, 2, 4), [1.6, 2.2, 0.3], alg='fbp', filt='hann')
    yield written('algebraic', (3, 2, 4), [1.63, 2.2, 0.3], alg='sirt')
    for k in range(3):
        yield double_wedge('plain %d' % k, (6, 3, 12), 5.3 + 0.4 * k, 10 * k, (2, 1, 5), ncore=1 + k, order=('fifo', 'lifo')[k % 2])
    yield double_wedge('sinogram', (6, 11), 4.6, 40, (2, 4), ncore=1)
    yield double_wedge('many angles', (26, 10), 4.3, 93, (12, 4), ncore=1)
    yield double_wedge('slice', (6, 3, 10), 5.1, 50, (3, 2, 4), ind=2, ncore=1)
    yield double_wedge('mean of ten', (5, 12, 9), 4.4, 60, (2, 3, 4), ncore=1)
    yield double_wedge('narrow', (6, 2, 12), 6.2, 70, (2, 1, 5), smin=-2, smax=3, srad=2, step=0.5, ratio=0.8, drop=1, ncore=2)
    yield double_wedge('odd steps', (7, 2, 11), 5.9, 80, (2, 1, 5), smin=-3, smax=1, srad=1.5, step=0.4, ratio=0.7, drop=0, ncore=1)
    b = np.array([[[0, 1, 4, 1], [1, 1.2, 1, 1.1], [0, 3, 5, 0]], [[0, 2, 3, 1], [1.1, 1, 1, 1.2], [1, 4, 4, 0]]])
    yield empties('plain', b, [(0, 1, 2)], 0.2, 4)
    yield empties('threshold', b, [(1, 0, 2)], 0.2, 6, thr=0.8)
    yield empties('that sets the scale', b, [(0, 2, 2)], 0.5, 12, thr=0.6)
    yield empties('single projection', b[:1], [(0, 0, 0)], 0, 5, thr=0.5)
    yield empties('whole numbers', (b * 5).astype(int), [(0, 1, 2)], 4, 7, thr=0.5, dt='i4')
    if tier == 'thorough':
        for k in range(4):
            yield double_wedge('more %d' % k, (7, 2, 13), 5.0 + 0.7 * k, 100 + 10 * k, (3, 1, 4 + k), ncore=2)
        yield entropy('larger', (6, 3, 8), seed=7)
        yield written('larger', (6, 3, 8), [2, 6, 0.5], mask=True, ratio=0.9)
