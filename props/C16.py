"""Removal of stripes from sinograms."""
import functools
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close, settled
from symt.ir import sort_terms
from . import _spec as S

LIBS = ('prep',)
BOUNDS = 'smoothing and wavelet methods: sinograms up to 18 x 12 with every value symbolic; sorting and filtering: up to 3 x 2 with every value symbolic, up to 21 x 8 with one or two symbolic values; fitting, large, dead, interpolation and combined methods: up to 13 x 12 (20 angles for fitting) with one symbolic value (or a column tied to one) and fixed others; regularisation: up to 8 x 4 with one symbolic value per sinogram'
OUTSIDE = 'larger sinograms; several independent symbolic values in the methods that divide by data; the number of conjugate gradient steps; float32 rounding, including comparisons between values closer than 1e-4'
ASSUMPTIONS = ['scipy filters, wavelet transforms, splines and FFTs are the linear maps their concrete implementations compute', 'the conjugate gradient iteration converges to the solution of its linear system', 'operations on symbolic values are over the reals']
P = 'tomopy.prep.stripe.'


def slices(a, f):
    """Reference that treats every sinogram a[:, s, :] on its own."""
    out = np.empty(a.shape, object)
    for s in range(a.shape[1]):
        out[:, s, :] = f([[sc(v) for v in row] for row in a[:, s, :]])
    return out


def total(xs):
    r = 0.0
    for x in xs:
        r = T.add(r, x)
    return r


def mean(xs):
    return T.mul(total(xs), 1.0 / len(xs))


def matvec(M, xs):
    """Product of a matrix of numbers with terms."""
    return [total(T.mul(float(m), x) for m, x in zip(row, xs) if abs(m) > 1e-13) for row in M]


def edge(i, n):
    return min(max(i, 0), n - 1)


# ------------------------------------------------------------------------------------------------ smoothing filter
def smoothing(x, size):
    n = len(x[0])
    avg = [mean([row[j] for row in x]) for j in range(n)]
    smooth = [mean([avg[edge(j + k - size // 2, n)] for k in range(size)]) for j in range(n)]
    return [[T.add(T.sub(row[j], avg[j]), smooth[j]) for j in range(n)] for row in x]


# ------------------------------------------------------------------------------------------------ Fourier-wavelet
def fourier_wavelet(shape, level, wname, sigma, pad):
    """Matrix of the method for sinograms of this shape."""
    import pywt
    na, nd = shape
    ext = na + na // 8 if pad else na
    sh = (ext - na) // 2

    def damp(v):
        n = v.shape[0]
        k = np.fft.fftshift(np.fft.fftfreq(n) * n) + (0.5 if n % 2 == 0 else 0.0)
        F = np.exp(-2j * np.pi * np.outer(np.fft.fftshift(np.fft.fftfreq(n)), np.arange(n)))
        return (F.conj().T / n @ np.diag(1 - np.exp(-k ** 2 / (2.0 * sigma ** 2))) @ F).real @ v

    def one(x):
        y = np.zeros((ext, nd))
        y[sh:sh + na] = x
        stack = []
        for _ in range(level):
            lo, hi = pywt.dwt(y, wname, axis=0)
            (ll, lh), (hl, hh) = pywt.dwt(lo, wname, axis=1), pywt.dwt(hi, wname, axis=1)
            stack.append((damp(lh), hl, hh))
            y = ll
        for lh, hl, hh in reversed(stack):
            y = y[:lh.shape[0], :lh.shape[1]]
            y = pywt.idwt(pywt.idwt(y, lh, wname, axis=1), pywt.idwt(hl, hh, wname, axis=1), wname, axis=0)
        return y[sh:sh + na, :nd]
    cols = []
    for i in range(na * nd):
        e = np.zeros(na * nd)
        e[i] = 1
        cols.append(one(e.reshape(na, nd)).ravel())
    return np.array(cols).T


def linear_map(M, x):
    n = len(x[0])
    v = matvec(M, [a for row in x for a in row])
    return [v[i * n:(i + 1) * n] for i in range(len(x))]


# ------------------------------------------------------------------------------------------------ sorting
def half(i, n):
    """Half-sample symmetric extension."""
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def win(size):
    return range(-(size // 2), size - size // 2)


def med(xs):
    return sort_terms(xs)[len(xs) // 2]


NEAR = []           # comparisons so close that float rounding may settle them either way: nothing is claimed there
EPS = 1e-5


def below(u, v, tie=False):
    """u < v (tie: or equal), on the path under examination."""
    if not isinstance(u, T.Node) and not isinstance(v, T.Node):
        return u <= v if tie else u < v
    if u is v:
        return tie
    c = settled(T.le(u, v) if tie else T.lt(u, v))
    d = T.sub(u, v)
    n = settled(T.and_(T.lt(d, EPS), T.lt(-EPS, d)))
    if n is not False:
        NEAR.append(n)
    if isinstance(c, T.Node):
        if settled(T.le(d, -EPS)) is False:
            return False
        if settled(T.le(EPS, d)) is False:
            return True
    return c


def place(col, repl):
    """Each value of the column is exchanged for the replacement of its rank (ties: in the order of the column)."""
    less = {(j, i): below(w, v, j < i) for i, v in enumerate(col) for j, w in enumerate(col) if i != j}
    out = []
    for i, v in enumerate(col):
        k = 0
        for j, w in enumerate(col):
            if j != i:
                c = less[j, i]
                k = T.add(k, T.ite(c, 1, 0)) if isinstance(c, T.Node) or isinstance(k, T.Node) else k + int(bool(c))
        if isinstance(k, T.Node):
            r = repl[-1]
            for q in range(len(col) - 1):
                r = T.ite(T.eq(k, q), repl[q], r)
            out.append(r)
        else:
            out.append(repl[k])
    return out


def sorting(x, size, dim):
    na, nd = len(x), len(x[0])
    cols = [sort_terms([x[i][j] for i in range(na)]) for j in range(nd)]
    rows = win(size) if dim == 2 else [0]
    new = [[med([cols[half(j + o, nd)][half(k + r, na)] for o in win(size) for r in rows]) for k in range(na)] for j in range(nd)]
    res = [place([x[i][j] for i in range(na)], new[j]) for j in range(nd)]
    return [[res[j][i] for j in range(nd)] for i in range(na)]


def default_size(nd):
    return 21 if nd > 2000 else max(5, int(0.01 * nd))


# ------------------------------------------------------------------------------------------------ filtering
def gauss_matrix(n, sigma, pad):
    """Low pass of a profile of n values: Gaussian window of the spectrum of the profile extended by reflection."""
    m = n + 2 * pad
    idx = np.pad(np.arange(n), pad, mode='reflect')
    E = np.zeros((m, n))
    E[np.arange(m), idx] = 1
    t = np.arange(m)
    F = np.exp(-2j * np.pi * np.outer(t, t) / m)
    sign = np.diag((-1.0) ** t)
    w = np.exp(-0.5 * ((t - (m - 1) / 2.0) / sigma) ** 2)
    M = (sign @ (F.conj() / m) @ np.diag(w) @ F @ sign).real
    return (M @ E)[pad:pad + n]


def filtering(x, sigma, size, dim):
    na, nd = len(x), len(x[0])
    M = gauss_matrix(na, sigma, min(150, int(0.1 * na)))
    low = [matvec(M, [x[i][j] for i in range(na)]) for j in range(nd)]
    lowx = [[low[j][i] for j in range(nd)] for i in range(na)]
    fixed = sorting(lowx, size, dim)
    return [[T.add(fixed[i][j], T.sub(x[i][j], lowx[i][j])) for j in range(nd)] for i in range(na)]


# ------------------------------------------------------------------------------------------------ fitting
def savgol_matrix(n, order):
    """Polynomial fit over the largest odd window, the profile mirrored about its ends."""
    w = n if n % 2 else n - 1
    order = min(order, w - 1)
    h = w // 2
    V = np.vander(np.arange(-h, h + 1), order + 1, increasing=True).astype(float)
    c = np.linalg.pinv(V)[0]
    M = np.zeros((n, n))
    for i in range(n):
        for o in range(-h, h + 1):
            j = abs(i + o) % (2 * n - 2) if n > 1 else 0
            M[i, j if j < n else 2 * n - 2 - j] += c[o + h]
    return M


def window2d_matrix(na, nd, sigma, pad):
    """Low pass of an image by a Gaussian window of its centred spectrum; edges repeated sideways, column means above and below."""
    h, w = na + 2 * pad, nd + 2 * pad
    cx = np.zeros((w, nd))
    cx[np.arange(w), np.clip(np.arange(w) - pad, 0, nd - 1)] = 1
    cy = np.full((h, na), 1.0 / na)
    cy[pad:pad + na] = np.eye(na)
    def F(n): return np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
    gx = np.exp(-(np.arange(w) - (w - 1) / 2.0) ** 2 / (2.0 * sigma[0] ** 2))
    gy = np.exp(-(np.arange(h) - (h - 1) / 2.0) ** 2 / (2.0 * sigma[1] ** 2))
    sx, sy = np.diag((-1.0) ** np.arange(w)), np.diag((-1.0) ** np.arange(h))
    A = (sy @ (F(h).conj() / h) @ np.diag(gy) @ F(h) @ sy @ cy)[pad:pad + na]
    B = (sx @ (F(w).conj() / w) @ np.diag(gx) @ F(w) @ sx @ cx)[pad:pad + nd]
    return np.kron(A, B).real


def fitting(x, order, sigma):
    na, nd = len(x), len(x[0])
    M = savgol_matrix(na, order)
    cols = [matvec(M, [x[i][j] for i in range(na)]) for j in range(nd)]
    fit = [[cols[j][i] for j in range(nd)] for i in range(na)]
    sm = linear_map(window2d_matrix(na, nd, sigma, min(150, int(0.1 * na))), fit)
    g = T.div(mean([v for row in fit for v in row]), mean([v for row in sm for v in row]))
    return [[T.mul(T.div(x[i][j], fit[i][j]), T.mul(g, sm[i][j])) for j in range(nd)] for i in range(na)]


# ------------------------------------------------------------------------------------------------ large and dead stripes
def ordered(xs):
    out = []
    for x in xs:
        i = len(out)
        while i and below(x, out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out


def detect(f, snr):
    """Columns whose value departs from the line through the middle half of the sorted values (algorithm 4)."""
    n = len(f)
    s = ordered(f)[::-1]
    nd = int(0.25 * n)
    xs = np.arange(nd, n - nd - 1)
    xm = xs.mean()
    sxx = float(((xs - xm) ** 2).sum())
    slope = total(T.mul((x - xm) / sxx, s[x]) for x in xs)
    first = T.sub(mean([s[x] for x in xs]), T.mul(xm, slope))
    last = T.add(first, T.mul(float(n - 1), slope))
    noise = T.absv(T.sub(last, first))
    noise = noise if below(1e-6, noise) else 1e-6
    mask = [False] * n
    if below(T.mul(snr, noise), T.absv(T.sub(s[0], first)), True):
        t = T.add(first, T.mul(0.5 * snr, noise))
        mask = [m or below(t, v) for m, v in zip(mask, f)]
    if below(T.mul(snr, noise), T.absv(T.sub(s[-1], last)), True):
        t = T.sub(last, T.mul(0.5 * snr, noise))
        mask = [m or below(v, t, True) for m, v in zip(mask, f)]
    return mask


def dilate(m):
    n = len(m)
    return [m[j] or (j > 0 and m[j - 1]) or (j < n - 1 and m[j + 1]) for j in range(n)]


def quotient(p, q):
    return T.div(p, q) if isinstance(q, T.Node) or q != 0 else 1.0


def background(x, size, drop):
    """Sorted columns, their median over neighbouring columns, and the ratio of the column means of both."""
    na, nd = len(x), len(x[0])
    cols = [ordered([x[i][j] for i in range(na)]) for j in range(nd)]
    sm = [[ordered([cols[half(j + o, nd)][k] for o in win(size)])[size // 2] for k in range(na)] for j in range(nd)]
    n0 = int(0.5 * min(max(drop, 0.0), 0.8) * na)
    fact = [quotient(mean(cols[j][n0:na - n0]), mean(sm[j][n0:na - n0])) for j in range(nd)]
    return sm, fact


def large(x, snr, size, drop, norm):
    na, nd = len(x), len(x[0])
    sm, fact = background(x, size, drop)
    mask = dilate(detect(fact, snr))
    y = [[T.div(x[i][j], fact[j]) if norm else x[i][j] for j in range(nd)] for i in range(na)]
    for j in range(nd):
        if mask[j]:
            new = place([y[i][j] for i in range(na)], sm[j])
            for i in range(na):
                y[i][j] = new[i]
    return y


def bridge_columns(x, mask):
    """Marked columns, except the two at either end, are interpolated between the nearest unmarked ones."""
    nd = len(x[0])
    keep = [j for j in range(nd) if not mask[j] or j < 2 or j >= nd - 2]
    out = [list(row) for row in x]
    for j in range(nd):
        if j not in keep:
            l, r = max(k for k in keep if k < j), min(k for k in keep if k > j)
            for i in range(len(x)):
                out[i][j] = T.add(T.mul((r - j) / (r - l), x[i][l]), T.mul((j - l) / (r - l), x[i][r]))
    return out


def dead(x, snr, size, norm):
    na, nd = len(x), len(x[0])
    diff = []
    for j in range(nd):
        col = [x[i][j] for i in range(na)]
        diff.append(total(T.absv(T.sub(col[i], mean([col[half(i + o, na)] for o in range(-5, 5)]))) for i in range(na)))
    bck = [ordered([diff[half(j + o, nd)] for o in win(size)])[size // 2] for j in range(nd)]
    y = bridge_columns(x, dilate(detect([quotient(p, q) for p, q in zip(diff, bck)], snr)))
    return large(y, snr, size, 0.1, True) if norm else y


def interpolation(x, snr, size, drop, norm):
    _, fact = background(x, size, drop)
    mask = dilate(detect(fact, snr))
    if norm:
        x = [[T.div(v, f) for v, f in zip(row, fact)] for row in x]
    return bridge_columns(x, mask)


def everything(x, snr, la, sm, dim):
    return sorting(dead(x, snr, la, True), sm, dim)


# ------------------------------------------------------------------------------------------------ regularisation
def larger(u, v):
    c = settled(T.lt(u, v))
    return T.ite(c, v, u) if isinstance(c, T.Node) else v if c else u


def smaller(u, v):
    c = settled(T.lt(v, u))
    return T.ite(c, v, u) if isinstance(c, T.Node) else v if c else u


def largest(xs):
    return functools.reduce(larger, xs)


def smallest(xs):
    return functools.reduce(smaller, xs)


KERNELS = ([1.0, -1.0], [-1.0, 2.0, -1.0])


def regularised(x, nblock, alpha):
    """sqrt(y1 y2 + alpha |min y1 y2|), y1 and y2 with the columns shifted to damp first and second differences of their means."""
    from symt.bridge import solve_gram
    na, nd = len(x), len(x[0])
    x = [[0.0 if not isinstance(v, T.Node) and v != v else v for v in row] for row in x]
    step = na // nblock if nblock else na
    cuts = list(range(0, na - step + 1, step)) + [na]
    prod = [[None] * nd for _ in range(na)]
    for a, b in zip(cuts, cuts[1:]):
        sums = [total(row) for row in x[a:b]]
        reg = T.div(1, T.mul(2, T.sub(largest(sums), smallest(sums))))
        av = [mean([row[j] for row in x[a:b]]) for j in range(nd)]
        q = []
        for h in KERNELS:
            H = np.array([[h[j - i] if 0 <= j - i < len(h) else 0.0 for j in range(nd)] for i in range(nd - len(h) + 1)])
            q.append(solve_gram(h, reg, [T.neg(total(T.mul(float(g), v) for g, v in zip(row, av) if g)) for row in H.T @ H]))
        for i in range(a, b):
            for j in range(nd):
                prod[i][j] = T.mul(T.add(x[i][j], q[0][j]), T.add(x[i][j], q[1][j]))
    low = smallest([v for row in prod for v in row])
    low = larger(low, T.neg(low))
    return [[T.sqrt(T.add(v, T.mul(alpha, low))) for v in row] for row in prod]


# ------------------------------------------------------------------------------------------------ cases
def stack(name, shape, call, ref, funcs, lo=0, hi=9, base=None, free=None, tie=None, tol=2e-3, view=None, dt='f4', assume=None, **kw):
    ins = {'a': Sym(shape, dt, lo, hi, base=base, free=free, tie=tie)}

    def impl(tp, X):
        a = X['a'] if view is None else view(X['a'])
        keep = a.copy()
        return call(tp.prep.stripe, a), a, keep

    def check(X, R):
        Y, now, was = R
        a = S.plain(was)
        yield ('shape', tuple(Y.shape) == a.shape)
        yield ('dtype', Y.dtype == np.float32)
        del NEAR[:]
        want = slices(a, ref)
        near = False
        for n in NEAR:
            near = T.or_(near, n)
        for ix in np.ndindex(*a.shape):
            y, w = sc(S.plain(Y)[ix]), want[ix]
            if all(isinstance(v, T.Node) and v.op == 'sqrt' for v in (y, w)):
                y, w = y.args[0], w.args[0]         # |sqrt a - sqrt b| <= |a - b| where both exceed 1/4
            yield ('value %s' % list(ix), close(y, w, tol, unless=near))
        yield from arrays_close('input unchanged', now, was, 1e-6)
    return Case(name, ins, impl, check, funcs=[P + f if f[0] != '!' else f[1:] for f in funcs], bounds=str(shape), timeout=kw.pop('timeout', 100), **kw)


def sf(name, shape, size=None, ncore=None, nchunk=None, **kw):
    k = {} if size is None else {'size': size}
    return stack(name, shape, lambda s, a: s.remove_stripe_sf(a, ncore=ncore, nchunk=nchunk, **k), lambda x: smoothing(x, 5 if size is None else size),
                 ['remove_stripe_sf', '!remove_stripe_sf'], lo=-9, **kw)


def fw(name, shape, level=None, wname='db5', sigma=2, pad=True, ncore=1, nchunk=None, **kw):
    lv = level if level is not None else math.ceil(math.log2(max(shape)))
    M = fourier_wavelet((shape[0], shape[2]) if kw.get('view') is None else (shape[2], shape[0]), lv, wname, sigma, pad)
    return stack(name, shape, lambda s, a: s.remove_stripe_fw(a, level=level, wname=wname, sigma=sigma, pad=pad, ncore=ncore, nchunk=nchunk),
                 lambda x: linear_map(M, x), ['remove_stripe_fw', '_remove_stripe_fw'], lo=-9, **kw)


def srt(name, shape, size=None, dim=1, ncore=1, nchunk=None, **kw):
    return stack(name, shape, lambda s, a: s.remove_stripe_based_sorting(a, size=size, dim=dim, ncore=ncore, nchunk=nchunk),
                 lambda x: sorting(x, default_size(shape[2]) if size is None else size, dim), ['remove_stripe_based_sorting', '_rs_sort'], **kw)


def flt(name, shape, sigma=3, size=None, dim=1, ncore=1, nchunk=None, **kw):
    return stack(name, shape, lambda s, a: s.remove_stripe_based_filtering(a, sigma=sigma, size=size, dim=dim, ncore=ncore, nchunk=nchunk),
                 lambda x: filtering(x, sigma, default_size(shape[2]) if size is None else size, dim), ['remove_stripe_based_filtering', '_rs_filter', '_rs_sort'], **kw)


def fit(name, shape, deg=3, sigma=(5, 20), ncore=1, nchunk=None, **kw):
    return stack(name, shape, lambda s, a: s.remove_stripe_based_fitting(a, order=deg, sigma=sigma, ncore=ncore, nchunk=nchunk), lambda x: fitting(x, deg, sigma),
                 ['remove_stripe_based_fitting', '_rs_fit', '_2d_filter'], forks=True, **kw)


def sino(na, nd, seed, stripes=(), lo=4.0, hi=6.0):
    """A sinogram of smooth random data with the given columns scaled."""
    rng = np.random.default_rng(seed)
    a = np.linspace(lo, hi, na)[:, None] + 0.4 * rng.random((na, 1)) + np.linspace(0.0, 0.3, nd) + 0.05 * rng.random((na, nd))
    for j, f in stripes:
        a[:, j] = a[:, j] * f if np.ndim(f) == 0 else f
    return a.astype('f4')[:, None, :]


def nonlin(name, base, free, fn, ref, kw, ncore=1, nchunk=None, tie=None, **o):
    base = np.asarray(base, 'f4')
    return stack(name, base.shape, lambda s, a: getattr(s, fn)(a, ncore=ncore, nchunk=nchunk, **kw), ref, [fn, '_detect_stripe', '_rs_large', '_rs_dead'],
                 base=base, free=free, tie=tie, forks=True, **o)


def big(name, base, free, snr=3, size=15, drop=0.1, norm=True, **o):
    return nonlin('large stripes: ' + name, base, free, 'remove_large_stripe', lambda x: large(x, snr, size, drop, norm),
                  dict(snr=snr, size=size, drop_ratio=drop, norm=norm), lo=o.pop('lo', 3), hi=o.pop('hi', 12), **o)


def gone(name, base, free, snr=3, size=15, norm=False, **o):
    return nonlin('dead stripes: ' + name, base, free, 'remove_dead_stripe', lambda x: dead(x, snr, size, norm),
                  dict(snr=snr, size=size, norm=norm), lo=o.pop('lo', 3), hi=o.pop('hi', 12), **o)


def inter(name, base, free, snr=3, size=15, drop=0.1, norm=True, **o):
    return nonlin('interpolation: ' + name, base, free, 'remove_stripe_based_interpolation', lambda x: interpolation(x, snr, size, drop, norm),
                  dict(snr=snr, size=size, drop_ratio=drop, norm=norm), lo=o.pop('lo', 3), hi=o.pop('hi', 12), **o)


def allof(name, base, free, snr=3, la=15, sm=3, dim=1, **o):
    return nonlin('all stripes: ' + name, base, free, 'remove_all_stripe', lambda x: everything(x, snr, la, sm, dim),
                  dict(snr=snr, la_size=la, sm_size=sm, dim=dim), lo=o.pop('lo', 3), hi=o.pop('hi', 12), **o)


def ti(name, base, free, nblock=0, alpha=1.5, ncore=1, nchunk=None, **o):
    base = np.asarray(base, 'f4')
    kw = dict(nblock=nblock, alpha=alpha)
    return stack('regularisation: ' + name, base.shape, lambda s, a: s.remove_stripe_ti(a, ncore=ncore, nchunk=nchunk, **kw), lambda x: regularised(x, nblock, alpha),
                 ['remove_stripe_ti', '_ring', '_ringb', '_ringMatXvec', '_kernel', '_get_parameter'], base=base, free=free, lo=o.pop('lo', 3), hi=o.pop('hi', 9), forks=True, **o)


def two(a, b):
    return np.concatenate([a, b], axis=1)


def strided(a):
    return a[::2]


def swapped(a):
    return a.swapaxes(0, 2)


def cases(tier):
    th = tier == 'thorough'
    # local averaging
    yield sf('smoothing', (3, 2, 5))
    yield sf('smoothing, size 3, two tasks', (2, 3, 4), 3, ncore=2)
    yield sf('smoothing, size 2, chunks of one, reversed', (2, 3, 4), 2, ncore=2, nchunk=1, order='lifo')
    yield sf('smoothing, window wider than the detector', (2, 1, 3), 7)
    yield sf('smoothing, window of one', (3, 1, 3), 1)
    yield sf('smoothing, one angle', (1, 2, 6), 5)
    yield sf('smoothing, one column', (4, 1, 1), 5)
    yield sf('smoothing, every other angle of an array', (5, 2, 4), 3, view=strided)
    yield sf('smoothing, swapped axes', (4, 2, 3), 4, view=swapped)
    yield sf('smoothing, large', (6, 2, 12), 5)
    # Fourier-wavelet
    yield fw('wavelet', (8, 1, 4))
    yield fw('wavelet, haar, two levels', (16, 1, 3), level=2, wname='haar')
    yield fw('wavelet, no padding, odd sizes', (7, 1, 5), level=2, wname='db2', pad=False)
    yield fw('wavelet, several slices, two tasks', (9, 3, 4), level=1, wname='db1', sigma=1, ncore=2)
    yield fw('wavelet, chunks of one, reversed', (8, 3, 4), level=1, wname='sym5', sigma=1.5, ncore=2, nchunk=1, order='lifo')
    yield fw('wavelet, padding above and below', (18, 1, 2), level=1, wname='haar', sigma=4)
    yield fw('wavelet, one column', (8, 2, 1), level=1, wname='haar')
    yield fw('wavelet, sigma below one', (8, 1, 6), level=2, wname='db3', sigma=0.7, pad=False)
    yield fw('wavelet, view', (8, 2, 5), level=1, wname='haar', view=swapped)
    # sorting
    yield srt('sorting', (3, 1, 2), 3)
    yield srt('sorting, default window', (2, 1, 3))
    yield srt('sorting, even window', (2, 1, 3), 2)
    yield srt('sorting, two dimensional window', (2, 1, 2), 3, dim=2)
    yield srt('sorting, two dimensional even window', (3, 1, 1), 2, dim=2)
    yield srt('sorting, three slices, two tasks', (2, 3, 2), 3, ncore=2)
    yield srt('sorting, chunks of one, reversed', (2, 3, 2), 3, ncore=2, nchunk=1, order='lifo')
    yield srt('sorting, one angle', (1, 1, 4), 3)
    yield srt('sorting, one column', (4, 1, 1), 3)
    yield srt('sorting, view', (2, 2, 2), 3, view=swapped)
    yield srt('sorting, two pixels of a larger sinogram', (6, 1, 5), 3, base=sino(6, 5, 11, [(2, 1.3)]), free=[(2, 0, 2), (3, 0, 1)], lo=3, hi=9, forks=True)
    yield srt('sorting, default window, one pixel', (7, 1, 8), None, base=sino(7, 8, 12, [(3, 1.3)]), free=[(2, 0, 3)], lo=3, hi=9, forks=True)
    yield srt('sorting, two dimensional window, one pixel', (6, 1, 5), 3, dim=2, base=sino(6, 5, 13, [(2, 1.3)]), free=[(3, 0, 2)], lo=3, hi=9, forks=True)
    # filtering
    yield flt('filtering', (3, 1, 2), size=3, base=sino(3, 2, 19), free=[(0, 0, 0), (1, 0, 1)], lo=3, hi=9, forks=True)
    yield flt('filtering, one slice of two, reversed', (3, 2, 1), 1.5, 3, ncore=2, order='lifo')
    yield flt('filtering, padded, one pixel', (10, 1, 3), 3, 3, base=sino(10, 3, 14), free=[(0, 0, 1)], lo=3, hi=9, forks=True)
    yield flt('filtering, padded, default window', (21, 1, 5), 4, None, base=sino(21, 5, 15, [(2, 1.2)]), free=[(7, 0, 2)], lo=4, hi=6, forks=True)
    yield flt('filtering, two dimensional window', (6, 1, 4), 2, 3, 2, base=sino(6, 4, 16), free=[(2, 0, 1)], lo=3, hi=9, forks=True)
    yield flt('filtering, even window', (5, 1, 4), 2, 2, base=sino(5, 4, 17), free=[(4, 0, 3)], lo=3, hi=9, forks=True)
    yield flt('filtering, view', (3, 2, 6), 2, 3, base=sino(3, 6, 18).repeat(2, 1), free=[(1, 0, 2)], lo=3, hi=9, forks=True, view=swapped)
    # fitting
    yield fit('fitting', (5, 1, 4), 2, (2, 3), lo=3, base=sino(5, 4, 1), free=[(2, 0, 1)])
    yield fit('fitting, even number of angles', (6, 1, 3), 3, (5, 20), lo=3, base=sino(6, 3, 2), free=[(0, 0, 2)])
    yield fit('fitting, order above the number of angles', (3, 1, 4), 5, (4, 6), lo=3, base=sino(3, 4, 3), free=[(1, 0, 0)])
    yield fit('fitting, order one', (7, 1, 3), 1, (1.5, 2.5), lo=3, base=sino(7, 3, 4), free=[(6, 0, 1)])
    yield fit('fitting, padded', (11, 1, 3), 3, (3, 5), lo=3, base=sino(11, 3, 5), free=[(4, 0, 0)])
    yield fit('fitting, padded, steep columns', (10, 1, 3), 2, (1.2, 2.0), lo=3, base=sino(10, 3, 5, [(0, 0.8), (1, 1.6)]), free=[(4, 0, 0)])
    yield fit('fitting, order one below the even number of angles', (4, 1, 3), 3, (2, 3), lo=3, base=sino(4, 3, 5), free=[(1, 0, 2)])
    yield fit('fitting, padded by two', (20, 1, 2), 4, (3, 9), lo=3, base=sino(20, 2, 6), free=[(11, 0, 1)])
    yield fit('fitting, two slices, reversed', (5, 2, 3), 2, (2, 4), ncore=2, order='lifo', lo=3, base=two(sino(5, 3, 7), sino(5, 3, 8)), free=[(2, 0, 1)])
    yield fit('fitting, view', (3, 2, 5), 2, (2, 3), lo=3, base=two(sino(3, 5, 9), sino(3, 5, 10)), free=[(1, 0, 2)], view=swapped)
    # large stripes
    s8 = sino(5, 8, 2, [(4, 1.5)])
    yield big('one pixel', s8, [(2, 0, 4)])
    yield big('pixel beside the stripe', s8, [(2, 0, 3)], lo=7)
    yield big('pixel of the last column', s8, [(1, 0, 7)])
    yield big('without normalisation', s8, [(2, 0, 4)], norm=False)
    yield big('drop ratio', sino(6, 8, 3, [(3, 0.6)]), [(1, 0, 3)], drop=0.5)
    yield big('drop ratio above the limit', sino(6, 8, 3, [(3, 0.6)]), [(1, 0, 2)], drop=1.0, lo=7)
    yield big('negative drop ratio', sino(6, 8, 3, [(3, 0.6)]), [(1, 0, 2)], drop=-0.5, lo=7)
    yield big('even window', sino(5, 8, 5, [(5, 1.4)]), [(0, 0, 5)], size=14)
    yield big('default window', sino(4, 9, 6, [(4, 1.5)]), [(2, 0, 4)], size=51)
    yield big('other threshold', sino(5, 12, 7, [(4, 1.2)]), [(2, 0, 4)], snr=1.2)
    yield big('stripe at the left edge', sino(5, 8, 8, [(0, 1.5)]), [(2, 0, 0)])
    yield big('stripe at the right edge, dark', sino(5, 8, 9, [(7, 0.7)]), [(2, 0, 7)])
    yield big('column of one value', s8, [(i, 0, 4) for i in range(5)], tie=lambda ix: 'c')
    yield big('two slices, reversed', two(s8, sino(5, 8, 4, [(2, 0.5)])), [(2, 0, 4)], ncore=2, order='lifo')
    yield big('slices in chunks', two(s8, sino(5, 8, 4, [(2, 0.5)])), [(1, 1, 2)], ncore=2, nchunk=1)
    yield big('window of three', s8, [(2, 0, 4)], size=3)
    yield gone('window of three', sino(5, 9, 3, [(4, 5.0)]), [(2, 0, 4)], size=3)
    yield inter('window of three', s8, [(2, 0, 4)], size=3)
    yield allof('window of three', sino(5, 9, 3, [(4, 5.0)]), [(2, 0, 4)], la=3)
    yield big('bright and dark stripes', sino(5, 12, 31, [(4, 1.5), (8, 0.7)]), [(2, 0, 8)])
    yield gone('bright and dark stripes', sino(5, 12, 31, [(4, 1.5), (8, 5.0)]), [(2, 0, 6)], snr=0.8)
    yield big('view', np.ascontiguousarray(two(s8, sino(5, 8, 4, [(2, 0.5)])).swapaxes(0, 2)), [(4, 0, 2)], view=swapped)
    # dead stripes
    d9 = sino(5, 9, 3, [(4, 5.0)])
    noisy = sino(6, 9, 21)
    noisy[:, 0, 4] += np.array([3, -1, 2, 4, -1, 3], 'f4')
    yield gone('one pixel', d9, [(2, 0, 4)])
    yield gone('fluctuating column', noisy, [(2, 0, 4)])
    yield gone('pixel beside the stripe', noisy, [(2, 0, 5)])
    yield gone('edge column', sino(5, 9, 22, [(1, np.array([4, 8, 4, 8, 4.]))]), [(2, 0, 1)])
    yield gone('last but one column', sino(5, 9, 23, [(7, np.array([4, 8, 4, 8, 4.]))]), [(2, 0, 7)])
    yield gone('second slice', two(d9, noisy[:5]), [(2, 1, 4)], ncore=2, order='lifo')
    yield gone('default window', noisy, [(2, 0, 3)], size=51)
    yield gone('many angles', sino(13, 8, 24, [(3, 5.0)]), [(6, 0, 3)])
    yield gone('other threshold', noisy, [(2, 0, 4)], snr=1.5)
    yield gone('with the residual stripes', noisy, [(2, 0, 4)], norm=True)
    yield gone('with the residual stripes, no free value', noisy, [], norm=True)
    yield gone('view', np.ascontiguousarray(two(d9, noisy[:5]).swapaxes(0, 2)), [(4, 0, 2)], view=swapped)
    # interpolation
    yield inter('one pixel', s8, [(2, 0, 4)])
    yield inter('without normalisation', s8, [(2, 0, 4)], norm=False)
    yield inter('pixel beside the stripe', s8, [(2, 0, 5)])
    yield inter('two stripes', sino(5, 12, 31, [(4, 1.5), (8, 0.7)]), [(2, 0, 8)])
    yield inter('edge column', sino(5, 8, 32, [(1, 1.5)]), [(2, 0, 1)])
    yield inter('drop ratio', sino(6, 8, 33, [(3, 0.6)]), [(1, 0, 3)], drop=0.5)
    yield inter('drop ratio above the limit', sino(6, 8, 33, [(3, 0.6)]), [(1, 0, 3)], drop=2.0)
    yield inter('even window', sino(5, 8, 34, [(5, 1.4)]), [(0, 0, 5)], size=14)
    yield inter('default window', sino(4, 9, 35, [(4, 1.5)]), [(2, 0, 4)], size=31)
    yield inter('two slices, reversed', two(s8, sino(5, 8, 36, [(3, 0.5)])), [(2, 1, 3)], ncore=2, order='lifo')
    yield inter('view', np.ascontiguousarray(two(s8, sino(5, 8, 36, [(3, 0.5)])).swapaxes(0, 2)), [(4, 0, 2)], view=swapped)
    # everything
    yield allof('one pixel', noisy, [(2, 0, 4)])
    yield allof('no free value', noisy, [])
    yield allof('two dimensional window', noisy, [(2, 0, 4)], dim=2)
    yield allof('no free value, two slices', two(d9, noisy[:5]), [], ncore=2, order='lifo')
    yield allof('pixel of another column', noisy, [(2, 0, 6)], sm=5, lo=6.5)
    # regularisation
    t1 = dict(lo=4.5, hi=5.5)
    yield ti('one pixel', sino(4, 4, 41), [(1, 0, 2)], **t1)
    yield ti('three columns', sino(3, 3, 42), [(1, 0, 1)], **t1)
    yield ti('another damping factor', sino(3, 3, 42), [(1, 0, 1)], alpha=3.0, **t1)
    if th:
        yield ti('angle that sets the parameter', sino(3, 3, 42), [(0, 0, 1)], lo=4.3, hi=4.6, timeout=600)
    yield ti('two slices, reversed', two(sino(4, 4, 41), sino(4, 4, 46)), [(1, 0, 2), (2, 1, 1)], ncore=2, order='lifo', **t1)
    yield ti('blocks', sino(4, 3, 43), [(1, 0, 2)], nblock=2, **t1)
    yield ti('blocks of three', sino(6, 3, 47), [(1, 0, 2)], nblock=2, **t1)
    yield ti('one block', sino(4, 4, 41), [(1, 0, 2)], nblock=1, **t1)
    yield ti('blocks that do not divide', sino(5, 3, 44), [(4, 0, 1)], nblock=2, lo=5.5, hi=7)
    yield ti('blocks of three that do not divide', sino(8, 3, 48), [(6, 0, 1)], nblock=2, lo=5.5, hi=7)
    holes = sino(4, 4, 41)
    holes[3, 0, 1] = np.nan
    yield ti('missing value', holes, [(1, 0, 2)], **t1)
    yield ti('missing value, blocks', holes, [(1, 0, 2)], nblock=1, **t1)
