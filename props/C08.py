"""Fourier grid reconstruction (gridrec)."""
import math
import numpy as np
from symt.harness import Sym, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ('gridrec',)
BOUNDS = 'up to 4 slices, 6 angles, 10 detector bins padded to 16 (20 padded to 32 in the thorough tier), grids up to 20 pixels wide (wider than the padded projections); every measured value symbolic, filter coefficients symbolic in the custom-filter cases; in addition one case each with 37 slices, 70 angles and 40 bins in which some values are symbolic'
OUTSIDE = 'larger sizes; parameters of the filters other than those listed; accuracy of the gridding approximation itself (the reference is the gridding scheme with exact window values)'
ASSUMPTIONS = ['operations on symbolic values are over the reals; FFTW computes the discrete Fourier transform']
FUNCS = ['tomopy.recon.algorithm.recon', 'tomopy.recon.algorithm._dist_recon', 'tomopy.util.extern.gridrec.c_gridrec', 'gridrec', 'set_filter_tables', 'set_pswf_tables', 'set_trig_tables', 'get_filter']

LEG = [0.5767616E+02, -0.8931343E+02, 0.4167596E+02, -0.1053599E+02, 0.1662374E+01, -0.1780527E-00, 0.1372983E-01, -0.7963169E-03, 0.3593372E-04, -0.1295941E-05, 0.3817796E-07]
C_, LAMBDA = 7.0, 0.99998546


def window(x):
    """Prolate spheroidal window of 4 grid points width, from its even Legendre series."""
    t = abs(x) / 2.0
    c = np.zeros(2 * len(LEG))
    c[::2][:len(LEG)] = LEG
    return np.polynomial.legendre.legval(t, c) / np.polynomial.legendre.legval(0.0, c)


def filt(name, pd, par):
    out = []
    for j in range(pd // 2):
        x = j / pd
        r = 2 * x
        out.append({'none': lambda: 1.0, 'shepp': lambda: r * np.sinc(x), 'cosine': lambda: r * math.cos(math.pi * x),
                    'hann': lambda: r * 0.5 * (1 + math.cos(2 * math.pi * x / par[0])), 'hamming': lambda: r * (0.54 + 0.46 * math.cos(2 * math.pi * x / par[0])),
                    'ramlak': lambda: r, 'parzen': lambda: r * (1 - x / par[0]) ** 3, 'butterworth': lambda: r / (1 + (x / par[0]) ** (2 * par[1]))}[name]())
    return np.array(out)


def padded(*n):
    pd = 16
    while pd < max(n):
        pd *= 2
    return pd


def basis(theta, dx, center, nx, ny):
    """G[r, q, p, j, k]: weight in pixel (r, q) of bin k of projection p through frequency j, without the filter."""
    pd = padded(dx, nx, ny)
    dt, h = len(theta), pd // 2
    norm = math.sqrt(math.pi / 2 / C_ / LAMBDA) / 1.2
    corr = np.array([norm / window(2.0 * abs(i - (h - 1)) / (h - 0.5)) if i < pd - 1 else norm / window(2.0) for i in range(pd)])
    padx, pady = (pd - nx) // 2, (pd - ny) // 2
    u = np.arange(ny) + pady - h
    v = (nx - 1 - np.arange(nx)) + padx - h
    gain = np.outer(corr[(nx - 1 - np.arange(nx)) + padx], corr[np.arange(ny) + pady])
    out = np.zeros((nx, ny, dt, h, dx))
    k = np.arange(dx)
    for p, th in enumerate(theta):
        c, s = math.cos(float(th)), math.sin(float(th))
        for j in range(1, h):
            U, V = j * c, j * s
            iu = [a for a in range(1 - h, h) if abs(a - U) <= 2.0]
            iv = [a for a in range(1 - h, h) if abs(a - V) <= 2.0]
            E = np.zeros((nx, ny), complex)
            for a in iu:
                for b in iv:
                    E += window(a - U) * window(b - V) * np.outer(np.exp(-2j * np.pi * v * b / pd), np.exp(-2j * np.pi * u * a / pd))
            ph = np.exp(2j * np.pi * j * (k - center) / pd)
            out[:, :, p, j, :] = 2 * np.real(E[:, :, None] * ph) * gain[:, :, None] * math.pi / pd / dt
    return out


_B = {}


def ref(theta, dx, center, nx, ny, F):
    """Weights M[r, q, p, k] with filter F[j] or F[p, j]."""
    key = (tuple(map(float, theta)), dx, center, nx, ny)
    if key not in _B:
        _B[key] = basis(*key)
    F = np.asarray(F, float)
    return np.einsum('rqpjk,j->rqpk', _B[key], F) if F.ndim == 1 else np.einsum('rqpjk,pj->rqpk', _B[key], F)


def dot(W, d):
    r = 0.0
    for ix in np.ndindex(*W.shape):
        w = float(W[ix])
        if w != 0.0:
            r = r + w * d[ix]
    return r


def rec(tp, X, theta, center, **kw):
    kw.setdefault('ncore', 1)
    return tp.recon(X, np.array(theta, 'f4'), center=np.array(center, 'f4') if isinstance(center, list) else center, algorithm='gridrec', **kw)


def direct(name, theta, dx, center=None, dy=1, nx=None, ny=None, fname='shepp', par=None, custom=None, ncore=1, nchunk=None, order='fifo', sino=False, init=False, ftol=0.01, free=None):
    theta = np.asarray(theta, 'f4')
    dt = len(theta)
    gx, gy = nx or dx, ny or dx
    cs = center if isinstance(center, list) else [dx / 2.0 if center is None else center] * dy
    pd = padded(dx, gx, gy)
    p = par if par is not None else [0.5, 8]
    F = filt(fname, pd, p) if custom is None else custom
    kw = {'filter_name': fname}
    if par is not None:
        kw['filter_par'] = list(par)
    if custom is not None:
        kw['filter_par'] = np.asarray(custom, 'f4')
    if nx:
        kw['num_gridx'] = nx
    if ny:
        kw['num_gridy'] = ny
    shp = (dy, dt, dx) if sino else (dt, dy, dx)
    inputs = {'tomo': Sym(shp, 'f4', -1, 1, free=free, base=None if free is None else np.random.RandomState(4).uniform(-1, 1, shp).astype('f4'))}
    if init:
        inputs['init'] = Sym((dy, gx, gy), 'f4', -50, 50)

    def impl(tp, X):
        k = dict(kw)
        if init:
            k['init_recon'] = X['init']
        return rec(tp, X['tomo'], theta, center, ncore=ncore, nchunk=nchunk, sinogram_order=sino, **k)

    def check(X, Y):
        yield ('shape of the reconstruction', tuple(Y.shape) == (dy, gx, gy))
        yield ('dtype of the reconstruction', Y.dtype == np.float32)
        t, Yp = S.plain(X['tomo']), S.plain(Y)
        for s in range(dy):
            M = ref(theta, dx, cs[s], gx, gy, F)
            d = t[s] if sino else t[:, s]
            for ix in np.ndindex(gx, gy):
                W = M[ix]
                yield ('gridrec: slice %d pixel %s' % (s, list(ix)), close(sc(Yp[(s,) + ix]), sc(dot(W, d)), ftol * float(np.abs(W).sum()) + 1e-4))

    return Case(name, inputs, impl, check, funcs=FUNCS, order=order, bounds='%d angles, %d slices, %d bins, %d x %d pixels, filter %s' % (dt, dy, dx, gx, gy, fname))


def same(name, theta, dx, variants, dy=1, tol=2e-4, outs=None, n=2):
    """variants: functions (tp, tomo) -> array that have to agree."""
    dt = len(theta)

    def impl(tp, X):
        return [f(tp, X['tomo'].copy()) for f in variants]

    def check(X, Y):
        for i in range(1, len(Y)):
            yield from arrays_close('variant %d' % i, Y[i], Y[0], tol)

    return Case(name, {'tomo': Sym((dt, dy, dx), 'f4', -1, 1)}, impl, check, funcs=FUNCS, bounds='%d angles, %d slices, %d bins' % (dt, dy, dx))


def filter_linear(name, theta, dx, two_d):
    """Symbolic custom filter, fixed data: the filter value of each frequency (and projection) acts on that frequency only."""
    theta = np.asarray(theta, 'f4')
    dt = len(theta)
    data = np.random.RandomState(3).uniform(-1, 1, (dt, 1, dx)).astype('f4')
    shp = (dt, 8) if two_d else (8,)

    def impl(tp, X):
        return rec(tp, data.copy(), theta, 3.3, filter_name='custom2d' if two_d else 'custom', filter_par=X['f'], init_recon=X['init'])

    def check(X, Y):
        B = np.einsum('rqpjk,pk->rqpj', basis(theta, dx, 3.3, dx, dx), data[:, 0].astype(float))
        f, Yp = S.plain(X['f']), S.plain(Y)
        for ix in np.ndindex(dx, dx):
            W = B[ix] if two_d else B[ix].sum(0)
            yield ('custom filter: pixel %s' % list(ix), close(sc(Yp[(0,) + ix]), sc(dot(W, f)), 0.012 * float(np.abs(B[ix]).sum()) + 1e-4))

    return Case(name, {'f': Sym(shp, 'f4', -1, 1), 'init': Sym((1, dx, dx), 'f4', free=[], base=np.zeros((1, dx, dx), 'f4'))}, impl, check, funcs=FUNCS, bounds='%d angles, %d bins, every filter coefficient symbolic' % (dt, dx))


def cases(tier):
    a = S.angles
    yield direct('plain', a(4), 8)
    yield direct('odd width, off centre', a(5), 7, center=2.9)
    yield direct('two slices', a(3), 6, dy=2)
    yield direct('three slices', a(3), 6, dy=3)
    yield direct('four slices, centre per slice', a(3), 6, dy=4, center=[2.6, 2.6, 3.4, 3.1])
    yield direct('three slices in two chunks', a(3), 6, dy=3, nchunk=2, ncore=2, order='lifo')
    yield direct('three slices in single-slice chunks, centre per slice', a(3), 5, dy=3, nchunk=1, ncore=3, center=[2.6, 2.2, 3.1])
    yield direct('sinogram order', a(3), 6, dy=2, sino=True, center=3.2)
    yield direct('angles over a full turn', a(5, 0.1, 0.1 + 2 * math.pi), 6)
    yield direct('angles beyond a turn', a(4, 6.5, 12.9), 6)
    yield direct('negative angles', -a(4), 6)
    yield direct('unordered angles', [2.2, 0.35, 1.3, 2.9], 6, dy=2)
    yield direct('axis-parallel angles', [0.0, math.pi / 2], 6)
    yield direct('start image is ignored', a(3), 6, dy=2, init=True)
    yield direct('wide grid', a(3), 8, nx=4, ny=10)
    yield direct('tall grid', a(3), 8, nx=11, ny=5)
    yield direct('full-width grid', a(2), 8, nx=16, ny=16, ftol=0.04)
    yield direct('full-width rows only', a(2), 6, nx=5, ny=16, ftol=0.04)
    yield direct('grid wider than the padded bins', a(2), 4, nx=20, ny=5)
    yield direct('grid taller than the padded bins', a(2), 5, nx=4, ny=18)
    yield direct('many slices, some values', a(2), 4, dy=37, center=[1.9 + 0.1 * (k % 4) for k in range(37)], ncore=3, free=[(k % 2, k, k % 4) for k in (0, 1, 11, 12, 13, 24, 25, 35, 36)])
    yield direct('many angles, some values', a(70), 4, free=[(p, 0, p % 4) for p in (0, 1, 31, 32, 63, 64, 69)])
    yield direct('many bins, some values', a(2), 40, nx=7, ny=9, fname='hann', ftol=0.02, free=[(0, 0, 0), (1, 0, 39), (0, 0, 20), (1, 0, 17)])
    yield direct('one bin', a(3), 1)
    yield direct('one angle', [0.6], 6)
    for f in ('none', 'shepp', 'cosine', 'hann', 'hamming', 'ramlak', 'parzen', 'butterworth'):
        yield direct('filter %s' % f, a(3), 6, fname=f)
    for f in ('hann', 'hamming', 'parzen', 'butterworth'):
        yield direct('filter %s with parameters' % f, a(3), 6, fname=f, par=[0.31, 3], dy=2)
    yield filter_linear('custom filter', a(3), 6, False)
    yield filter_linear('angle-dependent custom filter', a(3), 6, True)
    r = np.random.RandomState(5)
    yield direct('custom filter over two slices', a(3), 6, dy=2, fname='custom', custom=r.uniform(0, 1, 8))
    yield direct('custom filter per angle over three slices', a(3), 6, dy=3, fname='custom2d', custom=r.uniform(0, 1, (3, 8)))
    # exact identities, at a tighter tolerance than the reference allows
    th = a(4)
    perm = [2, 0, 3, 1]
    yield same('order of the projections', th, 7, [lambda tp, t: rec(tp, t, th, 3.2), lambda tp, t: rec(tp, t[perm], th[perm], 3.2)])
    yield same('turns', th, 7, [lambda tp, t: rec(tp, t, th, 3.2), lambda tp, t: rec(tp, t, th + 2 * math.pi, 3.2), lambda tp, t: rec(tp, t, th - 2 * math.pi, 3.2)])
    yield same('opposite view', th, 7, [lambda tp, t: rec(tp, t, th, 3.2), lambda tp, t: rec(tp, t[:, :, ::-1].copy(), th + math.pi, 6 - 3.2)])
    yield same('moving the data with the centre', th, 7, [lambda tp, t: rec(tp, t, th, 3.2, num_gridx=9, num_gridy=9), lambda tp, t: rec(tp, np.pad(t, ((0, 0), (0, 0), (2, 0))), th, 5.2, num_gridx=9, num_gridy=9)])
    yield same('slices on their own', a(3), 6, [lambda tp, t: rec(tp, t, a(3), [3.2, 3.2, 2.9]), lambda tp, t: np.concatenate([rec(tp, t[:, i:i + 1].copy(), a(3), c) for i, c in enumerate([3.2, 3.2, 2.9])])], dy=3)
    yield same('sub-grid', a(3), 8, [lambda tp, t: rec(tp, t, a(3), 4.1, num_gridx=4, num_gridy=6), lambda tp, t: rec(tp, t, a(3), 4.1, num_gridx=10, num_gridy=12)[:, 3:7, 3:9]])
    yield same('repeated projections', [0, 1], 6, [lambda tp, t: rec(tp, t, [0.3, 1.9], 3.2), lambda tp, t: rec(tp, np.concatenate([t, t]), [0.3, 1.9, 0.3, 1.9], 3.2)])
    if tier == 'thorough':
        yield direct('16 bins', a(3), 16, center=7.3, ftol=0.04)
        yield direct('17 bins padded to 32', a(2), 17, nx=8, ny=8)
        yield direct('20 bins padded to 32', a(2), 20, dy=2, nx=10, ny=7)
        yield direct('32 bins', a(1, 0.4), 32, nx=6, ny=6)
        for k in range(16):
            r = np.random.RandomState(k)
            yield direct('random %d' % k, r.uniform(-9, 9, 2 + k % 4), 5 + k % 6, center=float(r.uniform(1, 6)), dy=1 + k % 3, nx=3 + k % 9, ny=3 + (k // 2) % 9, fname=['ramlak', 'shepp', 'none', 'hann'][k % 4])
