"""Gradient descent, Tikhonov and total-variation reconstructions follow their stated iterations."""
import math
import numpy as np
from ._recon import *
from symt import terms as T

LIBS = ('recon',)
BOUNDS = 'up to 8 angles, 3 slices, 6 bins, 6 x 6 pixels; data, start image and prior image symbolic for fixed steps (up to 3 iterations); adaptive steps with one symbolic measurement; total variation: first iteration with any weight, up to 3 where the gradient stays below the weight; in addition one case each with 37 slices, about 70 angles, 33 bins and a 23 x 21 grid in which some values are symbolic'
OUTSIDE = 'later total-variation iterations where the dual variable is clipped; larger sizes and iteration counts; geometries with rays inside the 0.01-pixel trimming margin'
ASSUMPTIONS = ['operations on symbolic values are over the reals']


def msqrt(x):
    return T.sqrt(x) if isinstance(x, T.Node) else math.sqrt(x)


def ref_tv(A, data, x, num_iter=1, lam=1.0, **kw):
    """Chambolle-Pock iteration for  1/2 |A x - b|^2 + lam |grad x|, steps 0.35."""
    c = float(np.float32(0.35))
    r = 1.0 / math.sqrt(A.dx * A.dt / 2.0)
    nx, ny = A.nx, A.ny
    xb = x.copy()
    for ix in np.ndindex(nx, ny):
        xb[ix] = xb[ix] / r
    u = xb.copy()
    zx, zy = S.obj((nx, ny)), S.obj((nx, ny))
    zx[...] = 0.0
    zy[...] = 0.0
    q = S.obj((A.dt, A.dx))
    q[...] = 0.0
    for _ in range(num_iter):
        for i in range(nx - 1):
            for j in range(ny - 1):
                a = zx[i, j] + c * (xb[i, j + 1] - xb[i, j])
                b = zy[i, j] + c * (xb[i + 1, j] - xb[i, j])
                n = msqrt(a * a + b * b) / lam
                n = T.ite(T.lt(n, 1.0), 1.0, n) if isinstance(n, T.Node) else max(1.0, n)
                zx[i, j], zy[i, j] = a / n, b / n
        adj = S.obj((nx, ny))
        adj[...] = 0.0
        for (p, d), row in A.rows.items():
            q[p, d] = (q[p, d] + c * r * A.fwd(xb, p, d) - c * data[p, d]) / (1 + c)
            for ix, l in row:
                adj[ix] = adj[ix] + r * l * q[p, d]
        old = u.copy()
        for i in range(nx):
            for j in range(ny):
                div = zx[i, j] - (zx[i, j - 1] if j else 0.0) + zy[i, j] - (zy[i - 1, j] if i else 0.0)
                u[i, j] = u[i, j] - c * adj[i, j] + c * div
        for ix in np.ndindex(nx, ny):
            xb[ix] = 2 * u[ix] - old[ix]
    for ix in np.ndindex(nx, ny):
        xb[ix] = xb[ix] * r
    return xb


def ref_bb(A, data, x, num_iter=2, tikh=None, reg=None, **kw):
    """Barzilai-Borwein steps, the first being 1e-3."""
    r = 1.0 / math.sqrt(A.dx * A.dt / 2.0)
    x = x.copy()
    idx = list(np.ndindex(*x.shape))
    for ix in idx:
        x[ix] = x[ix] / r
    x0 = g0 = None
    for it in range(num_iter):
        g = S.obj(x.shape)
        g[...] = 0.0
        for (p, d), row in A.rows.items():
            u = r * A.fwd(x, p, d) - data[p, d]
            for ix, l in row:
                g[ix] = g[ix] + 2.0 * r * l * u
        if tikh is not None:
            for ix in idx:
                g[ix] = g[ix] + 2.0 * tikh * (x[ix] - reg[ix])
        if it == 0:
            step = float(np.float32(1e-3))
        else:
            num = den = 0.0
            for ix in idx:
                num = num + (x[ix] - x0[ix]) * (g[ix] - g0[ix])
                den = den + (g[ix] - g0[ix]) * (g[ix] - g0[ix])
            step = num / den
        x0, g0 = x.copy(), g.copy()
        for ix in idx:
            x[ix] = x[ix] - step * g[ix]
    for ix in idx:
        x[ix] = x[ix] * r
    return x


def tikh_case(name, geo, step, w, n=1, ncore=1, nchunk=None, order='fifo', default=False):
    """Prior image symbolic as well."""
    kw = {'num_gridx': geo.nx, 'num_gridy': geo.ny} if (geo.nx, geo.ny) != (geo.dx, geo.dx) else {}
    rs = np.random.RandomState(17)
    mk = lambda shape, k: Sym(shape, 'f4', -2, 2) if geo.free is None else Sym(shape, 'f4', -2, 2, base=rs.uniform(-2, 2, shape).astype('f4'), free=geo.free if k == 0 else [(0, 0, 0), (geo.dy - 1, geo.nx - 1, geo.ny - 1), (geo.dy // 2, 1, 0)])
    inputs = {'tomo': mk((geo.dt, geo.dy, geo.dx), 0), 'init': mk((geo.dy, geo.nx, geo.ny), 1)}
    if not default:
        inputs['reg'] = mk((geo.dy, geo.nx, geo.ny), 2)

    def impl(tp, X):
        k = dict(kw)
        if not default:
            k['reg_data'] = X['reg']
        return tp.recon(X['tomo'], geo.theta.copy(), center=geo.center_arg(), algorithm='tikh', init_recon=X['init'], ncore=ncore, nchunk=nchunk, num_iter=n,
                        reg_par=np.array([step, w], dtype='f4'), **k)

    def check(X, Y):
        yield ('shape of the reconstruction', tuple(Y.shape) == (geo.dy, geo.nx, geo.ny))
        t, Yp = S.plain(X['tomo']), S.plain(Y)
        for s in range(geo.dy):
            reg = np.array((S.plain(X['reg'])[s] if not default else np.zeros((geo.nx, geo.ny))).tolist(), dtype=object)
            R = ref_grad(geo.A[s], np.array(t[:, s].tolist(), dtype=object), np.array(S.plain(X['init'])[s].tolist(), dtype=object), num_iter=n,
                         step=float(np.float32(step)), tikh=float(np.float32(w)), reg=reg)
            for ix in np.ndindex(geo.nx, geo.ny):
                yield ('tikh: slice %d pixel %s' % (s, list(ix)), close(sc(Yp[(s,) + ix]), sc(R[ix]), 2e-3))

    return Case(name, inputs, impl, check, funcs=FUNCS + ['tomopy.util.extern.c_tikh'], order=order, bounds='%d iterations, %d angles x %d slices x %d bins onto %d x %d pixels, '
                'data, start image and prior symbolic' % (n, geo.dt, geo.dy, geo.dx, geo.nx, geo.ny))


def cases(tier):
    f = lambda v: float(np.float32(v))
    for i, g in enumerate(geos(tier)):
        o = dict(seed=i, sinogram_order=bool(i % 2), ncore=1 + i % 3, order='lifo' if i % 2 else 'fifo')
        yield recon_case('grad ' + g.name, 'grad', g, ref_grad, kwargs={'reg_par': np.array([0.3], 'f4')}, refkw={'step': f(0.3)}, **o)
        yield tikh_case('tikh ' + g.name, g, 0.3, 0.4)
        yield recon_case('tv ' + g.name, 'tv', g, ref_tv, init='conc', kwargs={'reg_par': np.array([0.8], 'f4')}, refkw={'lam': f(0.8)}, **o)
    for i, g in enumerate(scale_geos()):
        yield recon_case('grad ' + g.name, 'grad', g, ref_grad, kwargs={'reg_par': np.array([0.1], 'f4')}, refkw={'step': f(0.1)}, seed=i, ncore=3)
        yield tikh_case('tikh ' + g.name, g, 0.1, 0.4, ncore=3)
        yield recon_case('tv ' + g.name, 'tv', g, ref_tv, init='conc', kwargs={'reg_par': np.array([0.8], 'f4')}, refkw={'lam': f(0.8)}, seed=i, ncore=3)
    g = Geo('x', S.angles(4), 4, dy=2)
    for n in (2, 3):
        yield recon_case('grad %d iterations' % n, 'grad', g, ref_grad, kwargs={'reg_par': np.array([0.3], 'f4'), 'num_iter': n}, refkw={'step': f(0.3), 'num_iter': n})
        yield tikh_case('tikh %d iterations' % n, g, 0.2, 0.7, n)
    g3 = Geo('x', S.angles(3), 4, dy=3, center=[2.0, 1.8, 2.4])
    yield tikh_case('tikh two workers', g3, 0.3, 0.4, ncore=2)
    yield tikh_case('tikh chunks of one', g3, 0.3, 0.4, ncore=2, nchunk=1, order='lifo')
    yield tikh_case('tikh default prior', g3, 0.3, 0.4, default=True)
    yield tikh_case('tikh default prior rectangular grid', Geo('x', S.angles(4), 4, nx=5, ny=3), 0.3, 0.4, default=True)
    yield tikh_case('tikh default prior big grid', Geo('x', S.angles(4), 4, nx=6, ny=6), 0.3, 0.4, default=True)
    yield recon_case('grad default step', 'grad', g, ref_grad, kwargs={}, refkw={'step': 1.0})
    for lam in (0.05, 0.3, 4.0):
        yield recon_case('tv weight %g' % lam, 'tv', g, ref_tv, init='conc', kwargs={'reg_par': np.array([lam], 'f4')}, refkw={'lam': f(lam)})
    yield recon_case('tv default', 'tv', g, ref_tv, init=None, refkw={'lam': 1.0})
    g1 = Geo('x', S.angles(3), 3)
    for n in (2, 3):
        yield recon_case('tv %d iterations no clipping' % n, 'tv', g, ref_tv, init='conc', kwargs={'reg_par': np.array([100.0], 'f4'), 'num_iter': n},
                         refkw={'lam': 100.0, 'num_iter': n})
    gw = Geo('x', S.angles(4), 4, nx=3, ny=5)
    yield recon_case('tv 2 iterations no clipping rectangular', 'tv', gw, ref_tv, init='conc', kwargs={'reg_par': np.array([100.0], 'f4'), 'num_iter': 2},
                     refkw={'lam': 100.0, 'num_iter': 2})
    yield recon_case('grad adaptive step', 'grad', g1, ref_bb, init='conc', kwargs={'reg_par': np.array([-1.0], 'f4'), 'num_iter': 2}, refkw={'num_iter': 2},
                     free=[(1, 0, 1)], data=(0.0, 2.0), timeout=90)
    g2 = Geo('x', S.angles(3), 3, dy=2)
    yield recon_case('grad adaptive step, two slices', 'grad', g2, ref_bb, init='conc', kwargs={'reg_par': np.array([-1.0], 'f4'), 'num_iter': 2}, refkw={'num_iter': 2},
                     free=[(1, 0, 1)], data=(0.0, 2.0), timeout=90)
    yield recon_case('tikh adaptive step', 'tikh', g1, ref_bb, init='conc', kwargs={'reg_par': np.array([-1.0, 0.5], 'f4'), 'num_iter': 2},
                     refkw={'num_iter': 2, 'tikh': 0.5, 'reg': np.zeros((1, 3, 3))}, free=[(1, 0, 1)], data=(0.0, 2.0), timeout=90)
