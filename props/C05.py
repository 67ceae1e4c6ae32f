"""The penalised-likelihood algorithms solve their quadratic surrogate in every pixel."""
import math
from fractions import Fraction
import numpy as np
from ._recon import *
from .C04 import compose_case
from symt import terms as T

LIBS = ('recon',)
BOUNDS = 'one update: up to 8 angles, 3 slices, 6 bins, 6 x 6 pixels, measured values symbolic in [0.05, 4], start image a fixed positive one; up to 3 iterations and 5 subsets by composition, measured values symbolic; in addition one case each with 37 slices, about 70 angles, 33 bins and a 23 x 21 grid in which some values are symbolic'
OUTSIDE = 'larger sizes; grids narrower than two pixels; geometries with rays inside the 0.01-pixel trimming margin; start images that are zero along a whole ray'
ASSUMPTIONS = ['operations on symbolic values are over the reals; a square root in the implementation is generalised to any non-negative value up to its interval bound, its square being its argument']


def surrogate(A, data, x, beta, delta):
    """Coefficients of 2 F y^2 + G y + E = 0 in every pixel: E from the likelihood, F and G from penalty and sensitivity."""
    nx, ny = A.nx, A.ny
    E, F, G = S.obj((nx, ny)), np.zeros((nx, ny)), np.zeros((nx, ny))
    E[...] = 0.0
    for (p, d), row in A.rows.items():
        if not row:
            continue
        u = data[p, d] / A.fwd(x, p, d)
        for ix, l in row:
            E[ix] = E[ix] - x[ix] * l * u
            G[ix] += l
    for i in range(nx):
        for j in range(ny):
            nb = [(i + a, j + b, 1.0 if a == 0 or b == 0 else 1 / math.sqrt(2)) for a in (-1, 0, 1) for b in (-1, 0, 1)
                  if (a or b) and 0 <= i + a < nx and 0 <= j + b < ny]
            tot = sum(w for _, _, w in nb)
            for a, b, w in nb:
                g = 1.0 if delta is None else 1.0 / (1.0 + abs((x[i, j] - x[a, b]) / delta))
                F[i, j] += 2 * beta * w / tot * g
                G[i, j] -= 2 * beta * w / tot * g * (x[i, j] + x[a, b])
    return E, F, G


def bound_of(lin, lo, hi):
    b = Fraction(0)
    for k, v in lin.items():
        if k is None:
            b += v
        elif k.op == 'var' and k.args[0].startswith('tomo['):
            b += max(v * Fraction(lo), v * Fraction(hi))
        else:
            return None
    return b


def pml_case(name, alg, geo, beta, delta, seed=0, data=(0.05, 4.0), ncore=1, order='fifo', sinogram_order=False, tol=4e-3, extra=None):
    b = init_base(geo, seed)
    shape = (geo.dy, geo.dt, geo.dx) if sinogram_order else (geo.dt, geo.dy, geo.dx)
    kwargs = {'reg_par': [beta] if delta is None else [beta, delta]}
    kwargs.update(extra or {})
    if geo.nx != geo.dx or geo.ny != geo.dx:
        kwargs.update(num_gridx=geo.nx, num_gridy=geo.ny)

    def impl(tp, X):
        kw = {k: (np.array(v, dtype='f4') if k == 'reg_par' else v.copy() if isinstance(v, np.ndarray) else v) for k, v in kwargs.items()}
        return tp.recon(X['tomo'], geo.theta.copy(), center=geo.center_arg(), algorithm=alg, init_recon=X['init'], ncore=ncore, sinogram_order=sinogram_order, **kw)

    def check(X, Y):
        yield ('shape of the reconstruction', tuple(Y.shape) == (geo.dy, geo.nx, geo.ny))
        t, Yp = S.plain(X['tomo']), S.plain(Y)
        for s in range(geo.dy):
            ds = np.array((t[s] if sinogram_order else t[:, s]).tolist(), dtype=object)
            x = np.array(b[s].astype('f8').tolist(), dtype=object)
            E, F, G = surrogate(geo.A[s], ds, x, beta, delta)
            for ix in np.ndindex(geo.nx, geo.ny):
                y = sc(Yp[(s,) + ix])
                e, f, g = E[ix], float(F[ix]), float(G[ix])
                lab = '%s: slice %d pixel %s' % (alg, s, list(ix))
                if not isinstance(y, T.Node):
                    if isinstance(e, T.Node):
                        yield (lab + ' depends on the data', close(2 * f * y * y + g * y + e, 0.0, tol))
                    else:
                        yield (lab, close(y, (-g + math.sqrt(max(0.0, g * g - 8 * e * f))) / (4 * f), tol))
                    continue
                l = T.lin(y)
                roots = [k for k in (l or {}) if k is not None]
                if l is None or len(roots) != 1 or roots[0].op != 'sqrt' or T.lin(roots[0].args[0]) is None:
                    raise T.Unsupported('update is not a square-root form')
                arg = roots[0].args[0]
                hi = bound_of(T.lin(arg), *data)
                if hi is None or hi < 0:
                    raise T.Unsupported('no bound of the discriminant')
                c, c0 = float(l[roots[0]]), float(l.get(None, 0))
                vmax = math.sqrt(float(hi)) * 1.0001 + 1e-6
                v = T.var('root[%d,%d,%d]' % ((s,) + ix), 'R')
                from symt import harness as H
                H.BOX[v.args[0]] = Fraction(vmax)
                res = 2 * f * (c * c * arg + 2 * c * c0 * v + c0 * c0) + g * (c * v + c0) + e
                slope = 4 * f * (c * v + c0) + g
                inside = T.and_(T.le(0.0, v), T.le(v, vmax))
                yield (lab + ': surrogate residual', T.or_(T.not_(inside), T.and_(T.le(lin_node(res), tol), T.le(-tol, lin_node(res)))))
                yield (lab + ': larger root', T.or_(T.not_(inside), T.le(-tol, lin_node(slope))))

    base = None if geo.free is None else np.random.RandomState(seed).uniform(data[0], data[1], shape).astype('f4')
    return Case(name, {'tomo': Sym(shape, 'f4', data[0], data[1], base=base, free=geo.free), 'init': fixed(b)}, impl, check, funcs=FUNCS + ['tomopy.util.extern.c_' + alg], order=order,
                bounds='%d angles x %d slices x %d bins onto %d x %d pixels, weight %g%s' % (geo.dt, geo.dy, geo.dx, geo.nx, geo.ny, beta, '' if delta is None else ', threshold %g' % delta))


def lin_node(n):
    """A term with its linear form collected and rounded to a 2^-40 grid (far below the tolerance)."""
    l = T.lin(n)
    if l is None:
        return n
    r = 0.0
    for k, v in l.items():
        v = Fraction(round(v * 2**40), 2**40)
        if v == 0:
            continue
        r = r + (v if k is None else v * k)
    return r


def fold_case(name, alg, single, geo, blocks, kwargs, n, rp):
    b = init_base(geo, 3)

    def impl(tp, X):
        kw = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kwargs.items()}
        a = tp.recon(X['tomo'].copy(), geo.theta.copy(), center=geo.center_arg(), algorithm=alg, init_recon=X['init'].copy(), ncore=1, num_iter=n, reg_par=np.array(rp, 'f4'), **kw)
        x = X['init'].copy()
        for _ in range(n):
            for bl in blocks:
                x = tp.recon(X['tomo'][list(bl)], geo.theta[list(bl)], center=geo.center_arg(), algorithm=single, init_recon=x, ncore=1, num_iter=1, reg_par=np.array(rp, 'f4'))
        return [a, x]

    def check(X, Y):
        a, c = S.plain(Y[0]), S.plain(Y[1])
        yield ('shape', a.shape == c.shape == (geo.dy, geo.nx, geo.ny))
        for ix in np.ndindex(*a.shape):
            yield ('%s and %s subset by subset, pixel %s' % (alg, single, list(ix)), close(sc(a[ix]), sc(c[ix]), 1e-3, 1e-3))

    return Case(name, {'tomo': Sym((geo.dt, geo.dy, geo.dx), 'f4', 0.05, 4.0), 'init': fixed(b)}, impl, check, funcs=FUNCS + ['tomopy.util.extern.c_' + alg],
                bounds='%d iterations, %d subsets, %d angles x %d slices x %d bins' % (n, len(blocks), geo.dt, geo.dy, geo.dx))


def cases(tier):
    for i, g in enumerate(geos(tier)):
        alg, delta = [('pml_quad', None), ('pml_hybrid', 0.7), ('ospml_quad', None), ('ospml_hybrid', 0.4)][i % 4]
        yield pml_case('%s %s' % (alg, g.name), alg, g, 0.3 + 0.1 * (i % 3), delta, seed=i, sinogram_order=bool(i % 2), ncore=1 + i % 3, order='lifo' if i % 2 else 'fifo')
        alg, delta = [('ospml_hybrid', 0.4), ('ospml_quad', None), ('pml_hybrid', 1.3), ('pml_quad', None)][i % 4]
        yield pml_case('%s %s' % (alg, g.name), alg, g, 0.3 + 0.1 * (i % 3), delta, seed=i)
    for i, g in enumerate(scale_geos()):
        alg, delta = [('ospml_hybrid', 0.4), ('ospml_quad', None), ('pml_hybrid', 1.3), ('pml_quad', None)][i % 4]
        yield pml_case('%s %s' % (alg, g.name), alg, g, 0.4, delta, seed=i, ncore=3)
        alg, delta = [('pml_quad', None), ('ospml_hybrid', 0.4), ('ospml_quad', None), ('pml_hybrid', 1.3)][i % 4]
        yield pml_case('%s %s' % (alg, g.name), alg, g, 0.4, delta, seed=i, ncore=3)
    yield pml_case('pml_quad weak penalty', 'pml_quad', Geo('x', S.angles(4), 4), 0.05, None)
    yield pml_case('pml_hybrid weak penalty', 'pml_hybrid', Geo('x', S.angles(4), 4), 0.05, 0.2)
    perms = {4: [2, 0, 3, 1], 5: [3, 0, 4, 1, 2], 7: [6, 0, 3, 1, 5, 2, 4]}
    for k, (dt, nb, perm) in enumerate([(4, 2, None), (5, 2, None), (5, 3, perms[5]), (5, 5, None), (7, 3, perms[7]), (4, 2, perms[4]), (7, 4, None)]):
        for alg, single, rp in (('ospml_quad', 'pml_quad', [0.4]), ('ospml_hybrid', 'pml_hybrid', [0.4, 0.6])):
            kwargs = {'num_block': nb}
            if perm is not None:
                kwargs['ind_block'] = np.array(perm)
            g = Geo('s', S.angles(dt), 4, dy=2, center=[2.0, 1.7])
            yield fold_case('%s %d angles %d subsets%s as a fold' % (alg, dt, nb, ' permuted' if perm else ''), alg, single, g, S.prange(dt, nb, perm), kwargs, 1 + k % 2, rp)
    g = Geo('x', S.angles(4), 4, dy=2)
    for n in (2, 3):
        for alg, rp in (('pml_quad', [0.4]), ('pml_hybrid', [0.4, 0.6])):
            yield compose_case('%s %d iterations' % (alg, n), alg, g, n, {'reg_par': np.array(rp, 'f4')})
