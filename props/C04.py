"""MLEM and OSEM are the multiplicative expectation-maximisation update."""
import numpy as np
from ._recon import *

LIBS = ('recon',)
BOUNDS = 'one iteration: up to 8 angles, 3 slices, 6 bins, 6 x 6 pixels, measured values symbolic in [0.05, 4], start image a fixed positive one; iteration count composition: up to 3 iterations with measured values symbolic; in addition one case each with 37 slices, about 70 angles, 33 bins and a 23 x 21 grid in which some values are symbolic'
OUTSIDE = 'larger sizes; geometries with rays inside the 0.01-pixel trimming margin; start images that are zero along a whole ray'
ASSUMPTIONS = ['operations on symbolic values are over the reals']


def compose_case(name, alg, geo, n, kwargs=None, seed=0, data=(0.05, 4.0), init=True):
    """n iterations are one iteration applied n times."""
    kwargs = dict(kwargs or {})
    b = init_base(geo, seed)

    def impl(tp, X):
        kw = lambda: {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kwargs.items()}
        c = geo.center_arg()
        at_once = tp.recon(X['tomo'].copy(), geo.theta.copy(), center=c, algorithm=alg, init_recon=X['init'].copy() if init else None, ncore=1, num_iter=n, **kw())
        x = X['init'].copy() if init else None
        for _ in range(n):
            x = tp.recon(X['tomo'].copy(), geo.theta.copy(), center=c, algorithm=alg, init_recon=x, ncore=1, num_iter=1, **kw())
        return [at_once, x]

    def check(X, Y):
        a, c = S.plain(Y[0]), S.plain(Y[1])
        yield ('shape', a.shape == c.shape == (geo.dy, geo.nx, geo.ny))
        for ix in np.ndindex(*a.shape):
            yield ('%s: %d iterations at once and one by one, pixel %s' % (alg, n, list(ix)), close(sc(a[ix]), sc(c[ix]), 1e-3, 1e-3))

    return Case(name, {'tomo': Sym((geo.dt, geo.dy, geo.dx), 'f4', data[0], data[1]), 'init': fixed(b)}, impl, check, funcs=FUNCS + ['tomopy.util.extern.c_' + alg],
                bounds='%d iterations, %d angles x %d slices x %d bins' % (n, geo.dt, geo.dy, geo.dx))


def fold_case(name, geo, blocks, kwargs, n):
    """OSEM is MLEM applied to one subset of the projections after the other."""
    b = init_base(geo, 3)
    grid = {k: v for k, v in kwargs.items() if k.startswith('num_grid')}

    def impl(tp, X):
        kw = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kwargs.items()}
        a = tp.recon(X['tomo'].copy(), geo.theta.copy(), center=geo.center_arg(), algorithm='osem', init_recon=X['init'].copy(), ncore=1, num_iter=n, **kw)
        x = X['init'].copy()
        for _ in range(n):
            for bl in blocks:
                x = tp.recon(X['tomo'][list(bl)], geo.theta[list(bl)], center=geo.center_arg(), algorithm='mlem', init_recon=x, ncore=1, num_iter=1, **grid)
        return [a, x]

    def check(X, Y):
        a, c = S.plain(Y[0]), S.plain(Y[1])
        yield ('shape', a.shape == c.shape == (geo.dy, geo.nx, geo.ny))
        for ix in np.ndindex(*a.shape):
            yield ('OSEM and MLEM subset by subset, pixel %s' % list(ix), close(sc(a[ix]), sc(c[ix]), 1e-3, 1e-3))

    return Case(name, {'tomo': Sym((geo.dt, geo.dy, geo.dx), 'f4', 0.05, 4.0), 'init': fixed(b)}, impl, check, funcs=FUNCS + ['tomopy.util.extern.c_osem', 'tomopy.util.extern.c_mlem'],
                bounds='%d iterations, %d subsets, %d angles x %d slices x %d bins' % (n, len(blocks), geo.dt, geo.dy, geo.dx))


def cases(tier):
    D = (0.05, 4.0)
    for i, g in enumerate(geos(tier)):
        yield recon_case('mlem ' + g.name, 'mlem', g, ref_em, seed=i, init='conc', data=D, sinogram_order=bool(i % 2), ncore=1 + i % 3, order='lifo' if i % 2 else 'fifo')
    for i, g in enumerate(scale_geos()):
        yield recon_case('mlem ' + g.name, 'mlem', g, ref_em, seed=i, init='conc', data=D, ncore=3)
    yield recon_case('mlem default start', 'mlem', Geo('x', S.angles(4), 4, dy=2), ref_em, init=None, data=D)
    yield recon_case('osem default start', 'osem', Geo('x', S.angles(4), 4, dy=2), ref_em, init=None, data=D)
    perms = {4: [2, 0, 3, 1], 5: [3, 0, 4, 1, 2], 6: [5, 2, 0, 3, 1, 4], 7: [6, 0, 3, 1, 5, 2, 4]}
    confs = [(5, 1, None), (4, 2, None), (5, 2, None), (5, 3, None), (5, 5, None), (6, 4, None), (7, 3, None),
             (5, 1, perms[5]), (4, 2, perms[4]), (5, 2, perms[5]), (5, 3, perms[5]), (7, 3, perms[7]), (6, 6, perms[6])]
    if tier == 'thorough':
        confs += [(7, k, p) for k in (2, 4, 5, 6, 7) for p in (None, perms[7])]
    for dt, nb, perm in confs:
        bl = S.prange(dt, nb, perm if nb > 1 else None)
        g = Geo('s', S.angles(dt), 4, dy=2, blocks=bl, center=[2.0, 1.7])
        kwargs = {'num_block': nb}
        if perm is not None:
            kwargs['ind_block'] = np.array(perm)
        nm = 'osem %d angles %d subsets%s' % (dt, nb, ' permuted' if perm else '')
        # the update with the last subset's measurements symbolic is linear in them
        free = [(p, s, d) for p in bl[-1] for s in range(2) for d in range(4)]
        yield recon_case(nm, 'osem', g, ref_em, kwargs=kwargs, refkw={'blocks': bl}, init='conc', data=D, free=free, ncore=2)
        yield fold_case(nm + ' as a fold', g, bl, kwargs, 1 + (dt + nb) % 2)
    bl = S.prange(5, 2)
    g = Geo('s', S.angles(5), 5, nx=4, ny=6, blocks=bl)
    yield recon_case('osem rectangular grid', 'osem', g, ref_em, kwargs={'num_block': 2}, refkw={'blocks': bl}, init='conc', data=D,
                     free=[(p, 0, d) for p in bl[-1] for d in range(5)])
    yield fold_case('osem rectangular grid as a fold', g, bl, {'num_block': 2, 'num_gridx': 4, 'num_gridy': 6}, 2)
    g = Geo('x', S.angles(4), 4, dy=2)
    for n in (2, 3):
        yield compose_case('mlem %d iterations' % n, 'mlem', g, n)
        yield compose_case('osem %d iterations' % n, 'osem', g, n, {'num_block': 2, 'ind_block': np.array([2, 0, 3, 1])})
    yield compose_case('mlem 2 iterations default start', 'mlem', g, 2, init=False)
