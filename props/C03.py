"""ART is Kaczmarz' method; SIRT and BART are the block update, over the ordered subsets."""
import numpy as np
from ._recon import *

LIBS = ('recon',)
BOUNDS = 'up to 8 angles, 3 slices, 6 bins, 6 x 6 pixels (thorough: 10 x 10), up to 3 iterations, up to 5 subsets; measured values and start image symbolic; in addition one case each with 37 slices, about 70 angles, 33 bins and a 23 x 21 grid in which some values are symbolic'
OUTSIDE = 'larger sizes and iteration counts; geometries with rays inside the 0.01-pixel trimming margin'
ASSUMPTIONS = ['operations on symbolic values are over the reals']


def cases(tier):
    for i, g in enumerate(geos(tier)):
        yield recon_case('art ' + g.name, 'art', g, ref_art, seed=i, sinogram_order=bool(i % 2), ncore=1 + i % 2)
        yield recon_case('sirt ' + g.name, 'sirt', g, ref_sirt, seed=i, sinogram_order=bool(i % 2), ncore=1 + i % 3, order='lifo' if i % 2 else 'fifo')
    for i, g in enumerate(scale_geos()):
        yield recon_case('art ' + g.name, 'art', g, ref_art, seed=i, ncore=3)
        yield recon_case('sirt ' + g.name, 'sirt', g, ref_sirt, seed=i, ncore=3)
        k = min(5, g.dt)
        yield recon_case('bart ' + g.name, 'bart', g, ref_sirt, seed=i, ncore=3, kwargs={'num_block': k}, refkw={'blocks': S.prange(g.dt, k)})
    g = Geo('x', S.angles(4), 4, dy=2)
    for n in (2, 3):
        yield recon_case('art %d iterations' % n, 'art', g, ref_art, kwargs={'num_iter': n}, refkw={'num_iter': n})
        yield recon_case('sirt %d iterations' % n, 'sirt', g, ref_sirt, kwargs={'num_iter': n}, refkw={'num_iter': n})
    for alg, ref in (('art', ref_art), ('sirt', ref_sirt), ('bart', ref_sirt)):
        yield recon_case(alg + ' default start', alg, g, ref, init=None)
    for c in subset_cases('bart', ref_sirt, 'sym', tier):
        yield c


def subset_cases(alg, ref, init, tier, data=(-2.0, 2.0), **kw):
    perms = {4: [2, 0, 3, 1], 5: [3, 0, 4, 1, 2], 6: [5, 2, 0, 3, 1, 4], 7: [6, 0, 3, 1, 5, 2, 4]}
    confs = [(5, 1, None), (4, 2, None), (5, 2, None), (5, 3, None), (5, 5, None), (6, 4, None), (7, 3, None),
             (5, 1, perms[5]), (4, 2, perms[4]), (5, 2, perms[5]), (5, 3, perms[5]), (7, 3, perms[7]), (6, 6, perms[6])]
    if tier == 'thorough':
        confs += [(7, k, p) for k in (2, 4, 5, 6, 7) for p in (None, perms[7])]
    for dt, nb, perm in confs:
        # a single block is the whole set, whatever its order
        bl = S.prange(dt, nb, perm if nb > 1 else None)
        for n, dy in ((1, 2), (2, 1)):
            if n == 2 and (init != 'sym' or nb in (1, 6)):
                continue
            g = Geo('s', S.angles(dt), 4, dy=dy, blocks=bl)
            kwargs = {'num_block': nb, 'num_iter': n}
            if perm is not None:
                kwargs['ind_block'] = np.array(perm)
            yield recon_case('%s %d angles %d subsets%s %d iterations' % (alg, dt, nb, ' permuted' if perm else '', n), alg, g, ref,
                             kwargs=kwargs, refkw={'num_iter': n, 'blocks': bl}, init=init, data=data, ncore=dy, **kw)
    g = Geo('s', S.angles(5), 4, dy=2, center=[1.7, 2.3], blocks=S.prange(5, 2))
    yield recon_case('%s centre per slice' % alg, alg, g, ref, kwargs={'num_block': 2}, refkw={'blocks': S.prange(5, 2)}, init=init, data=data, **kw)
    g = Geo('s', S.angles(5), 5, nx=4, ny=6, blocks=S.prange(5, 2))
    yield recon_case('%s rectangular grid' % alg, alg, g, ref, kwargs={'num_block': 2}, refkw={'blocks': S.prange(5, 2)}, init=init, data=data, **kw)
