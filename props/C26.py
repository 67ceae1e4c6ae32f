"""Parallel loops of the C filters and the thread pools of the Python layer."""
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, arrays_close, sc

OMP = True
LIBS = ('prep', 'misc', 'recon', 'gridrec')
BOUNDS = 'volumes up to 5 x 4 x 5 and images up to 5 x 5 of every shape (symbolic whole numbers), symbolic data, sizes, radii and masks; every pair of iterations of every parallel loop, that is any number of threads and any schedule; reconstructions by every algorithm of 1 to 3 slices of 2 to 4 pixels and the thread-pool filters on up to 4 slices, every pair of tasks of the pool'
OUTSIDE = 'larger volumes; the values of the random inpainting method, which draws from one generator (its memory accesses are covered, for a fixed sequence of draws); the OpenMP runtime itself; calls of the library from several Python threads at once; what numpy, scipy and FFTW do inside of a task beyond the elements they leave changed and the planner they share'
ASSUMPTIONS = ['iterations without conflicting accesses between two barriers give the same result in every schedule', 'a conflict counts when the two accesses are not both reads']


def par(name, call, sizes, shapes, legal=None, lo=0.25, hi=2.0, dt='f4', free=None, funcs=(), max_paths=3000, timeout=200):
    """call(tp, arrays, n, ncore) with one and with several threads."""
    big = shapes({k: v[1] for k, v in sizes.items()})
    ins = {k: SymScalar('i8', a, b) for k, (a, b) in sizes.items()}
    for i, s in enumerate(big):
        base = np.random.RandomState(5 + i).uniform(lo, hi, s)
        ins['a%d' % i] = Sym(s, dt, lo, hi, base=base.astype(dt), free=free)

    def impl(tp, X):
        n = {k: int(X[k]) for k in sizes}
        A = [X['a%d' % i][tuple(slice(0, q) for q in s)].copy() for i, s in enumerate(shapes(n))]
        return [call(tp, [a.copy() for a in A], n, c) for c in (1, 6)]

    def check(X, R):
        yield from arrays_close('one and several threads agree', R[1], R[0], 0, 0)

    def assume(X):
        return list(legal({k: sc(X[k]) for k in sizes})) if legal else []
    return Case(name, ins, impl, check, assume=assume, funcs=list(funcs), max_paths=max_paths, timeout=timeout, forks=True, bounds=str(sizes))


def cases(tier):
    T3 = lambda n: [(n['dt'], n['dy'], n['dx'])]
    vol = dict(dt=(1, 4), dy=(1, 4), dx=(1, 4))
    M = ['medianfilter_main_float']
    yield par('median filter', lambda tp, A, n, c: tp.median_filter3d(A[0], size=n['size'], ncore=c), dict(vol, size=(1, 4)), T3, free=[], funcs=M)
    yield par('median filter, any data', lambda tp, A, n, c: tp.median_filter3d(A[0], size=3, ncore=c), dict(dt=(2, 2), dy=(1, 1), dx=(1, 2)), T3, funcs=M)
    yield par('median filter of short numbers', lambda tp, A, n, c: tp.median_filter3d(A[0], size=n['size'], ncore=c), dict(vol, size=(1, 4)), T3, dt='u2', lo=0, hi=9, free=[], funcs=['medianfilter_main_uint16'])
    yield par('dezinger', lambda tp, A, n, c: tp.remove_outlier3d(A[0], 0.4, size=n['size'], ncore=c), dict(vol, size=(1, 4)), T3, free=[], funcs=M)
    for ty in ('mean', 'median', 'random'):
        rnd = ty == 'random'
        for d3 in (0, 1):
            def inp(tp, A, n, c, ty=ty, rnd=rnd):
                m = np.zeros(A[0].shape, bool)
                for q in range(2 if rnd else n['m'] % 3 + 1):
                    m.flat[(n['m'] * (q + 2) + 5 * q) % m.size] = True
                r = tp.inpainter_morph(A[0], m, size=n['size'], iterations=n['it'], inpainting_type=ty, ncore=c)
                return np.zeros(r.shape, 'f4') if rnd else r        # the values drawn depend on the order
            k = dict(m=(0, 3), size=(1, 2), it=(0, 1)) if rnd else dict(m=(0, 4), size=(1, 2), it=(0, 2))
            yield par('inpainting %dD, %s' % (2 + d3, ty), inp, dict(dt=(1, 4), dx=(1, 4), **k) if not d3 else dict(dt=(2, 3), dy=(2, 2), dx=(1, 3), **k), (lambda n: [(n['dt'], n['dx'])]) if not d3 else T3, free=[], funcs=['Inpainter_morph_main'])
    yield par('stripe detection', lambda tp, A, n, c: tp.stripes_detect3d(A[0], size=n['size'], radius=n['radius'], ncore=c), dict(dt=(2, 5), dy=(1, 3), dx=(1, 4), size=(1, 2), radius=(1, 3)), T3,
              legal=lambda n: [T.le(T.mul(2, n['size']), n['dt'])], free=[], funcs=['stripesdetect3d_main_float'])
    yield par('stripe mask', lambda tp, A, n, c: tp.stripes_mask3d(A[0], 0.9, n['len'], n['dep'], n['wid'], ncore=c), dict(dt=(2, 4), dy=(1, 3), dx=(2, 4), len=(1, 3), dep=(0, 2), wid=(1, 3)), T3,
              legal=lambda n: [T.lt(n['len'], n['dt']), T.lt(n['dep'], n['dy']), T.lt(n['wid'], n['dx'])], free=[], funcs=['stripesmask3d_main_float'])
    yield from pools()


ALGS = {'art': {}, 'mlem': {}, 'sirt': {}, 'osem': {'num_block': 2}, 'bart': {'num_block': 2}, 'pml_hybrid': {'reg_par': [0.1, 0.2]}, 'pml_quad': {'reg_par': [0.1]},
        'ospml_hybrid': {'num_block': 2, 'reg_par': [0.1, 0.2]}, 'ospml_quad': {'num_block': 2, 'reg_par': [0.1]}, 'tv': {'reg_par': [0.1]}, 'grad': {'reg_par': [0.1]},
        'tikh': {'reg_par': [0.1, 0.2]}, 'fbp': {'filter_name': 'ramlak'}, 'gridrec': {'filter_name': 'parzen'}}


def pools():
    """Work split between the threads of a pool: no two tasks may touch the same memory."""
    shape = lambda n: [(n['dy'], n['dt'], n['dx'])]
    for alg, k in ALGS.items():
        def rec(tp, A, n, c, alg=alg, k=k):
            k = dict(k)
            if alg not in ('fbp', 'gridrec'):
                k['num_iter'] = 2
            if 'reg_par' in k:
                k['reg_par'] = np.array(k['reg_par'], 'f4')
            th = np.linspace(0.1, 3.0, n['dt']).astype('f4')
            return tp.recon(A[0], th, (n['dx'] - 0.3) / 2, sinogram_order=True, algorithm=alg, ncore=c, nchunk=1, **k)
        yield par('reconstruction, ' + alg, rec, dict(dy=(1, 3), dt=(2, 2), dx=(2, 3)), shape, free=[], funcs=['tomopy.recon.algorithm._dist_recon', alg])

    def chunks(tp, A, n, c):
        return tp.recon(A[0], np.linspace(0.1, 3.0, n['dt']).astype('f4'), 0.9, sinogram_order=False, algorithm='sirt', num_iter=2, ncore=c, nchunk=n['chunk'],
                        init_recon=np.full((A[0].shape[1], 2, 2), 0.5, 'f4'))
    yield par('reconstruction in chunks', chunks, dict(dy=(1, 4), dt=(2, 2), dx=(2, 2), chunk=(1, 4)), lambda n: [(n['dt'], n['dy'], n['dx'])], free=[], funcs=['tomopy.recon.algorithm._dist_recon', 'sirt'])
    vol = dict(dt=(1, 4), dy=(2, 3), dx=(2, 3), ax=(0, 2))
    T3 = lambda n: [(n['dt'], n['dy'], n['dx'])]
    F = 'tomopy.misc.corr.'
    yield par('gaussian filter', lambda tp, A, n, c: tp.gaussian_filter(A[0], sigma=1, axis=n['ax'], ncore=c), vol, T3, free=[], funcs=[F + 'gaussian_filter'])
    yield par('2-D median filter', lambda tp, A, n, c: tp.median_filter(A[0], size=3, axis=n['ax'], ncore=c), vol, T3, free=[], funcs=[F + 'median_filter'])
    yield par('sobel filter', lambda tp, A, n, c: tp.sobel_filter(A[0], axis=n['ax'], ncore=c), vol, T3, free=[], funcs=[F + 'sobel_filter'])
    yield par('2-D dezinger', lambda tp, A, n, c: tp.remove_outlier(A[0], 0.4, size=3, axis=n['ax'], ncore=c), vol, T3, free=[], funcs=[F + 'remove_outlier'])
    yield par('1-D dezinger', lambda tp, A, n, c: tp.remove_outlier1d(A[0], 0.4, size=3, axis=n['ax'], ncore=c), vol, T3, free=[], funcs=[F + 'remove_outlier1d'])
    yield par('ring removal', lambda tp, A, n, c: tp.remove_ring(A[0], center_x=1.6, center_y=2.2, rwidth=n['w'], int_mode=['WRAP', 'REFLECT'][n['mode']], ncore=c, nchunk=1), dict(dt=(1, 3), dy=(4, 5), dx=(4, 4), w=(1, 3), mode=(0, 1)), T3,
              free=[], funcs=['remove_ring'])
