"""A reconstruction does not depend on how the work is cut, ordered or handed over."""
import numpy as np
from symt.harness import Sym, Case, close, sc, arrays_close
from . import _spec as S
from ._recon import fixed

LIBS = ('recon', 'gridrec')
BOUNDS = 'up to 5 slices (19 for three rows of every method), 4 angles, 4 bins, up to 2 iterations; every measured value symbolic, fixed start images and rotation centres that differ per slice; chunk sizes 1 to 7, 1 to 12 workers, tasks run in submission order, in reverse and interleaved'
OUTSIDE = 'larger sizes; data races between native threads (tasks are run one after the other in any order)'
ASSUMPTIONS = ['operations on symbolic values are over the reals', 'tasks handed to the executor run to completion one after another in the given order']

ALGS = {
    'fbp': {}, 'art': {'num_iter': 2}, 'bart': {'num_block': 2, 'ind_block': [2, 0, 3, 1]}, 'sirt': {'num_iter': 2}, 'mlem': {}, 'osem': {'num_block': 2, 'ind_block': [2, 0, 3, 1]},
    'pml_quad': {'reg_par': [0.4]}, 'pml_hybrid': {'reg_par': [0.4, 0.7]}, 'ospml_quad': {'reg_par': [0.4], 'num_block': 2}, 'ospml_hybrid': {'reg_par': [0.4, 0.7], 'num_block': 2, 'ind_block': [3, 1, 0, 2]},
    'grad': {'reg_par': [0.05], 'num_iter': 2}, 'tikh': {'reg_par': [0.05, 0.3]}, 'tv': {'reg_par': [0.4]}, 'gridrec': {'filter_name': 'hann', 'filter_par': [0.4]},
}
CENTERS = [1.63, 2.31, 2.31, 2.72, 1.9]


def conf(alg, dy, n=4, nx=None, ny=None):
    r = np.random.RandomState(11)
    nx, ny = nx or n, ny or n
    kw = dict(ALGS[alg])
    if alg == 'tikh':
        kw['reg_data'] = r.uniform(0.2, 1.5, (dy, nx, ny)).astype('f4')
    if (nx, ny) != (n, n):
        kw['num_gridx'], kw['num_gridy'] = nx, ny
    init = r.uniform(0.5, 2.0, (dy, nx, ny)).astype('f4')
    return kw, init


def kwcopy(kw, slc=None):
    out = {}
    for k, v in kw.items():
        if k == 'reg_data' and slc is not None:
            v = v[slc]
        out[k] = v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v
    return out


def tomo_of(alg, dy, theta, n):
    if dy > 5:
        f = [(k % len(theta), k, k % n) for k in (0, 1, dy // 3, dy // 2, dy - 2, dy - 1)]
        return Sym((len(theta), dy, n), 'f4', 0.25, 1.0, free=f, base=np.random.RandomState(3).uniform(0.25, 1.0, (len(theta), dy, n)).astype('f4'))
    return Sym((len(theta), dy, n), 'f4', 0.25, 1.0)


def invariant(name, alg, dy, variants, theta=None, n=4, order='fifo', nx=None, ny=None, cpus=None, default_center=False, default_init=False, kwover=None):
    """Each variant (keywords of recon) has to agree with the slices done one at a time."""
    theta = S.angles(4) if theta is None else theta
    kw, init = conf(alg, dy, n, nx, ny)
    kw.update(kwover or {})
    cs = (CENTERS * dy)[:dy]

    def impl(tp, X):
        out = []
        t = X['tomo']
        for v in [None] + variants:
            def one(t, slc, **k):
                c = None if default_center else np.array(cs[slc], 'f4')
                i = None if default_init else X['init'][slc].copy()
                return tp.recon(t.copy(), theta.copy(), center=c, algorithm=alg, init_recon=i, **k, **kwcopy(kw, slc))
            if v is None:
                out.append(np.concatenate([one(t[:, s:s + 1], slice(s, s + 1), ncore=1) for s in range(dy)], axis=0))
            else:
                v = dict(v)
                tt = np.swapaxes(t, 0, 1) if v.get('sinogram_order') else t
                out.append(one(tt, slice(0, dy), **v))
        return out

    def check(X, Y):
        for v, y in zip(variants, Y[1:]):
            yield from arrays_close('%s %s' % (alg, v), y, Y[0], 2e-4)

    return Case(name, {'tomo': tomo_of(alg, dy, theta, n), 'init': fixed(init)}, impl, check, order=order, cpus=cpus, timeout=120,
                funcs=['tomopy.recon.algorithm.recon', 'tomopy.recon.algorithm._dist_recon', 'tomopy.util.mproc.get_ncore_slices', 'tomopy.util.extern.c_' + alg],
                bounds='%d slices, %d angles, %d bins' % (dy, len(theta), n))


def forms(name, alg, dy=2):
    """Equivalent ways to hand over the same angles, centres and options."""
    theta = S.angles(4)
    kw, init = conf(alg, dy)

    def impl(tp, X):
        t = X['tomo']
        out = []
        def run(th, c, k):
            out.append(tp.recon(t.copy(), th, center=c, algorithm=alg, init_recon=X['init'].copy(), ncore=1, **k))
        c = 2.25
        run(theta.copy(), c, kwcopy(kw))
        run([float(v) for v in theta], [c] * dy, kwcopy(kw))
        run(theta.astype('f8'), np.array([c] * dy), {k: (np.array(v) if isinstance(v, list) else v) for k, v in kwcopy(kw).items()})
        run(tuple(float(v) for v in theta), np.float32(c), kwcopy(kw))
        run(theta.copy(), np.array(c), {k: (np.array(v, 'f8') if k == 'reg_par' else v) for k, v in kwcopy(kw).items()})
        return out

    def check(X, Y):
        for i, y in enumerate(Y[1:]):
            yield from arrays_close('%s form %d' % (alg, i + 1), y, Y[0], 2e-4)

    return Case(name, {'tomo': tomo_of(alg, dy, theta, 4), 'init': fixed(init)}, impl, check, funcs=['tomopy.recon.algorithm.recon', 'tomopy.sim.project.get_center'], bounds='%d slices' % dy)


def user(name, dy, nchunk, ncore, order='fifo'):
    """A user-supplied method is handed every slice exactly once, with its own data, centre and output."""
    theta = S.angles(3)

    def impl(tp, X):
        seen = []

        def mine(tomo, center, recon, th, **kw):
            seen.append((tuple(tomo.shape), tuple(np.shape(center)), tuple(recon.shape), len(th), kw['num_gridx'], kw['num_gridy']))
            for i in range(recon.shape[0]):
                for p in range(3):
                    recon[i, 0, 0] = recon[i, 0, 0] + tomo[i, p, p] * center[i]
                recon[i, 1, 1] = tomo[i, 2, 0] + th[1]
        Y = tp.recon(X['tomo'], theta.copy(), center=np.array(CENTERS[:dy], 'f4'), algorithm=mine, init_recon=X['init'], ncore=ncore, nchunk=nchunk)
        return Y, sorted(seen)

    def check(X, R):
        Y, seen = R
        t, x0, y = S.plain(X['tomo']), S.plain(X['init']), S.plain(Y)
        yield ('every slice handed over once', sum(s[0][0] for s in seen) == dy and sum(s[2][0] for s in seen) == dy)
        yield ('arguments', all(s[0][1:] == (3, 4) and s[2][1:] == (4, 4) and s[3] == 3 and int(s[4]) == 4 and int(s[5]) == 4 for s in seen))
        for s in range(dy):
            for ix in np.ndindex(4, 4):
                w = sc(x0[(s,) + ix])
                if ix == (0, 0):
                    for p in range(3):
                        w = w + t[p, s, p] * float(np.float32(CENTERS[s]))
                if ix == (1, 1):
                    w = t[2, s, 0] + float(theta[1])
                yield ('user method slice %d %s' % (s, list(ix)), close(sc(y[(s,) + ix]), sc(w), 1e-4))

    return Case(name, {'tomo': Sym((3, dy, 4), 'f4', -1, 1), 'init': Sym((dy, 4, 4), 'f4', -1, 1)}, impl, check, order=order, funcs=['tomopy.recon.algorithm.recon', 'tomopy.recon.algorithm._dist_recon'],
                bounds='%d slices, chunk %s, %d workers' % (dy, nchunk, ncore))


def cases(tier):
    for alg in ALGS:
        yield invariant(alg + ': chunks and workers', alg, 3, [dict(ncore=1, nchunk=2), dict(ncore=2), dict(ncore=3, nchunk=1)])
        yield invariant(alg + ': reverse order, sinogram order', alg, 3, [dict(ncore=2, nchunk=1, sinogram_order=True), dict(ncore=2)], order='lifo')
        yield invariant(alg + ': defaults', alg, 2, [dict(), dict(nchunk=5, ncore=12)], default_center=True, default_init=alg != 'gridrec')
        yield invariant(alg + ': rectangular grid', alg, 3, [dict(ncore=2)], nx=3, ny=5)
        yield forms(alg + ': forms of the arguments', alg)
    for alg in ('sirt', 'osem', 'art', 'fbp', 'gridrec', 'tikh', 'grad'):
        yield invariant(alg + ': five slices', alg, 5, [dict(ncore=3), dict(ncore=2), dict(ncore=4), dict(ncore=1, nchunk=3), dict(ncore=12, nchunk=4)], n=3, order='lifo')
        yield invariant(alg + ': one slice', alg, 1, [dict(ncore=3), dict(nchunk=1), dict(nchunk=7)], n=3)
    for alg in ALGS:
        yield invariant(alg + ': many slices', alg, 19, [dict(), dict(ncore=4), dict(ncore=16), dict(ncore=3, nchunk=8), dict(ncore=2, nchunk=9)], n=3, order='lifo', cpus=13, theta=S.angles(2 if 'bart' not in alg and 'os' not in alg else 4))
    for alg, rp in (('grad', [-1.0]), ('tikh', [-1.0, 0.3])):
        yield invariant(alg + ': adaptive steps', alg, 2, [dict(ncore=1), dict(ncore=2)], kwover={'reg_par': rp, 'num_iter': 2}, n=3)
    for dy, nchunk, ncore, order in ((3, None, 1, 'fifo'), (3, 2, 2, 'lifo'), (5, None, 2, 'lifo'), (5, 2, 1, 'fifo'), (4, 1, 3, 'lifo'), (2, 9, 4, 'fifo'), (5, None, 3, 'fifo')):
        yield user('user method %d slices chunk %s workers %d' % (dy, nchunk, ncore), dy, nchunk, ncore, order)
    if tier == 'thorough':
        for alg in ALGS:
            for nchunk in (None, 1, 2, 3, 4, 6):
                for ncore in (1, 2, 3, 5, 8):
                    yield invariant('%s: 5 slices chunk %s workers %d' % (alg, nchunk, ncore), alg, 5, [dict(ncore=ncore, nchunk=nchunk)], n=3, order='lifo' if ncore % 2 else 'fifo')
