"""Failures, refusals and the state of the process around them."""
import importlib
import os
import numpy as np
import warnings
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close, settled
from . import _spec as S
from ._recon import fixed

LIBS = ()
BOUNDS = 'up to 5 slices on up to 4 workers, every subset of them failing (the values that make them fail are symbolic), both orders of completion; every whole-number parameter from -3 to 190'
OUTSIDE = 'crashes of the interpreter; failures inside the C code; calls of the library from several threads at once; device selection'
ASSUMPTIONS = ['workers of a pool run one after another in one of two orders']
VAR = 'TOMOPY_PYTHON_THREADS'


def attempt(f, *a, **kw):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return 'done', f(*a, **kw)
    except Exception as e:
        return type(e).__name__, str(e)


class Boom(Exception):
    pass


def faulty(tomo, center, recon, theta, seen=None, faults=True, **kw):
    seen.append((os.environ.get(VAR), tomo.shape[0]))
    for s in range(tomo.shape[0]):
        if faults and tomo[s, 0, 0] > 0.5:
            raise Boom('slice')
        recon[s, :, :] = tomo[s].sum() + center[s]


def reconstruction(name, dy, ncore, nchunk, limit, order):
    shape = (2, dy, 3)
    ins = {'a': Sym(shape, 'f4', 0, 1, base=np.full(shape, 0.25), free=[(0, s, 0) for s in range(dy)])}

    def impl(tp, X):
        was = X['a'].copy()
        if limit is None:
            os.environ.pop(VAR, None)
        else:
            os.environ[VAR] = limit
        env = dict(os.environ)
        seen = []
        try:
            kw = dict(center=1.5, ncore=ncore, nchunk=nchunk)
            one = attempt(tp.recon, X['a'], np.array([0.1, 0.9]), algorithm=faulty, seen=seen, **kw)
            left = {k: (env.get(k), os.environ.get(k)) for k in set(env) | set(os.environ) if env.get(k) != os.environ.get(k)}
            two = attempt(tp.recon, X['a'], np.array([0.1, 0.9]), algorithm=faulty, seen=[], faults=False, **kw)
            again = {k: (env.get(k), os.environ.get(k)) for k in set(env) | set(os.environ) if env.get(k) != os.environ.get(k)}
        finally:
            os.environ.pop(VAR, None)
        return one, two, left, again, sorted({e for e, _ in seen}, key=str), X['a'], was

    def check(X, R):
        one, two, left, again, seen, a, was = R
        A = S.plain(X['a'])
        bad = False
        for s in range(dy):
            bad = T.or_(bad, T.lt(0.5, sc(A[0, s, 0])))
        yield ('a failing slice reaches the caller', bad if one[0] != 'done' else T.not_(bad))
        yield ('the failure is the one of the slice', one[0] in ('done', 'Boom'))
        yield ('the environment is as before', left == {})
        yield ('the next call works', two[0] == 'done')
        yield ('the environment is as before the next call', again == {})
        pieces = dy if nchunk is None else -(-dy // nchunk)
        n = min(ncore, dy, pieces)
        if limit is not None:
            n = min(n, int(limit))
        yield ('workers told to the algorithm', seen == [str(n)])
        for got in [one, two]:
            if got[0] == 'done':
                Y = S.plain(got[1])
                for s in range(dy):
                    v = 1.5
                    for m in range(2):
                        for j in range(3):
                            v = T.add(v, sc(A[m, s, j]))
                    for ix in np.ndindex(3, 3):
                        yield ('value', close(sc(Y[(s,) + ix]), v, 1e-5))
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('reconstruction ' + name, ins, impl, check, funcs=['tomopy.recon.algorithm.recon', 'tomopy.recon.algorithm._dist_recon'], order=order, forks=True, max_paths=2000,
                bounds='%d slices, %s workers, pieces of %s, limit %s' % (dy, ncore, nchunk, limit), timeout=100)


def job(a, kwarg=0, faults=True):
    for s in range(a.shape[0]):
        if faults and a[s, 0] > 0.5:
            raise Boom('job')
        a[s] = a[s] * 2


def jobs(name, n, ncore, nchunk, order):
    ins = {'a': Sym((n, 2), 'f4', 0, 1, base=np.full((n, 2), 0.25), free=[(s, 0) for s in range(n)])}

    def impl(tp, X):
        m = tp.util.mproc
        was = X['a'].copy()
        one = attempt(m.distribute_jobs, X['a'], job, 0, ncore=ncore, nchunk=nchunk)
        two = attempt(m.distribute_jobs, X['a'], job, 0, kwargs={'faults': False}, ncore=ncore, nchunk=nchunk)
        return one, two, X['a'], was

    def check(X, R):
        one, two, a, was = R
        A = S.plain(X['a'])
        bad = False
        for s in range(n):
            bad = T.or_(bad, T.lt(0.5, sc(A[s, 0])))
        yield ('a failing piece reaches the caller', bad if one[0] != 'done' else T.not_(bad))
        yield ('the failure is the one of the piece', one[0] in ('done', 'Boom'))
        yield ('the next call works', two[0] == 'done')
        for got in [one, two]:
            if got[0] == 'done':
                for ix in np.ndindex(n, 2):
                    yield ('value', close(sc(S.plain(got[1])[ix]), T.mul(2.0, sc(A[ix])), 1e-6))
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('jobs ' + name, ins, impl, check, funcs=['tomopy.util.mproc.distribute_jobs'], order=order, forks=True, max_paths=2000, bounds='%d pieces' % n)


# ------------------------------------------------------------- threads of the expression engine
def engine(name, call, fails):
    """call(tp, a) with an array of projections; the engine keeps its number of threads either way."""
    ins = {'a': Sym((2, 3, 3), 'f4', 0.5, 2, base=np.full((2, 3, 3), 1.25), free=[(0, 1, 1)])}

    def impl(tp, X):
        ne = tp.util.mproc.ne
        first = ne.set_num_threads(5)
        try:
            got = attempt(call, tp, X['a'])
        finally:
            after = ne.set_num_threads(first)
        return got[0], after

    def check(X, R):
        yield ('refused' if fails else 'accepted', (R[0] != 'done') == fails)
        yield ('number of threads', R[1] == 5)
    return Case('threads after ' + name, ins, impl, check, funcs=['tomopy.util.mproc.set_numexpr_threads'], bounds='2 x 3 x 3')


# ------------------------------------------------------------------------------------ refusals
def refused(name, call, shape=(2, 3, 4), dt='f4', error='ValueError', times=2, lo=0.25, hi=2):
    """call(tp, a) is refused, whatever the data are, each time in the same words, and changes nothing."""
    ins = {'a': Sym(shape, dt, lo, hi)}

    def impl(tp, X):
        was = X['a'].copy()
        env = dict(os.environ)
        got = [attempt(call, tp, X['a']) for _ in range(times)]
        return [g[0] for g in got], [str(g[1]) for g in got], env == dict(os.environ), X['a'], was

    def check(X, R):
        kinds, words, env, a, was = R
        yield ('refused', kinds == [error] * times)
        yield ('in the same words', len(set(words)) == 1)
        yield ('the environment is as before', env)
        yield from arrays_close('input unchanged', a, was, 0)
    return Case('refused: ' + name, ins, impl, check, bounds=str(shape))


class recorded:
    """Stand-in for a function of the C library."""
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.m = importlib.import_module('tomopy.util.extern')
        self.was = getattr(self.m, self.name)
        self.calls = []
        setattr(self.m, self.name, lambda *a, **k: self.calls.append(1))
        return self

    def __exit__(self, *a):
        setattr(self.m, self.name, self.was)


def limits(name, cname, call, params, legal):
    """The whole-number parameters are refused exactly outside of their range."""
    ins = {k: SymScalar('i8', lo, hi) for k, (lo, hi) in params.items()}

    def impl(tp, X):
        with recorded(cname) as r:
            got = attempt(call, tp, {k: X[k] for k in params})
        return got[0], len(r.calls)

    def check(X, R):
        ok = True
        for c in legal({k: sc(X[k]) for k in params}):
            ok = T.and_(ok, c)
        yield ('an exception is a refusal', R[0] in ('done', 'ValueError'))
        yield ('refused outside of the range only', ok if R[0] == 'done' else T.not_(ok))
        yield ('nothing is computed when refused', (R[1] > 0) == (R[0] == 'done'))
    return Case('limits: ' + name, ins, impl, check, forks=True, max_paths=3000, bounds=str(params))


def cases(tier):
    for order in ('fifo', 'lifo'):
        yield reconstruction('one worker, %s' % order, 3, 1, None, None, order)
        yield reconstruction('worker per slice, %s' % order, 4, 4, None, None, order)
        yield reconstruction('more workers than slices, %s' % order, 2, 4, None, None, order)
        yield reconstruction('uneven pieces, %s' % order, 5, 2, None, None, order)
        yield reconstruction('small pieces, %s' % order, 4, 2, 1, None, order)
        yield reconstruction('large pieces, %s' % order, 3, 3, 2, None, order)
        yield reconstruction('limited to two, %s' % order, 4, 3, None, '2', order)
        yield reconstruction('limited to one, %s' % order, 3, 3, None, '1', order)
        yield reconstruction('limit not reached, %s' % order, 3, 2, None, '7', order)
        yield jobs('one worker, %s' % order, 3, 1, None, order)
        yield jobs('two workers, %s' % order, 4, 2, None, order)
        yield jobs('small pieces, %s' % order, 3, 2, 1, order)
    one = np.ones((1, 3, 3), 'f4')
    odd = np.ones((1, 3, 2), 'f4')
    yield engine('normalisation', lambda tp, a: tp.normalize(a, 2 * one, 0 * one, ncore=2), False)
    yield engine('refused normalisation', lambda tp, a: tp.normalize(a, 2 * odd, 0 * odd, ncore=2), True)
    yield engine('normalisation with flats in between', lambda tp, a: tp.normalize_nf(a, 2 * one, 0 * one, [0], ncore=2), False)
    yield engine('refused normalisation with flats in between', lambda tp, a: tp.normalize_nf(a, 2 * odd, 0 * one, [0], ncore=2), True)
    yield engine('logarithm', lambda tp, a: tp.minus_log(a, ncore=2), False)
    yield engine('refused logarithm', lambda tp, a: tp.minus_log(a, ncore=2, out=np.ones((2, 2, 3), 'f4')), True)
    yield engine('range', lambda tp, a: tp.adjust_range(a, 0.6, 1.5), False)
    yield engine('outliers', lambda tp, a: tp.remove_outlier(a, 0.3, ncore=2), False)
    yield engine('refused outliers', lambda tp, a: tp.remove_outlier(a, 0.3, ncore=2, out=np.ones((2, 2, 3), 'f4')), True)
    yield engine('replacement of negative values', lambda tp, a: tp.remove_neg(a, ncore=2), False)
    th = np.array([0.1, 0.8])
    yield refused('unknown algorithm', lambda tp, a: tp.recon(a, th, algorithm='sart'))
    yield refused('no algorithm', lambda tp, a: tp.recon(a, th))
    yield refused('number as algorithm', lambda tp, a: tp.recon(a, th, algorithm=3))
    for alg in ('gridrec', 'fbp'):
        yield refused('unknown argument of ' + alg, lambda tp, a, alg=alg: tp.recon(a, th, algorithm=alg, num_iter=2))
    for alg in ('art', 'bart', 'mlem', 'osem', 'ospml_hybrid', 'ospml_quad', 'pml_hybrid', 'pml_quad', 'sirt', 'tv', 'grad', 'tikh'):
        yield refused('unknown argument of ' + alg, lambda tp, a, alg=alg: tp.recon(a, th, algorithm=alg, filter_name='hann'), times=3)
    yield refused('regularisation of art', lambda tp, a: tp.recon(a, th, algorithm='art', reg_par=0.1))
    yield refused('blocks of mlem', lambda tp, a: tp.recon(a, th, algorithm='mlem', num_block=2), times=3)
    yield refused('too few angles', lambda tp, a: tp.recon(a, th[:1], algorithm='fbp'))
    yield refused('too many angles', lambda tp, a: tp.recon(a, np.ones(3), algorithm='art'))
    yield refused('angles of the other order', lambda tp, a: tp.recon(a, np.ones(2), algorithm='gridrec', sinogram_order=True))
    yield refused('too few centres', lambda tp, a: tp.recon(a, th, center=np.ones(2), algorithm='fbp'))
    yield refused('too many centres', lambda tp, a: tp.recon(a, th, center=np.ones(4), algorithm='mlem'))
    yield refused('unknown averaging', lambda tp, a: tp.normalize(a, one, one, averaging='mode'))
    yield refused('unknown averaging with flats in between', lambda tp, a: tp.normalize_nf(a, one, one, [0], averaging='mode'))
    yield refused('unknown padding', lambda tp, a: tp.pad(a, 2, npad=1, mode='wrap'))
    yield refused('argument of edge padding', lambda tp, a: tp.pad(a, 2, npad=1, mode='edge', constant_values=2))
    yield refused('unknown argument of constant padding', lambda tp, a: tp.pad(a, 2, npad=1, mode='constant', value=2))
    yield refused('padding by a number', lambda tp, a: tp.pad(a, 2, npad=1, mode=3))
    yield refused('unknown boundary of rings', lambda tp, a: tp.remove_ring(a, int_mode='mirror'))
    m3 = np.zeros((2, 3, 4), bool)
    yield refused('mask of numbers', lambda tp, a: tp.inpainter_morph(a, m3.astype('u1')))
    yield refused('unknown inpainting', lambda tp, a: tp.inpainter_morph(a, m3, inpainting_type='mode'))
    yield refused('axis of an image', lambda tp, a: tp.inpainter_morph(a, np.zeros((3, 4), bool), axis=0), shape=(3, 4))
    for n, f in (('median', lambda tp, a: tp.median_filter3d(a)), ('dezinger', lambda tp, a: tp.remove_outlier3d(a, 0.5)),
                 ('stripe detection', lambda tp, a: tp.stripes_detect3d(a, 1, 1)), ('stripe mask', lambda tp, a: tp.stripes_mask3d(a, 0.5, 1, 1, 1))):
        yield refused('%s of an image' % n, f, shape=(3, 4))
        yield refused('%s of whole numbers in an image' % n, f, shape=(3, 4), dt='u2', lo=0, hi=9)
        for sh in ((0, 3, 4), (3, 0, 4), (3, 4, 0)):
            yield refused('%s of nothing %s' % (n, sh), f, shape=sh)
    yield refused('inpainting of nothing', lambda tp, a: tp.inpainter_morph(a, np.zeros((2, 0, 3), bool)), shape=(2, 0, 3))
    yield refused('inpainting of an empty image', lambda tp, a: tp.inpainter_morph(a, np.zeros((0, 3), bool)), shape=(0, 3))
    v = np.ones((5, 6, 7), 'f4')
    yield limits('size of stripe detection', 'c_stripes_detect3d', lambda tp, p: tp.stripes_detect3d(v.copy(), p['size'], 1), {'size': (-3, 9)},
                 lambda p: [T.lt(0, p['size']), T.le(p['size'], 2)])
    yield limits('stripe mask', 'c_stripesmask3d', lambda tp, p: tp.stripes_mask3d(v.copy(), 0.5, p['length'], p['depth'], p['width']), {'length': (-3, 9), 'depth': (-3, 9), 'width': (-3, 9)},
                 lambda p: [T.lt(0, p['length']), T.lt(p['length'], 5), T.le(0, p['depth']), T.lt(p['depth'], 6), T.lt(0, p['width']), T.lt(p['width'], 7)])
    yield limits('sensitivity of the stripe mask', 'c_stripesmask3d', lambda tp, p: tp.stripes_mask3d(v.copy(), 0.5, 2, 1, 1, p['percent']), {'percent': (-3, 190)},
                 lambda p: [T.lt(0, p['percent']), T.le(p['percent'], 100)])
    yield limits('angle of rings', 'c_remove_ring', lambda tp, p: tp.remove_ring(v.copy(), theta_min=p['angle'], ncore=1), {'angle': (-3, 190)},
                 lambda p: [T.le(0, p['angle']), T.lt(p['angle'], 180)])
    yield limits('axis of inpainting', 'c_inpainter', lambda tp, p: tp.inpainter_morph(v.copy(), np.zeros(v.shape, bool), axis=p['axis']), {'axis': (-3, 9)},
                 lambda p: [T.le(0, p['axis']), T.le(p['axis'], 2)])
