"""Results depend on the values handed over, not on how they are stored; inputs stay as they are."""
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ('recon', 'gridrec', 'prep', 'misc')
BOUNDS = 'arrays of up to 2 x 4 x 4 values (all of them symbolic for the linear methods and for one iteration of the iterative ones, one symbolic value otherwise); six memory layouts, four other number types, lists instead of arrays'
OUTSIDE = 'larger arrays; more iterations; byte-swapped and masked arrays; start images and arrays the documentation says are changed'
ASSUMPTIONS = ['operations on symbolic values are over the reals']


class Arr:
    """An argument: symbolic between lo and hi, or fixed with some free elements."""
    def __init__(self, shape=None, lo=0.5, hi=4.0, base=None, free=None, dtype='f4', vary=True, ints=False):
        self.base = None if base is None else np.asarray(base)
        self.shape = tuple(shape) if self.base is None else self.base.shape
        self.free = free if base is not None or free is None else free
        if base is not None and free is None:
            self.free = []
        self.dtype = np.dtype(dtype)
        self.lo, self.hi = lo, hi
        self.vary = vary
        self.ints = ints


def grow(shape, kind):
    """Shape of the memory and the view of it that holds the argument."""
    n = len(shape)
    if kind == 'transposed':
        return shape[::-1], lambda x: x.T
    if kind == 'swapped':
        if n < 2:
            return shape, lambda x: x
        s = list(shape)
        s[-1], s[-2] = s[-2], s[-1]
        return tuple(s), lambda x: x.swapaxes(-1, -2)
    if kind == 'every second':
        return tuple(2 * k for k in shape), lambda x: x[(slice(None, None, 2),) * n]
    if kind == 'reversed':
        return shape, lambda x: x[(slice(None, None, -1),) * n]
    if kind == 'middle':
        return tuple(k + 2 for k in shape), lambda x: x[(slice(1, -1),) * n]
    return shape, lambda x: x


LAYOUTS = ('transposed', 'swapped', 'every second', 'reversed', 'middle')
TYPES = {'double': 'f8', 'half': 'f2', 'short': 'i2', 'unsigned': 'u2', 'long': 'i8'}


def argument(a, kind):
    mem, view = grow(a.shape, kind)
    where = view(np.arange(int(np.prod(mem))).reshape(mem))
    flat = {int(where[ix]): ix for ix in np.ndindex(*a.shape)}
    dt = np.dtype(TYPES[kind]) if kind in TYPES and a.dtype.kind == 'f' else a.dtype
    base = np.full(mem, 7, dt)
    free = []
    for ix in np.ndindex(*mem):
        src = flat.get(int(np.ravel_multi_index(ix, mem)))
        if src is None:
            continue
        if a.base is not None:
            base[ix] = a.base[src]
        if a.free is None or src in a.free:
            free.append(ix)
    lo, hi = (a.lo, a.hi) if dt.kind == 'f' else (math.ceil(a.lo), math.floor(a.hi))
    return Sym(mem, dt, lo, hi, base=base, free=free), view


def case(name, op, args, kind, funcs=(), tol=1e-4, rtol=2e-5, **kw):
    ins, views = {}, {}
    for n, a in args.items():
        ins[n], views[n] = argument(a, kind if a.vary else 'plain')

    def impl(tp, X):
        plain = {n: views[n](X[n]).copy('C').astype('f4' if args[n].dtype.kind == 'f' else args[n].dtype) for n in args}
        given = {n: views[n](X[n]) for n in args}
        whole = {n: X[n].copy('K') for n in args}
        if kind == 'list':
            given = {n: (v.tolist() if args[n].vary else v) for n, v in given.items()}
        want = op(tp, plain)
        got = op(tp, given)
        wrap = lambda r: tuple(r) if isinstance(r, (tuple, list)) else (r,)
        return wrap(got), wrap(want), X, whole

    def check(X, R):
        got, want, after, before = R
        yield ('number of results', len(got) == len(want))
        for k, (g, w) in enumerate(zip(got, want)):
            if kind not in TYPES:
                yield ('type of the result', g.dtype == w.dtype)
            yield from arrays_close('result %d' % k, g, w, tol, rtol)
        for n in args:
            yield from arrays_close('argument %s unchanged' % n, after[n], before[n], 0)
    return Case('%s: %s' % (name, kind), ins, impl, check, funcs=funcs, bounds=str({n: a.shape for n, a in args.items()}), **kw)


TH = np.array([0.35, 1.3, 2.2], 'f4')
CE = np.array([1.5171, 1.6513], 'f4')


def recon_op(alg, **kw):
    def op(tp, A):
        k = dict(kw)
        for n in ('ind_block', 'filter_par', 'reg_par', 'reg_data'):
            if n in A:
                k[n] = A[n]
        if 'init' in A:
            k['init_recon'] = A['init'].copy('K')
        return tp.recon(A['tomo'], A['theta'], A['center'], algorithm=alg, ncore=1, **k)
    return op


def recon_args(n=3, **kw):
    d = dict(tomo=Arr((3, 2, n)), theta=Arr(base=TH), center=Arr(base=CE if n == 3 else CE + 0.5 * (n - 3)))
    d.update(kw)
    return d


def start(n=3):
    return Arr(base=(0.5 + np.random.RandomState(5).rand(2, n, n)).astype('f4'))


def ops():
    """(name, operation, arguments, other ways to hand them over, functions)"""
    from .C16 import sino
    order = Arr(base=np.array([2, 0, 1]), dtype='i4')
    R = ['tomopy.recon.algorithm.recon']
    all_ = LAYOUTS + ('double', 'short')
    for a in ('art', 'fbp', 'sirt', 'mlem', 'gridrec'):
        x = recon_args(6 if a == 'gridrec' else 3)
        yield 'recon ' + a, recon_op(a), x, all_ + ('unsigned', 'long', 'half') if a == 'sirt' else all_, R + ['c_' + a], {}
    for a in ('bart', 'osem'):
        yield 'recon ' + a, recon_op(a, num_block=3), recon_args(ind_block=order), all_, R + [a], {}
    for a in ('ospml_quad', 'ospml_hybrid'):
        p = np.array([0.3, 0.7] if a == 'ospml_hybrid' else [0.3], 'f4')
        yield 'recon ' + a, recon_op(a, num_block=3), recon_args(ind_block=order, reg_par=Arr(base=p), init=start()), LAYOUTS + ('double',), R + [a], {}
    yield 'recon pml_quad', recon_op('pml_quad'), recon_args(reg_par=Arr(base=np.array([0.3], 'f4')), init=start()), LAYOUTS, R + ['pml_quad'], {}
    yield 'recon pml_hybrid', recon_op('pml_hybrid'), recon_args(reg_par=Arr(base=np.array([0.3, 0.6], 'f4')), init=start()), LAYOUTS, R + ['pml_hybrid'], {}
    for a in ('grad', 'tv'):
        yield 'recon ' + a, recon_op(a), recon_args(reg_par=Arr(base=np.array([0.1, 0.02], 'f4')), init=start()), LAYOUTS, R + [a], {}
    yield 'recon tikh', recon_op('tikh'), recon_args(reg_par=Arr(base=np.array([0.1, 0.2], 'f4')), reg_data=Arr((2, 3, 3)), init=start()), LAYOUTS + ('double',), R + ['tikh'], {}
    yield 'recon fbp filter parameters', recon_op('fbp', filter_name='butterworth'), recon_args(filter_par=Arr(base=np.array([0.31, 3.0], 'f4'))), LAYOUTS + ('double', 'list'), R + ['fbp'], {}
    g = lambda name, par: ('recon gridrec ' + name, recon_op('gridrec', filter_name=name), recon_args(6, filter_par=Arr(base=par)), LAYOUTS + ('double',), R + ['gridrec'], {})
    yield g('butterworth', np.array([0.31, 3.0], 'f4'))
    r = np.random.RandomState(3)
    yield g('custom', r.uniform(0, 1, 8).astype('f4'))
    yield g('custom2d', r.uniform(0, 1, (3, 8)).astype('f4'))
    sino_op = lambda tp, A: tp.recon(A['tomo'], A['theta'], A['center'], sinogram_order=True, algorithm='fbp', ncore=2, nchunk=1)
    yield 'recon sinogram order', sino_op, dict(tomo=Arr((2, 3, 3)), theta=Arr(base=TH), center=Arr(base=CE)), all_, R + ['fbp'], {}
    lists = dict(tomo=Arr((3, 2, 3), vary=False), theta=Arr(base=TH), center=Arr(base=CE))
    yield 'recon angles and centres', recon_op('art'), lists, ('list', 'double', 'every second', 'reversed'), R + ['art'], {}
    # projections
    P = ['tomopy.sim.project.project', 'c_project']
    o = dict(obj=Arr((2, 3, 3)), theta=Arr(base=TH), center=Arr(base=CE))
    yield 'project', lambda tp, A: tp.project(A['obj'], A['theta'], A['center'], pad=False, ncore=1), o, all_, P, {}
    yield 'project, two tasks', lambda tp, A: tp.project(A['obj'], A['theta'], A['center'], pad=False, ncore=2, nchunk=1, sinogram_order=True), o, LAYOUTS, P, {}
    yield 'project, padded', lambda tp, A: tp.project(A['obj'], A['theta'], ncore=1), dict(obj=Arr((1, 2, 2)), theta=Arr(base=TH)), LAYOUTS + ('double',), P, {}
    f2 = lambda tp, A: tp.project2(A['objx'], A['objy'], A['theta'], A['center'], pad=False)
    yield 'project2', f2, dict(objx=Arr((2, 3, 3)), objy=Arr((2, 3, 3)), theta=Arr(base=TH), center=Arr(base=CE)), all_, ['tomopy.sim.project.project2', 'project2'], {}
    f3 = lambda tp, A: tp.project3(A['objx'], A['objy'], A['objz'], A['theta'], A['center'], pad=False, axis=1)
    yield 'project3', f3, dict(objx=Arr((3, 3, 3)), objy=Arr((3, 3, 3)), objz=Arr((3, 3, 3)), theta=Arr(base=TH), center=Arr(base=np.r_[CE, CE[:1]])), LAYOUTS + ('double',), ['tomopy.sim.project.project3', 'project3'], {}
    # vector fields
    yield 'vector', lambda tp, A: tp.vector(A['t'], A['theta'], A['center']), dict(t=Arr((3, 2, 3)), theta=Arr(base=TH), center=Arr(base=CE)), all_, ['tomopy.recon.vector.vector', 'vector'], {}
    c3 = np.r_[CE, CE[:1]]
    v2 = lambda tp, A: tp.vector2(A['s'], A['t'], A['theta'], A['phi'], center1=A['c'], center2=A['d'])
    two = dict(s=Arr((3, 3, 3)), t=Arr((3, 3, 3)), theta=Arr(base=TH), phi=Arr(base=TH + 0.1), c=Arr(base=c3), d=Arr(base=c3[::-1].copy()))
    yield 'vector2', v2, two, LAYOUTS + ('double',), ['tomopy.recon.vector.vector2', 'vector2'], {}
    v3 = lambda tp, A: tp.vector3(A['s'], A['t'], A['u'], A['theta'], A['phi'], A['psi'], center1=A['c'], center2=A['d'])
    yield 'vector3', v3, dict(two, u=Arr((3, 3, 3)), psi=Arr(base=TH + 0.2)), ('transposed', 'every second', 'reversed'), ['tomopy.recon.vector.vector3', 'vector3'], {}
    # preparation
    N = 'tomopy.prep.normalize.'
    nf = dict(tomo=Arr((3, 2, 3), 0, 9), flat=Arr((2, 2, 3), 5, 9), dark=Arr((2, 2, 3), 0, 1))
    yield 'normalize', lambda tp, A: tp.normalize(A['tomo'], A['flat'], A['dark'], ncore=1), nf, all_ + ('unsigned',), [N + 'normalize'], {}
    yield 'normalize, cut off', lambda tp, A: tp.normalize(A['tomo'], A['flat'], A['dark'], cutoff=0.8, averaging='median', ncore=2), nf, ('transposed', 'every second', 'reversed', 'middle'), [N + 'normalize'], {}
    yield 'normalize_nf', lambda tp, A: tp.normalize_nf(A['tomo'], A['flat'], A['dark'], [0, 2], ncore=1), dict(tomo=nf['tomo'], flat=nf['flat'], dark=nf['dark']), LAYOUTS + ('double',), [N + 'normalize_nf'], {}
    yield 'normalize_bg', lambda tp, A: tp.normalize_bg(A['tomo'], air=1, ncore=1), dict(tomo=Arr((2, 2, 4))), all_, [N + 'normalize_bg', 'normalize_bg'], {}
    yield 'normalize_roi', lambda tp, A: tp.normalize_roi(A['tomo'], [0, 0, 2, 2], ncore=1), dict(tomo=Arr((2, 3, 3))), LAYOUTS + ('double',), [N + 'normalize_roi'], {}
    yield 'minus_log', lambda tp, A: tp.minus_log(A['tomo'], ncore=1), dict(tomo=Arr((2, 2, 3))), LAYOUTS + ('double',), [N + 'minus_log'], {}
    Q = 'tomopy.prep.stripe.'
    s3 = Arr((4, 2, 5), 0, 9)
    yield 'remove_stripe_sf', lambda tp, A: tp.remove_stripe_sf(A['tomo'], size=3, ncore=1), dict(tomo=s3), all_, [Q + 'remove_stripe_sf', 'remove_stripe_sf'], {}
    yield 'remove_stripe_fw', lambda tp, A: tp.remove_stripe_fw(A['tomo'], level=1, ncore=1), dict(tomo=Arr((8, 1, 6), 0, 9)), LAYOUTS, [Q + 'remove_stripe_fw'], dict(tol=1e-3)
    one = lambda na, nd, seed: Arr(base=np.repeat(sino(na, nd, seed, stripes=[(2, 3.0)])[:, :1, :] if np.ndim(sino(na, nd, seed)) == 3 else sino(na, nd, seed)[:, None, :], 2, 1).astype('f4'), free=[(1, 0, 1)], lo=1, hi=9)
    F = dict(forks=True, timeout=100)
    for n, k in (('remove_stripe_based_sorting', dict(size=3)), ('remove_stripe_based_filtering', dict(sigma=2, size=3)), ('remove_large_stripe', dict(size=3)),
                 ('remove_stripe_based_interpolation', dict(size=3))):
        yield n, (lambda n, k: lambda tp, A: getattr(tp, n)(A['tomo'], ncore=1, **k))(n, k), dict(tomo=one(7, 8, 1)), ('transposed', 'every second'), [Q + n], F
    dead = sino(5, 9, 22, [(1, np.array([4, 8, 4, 8, 4.]))])
    yield 'remove_dead_stripe', lambda tp, A: tp.remove_dead_stripe(A['tomo'], size=3, norm=False, ncore=1), dict(tomo=Arr(base=dead, free=[(2, 0, 1)], lo=3, hi=12)), ('transposed', 'every second', 'reversed'), [Q + 'remove_dead_stripe'], F
    yield 'stripes_detect3d', lambda tp, A: tp.stripes_detect3d(A['tomo'], size=2, radius=1, ncore=1), dict(tomo=Arr((4, 2, 4), 1, 9)), LAYOUTS + ('double',), [Q + 'stripes_detect3d', 'stripesdetect3d_main_float'], {}
    w = np.linspace(0.3, 1.4, 3 * 2 * 5).reshape(3, 2, 5)
    yield 'stripes_mask3d', lambda tp, A: tp.stripes_mask3d(A['tomo'], threshold=0.7, min_stripe_length=2, min_stripe_depth=1, min_stripe_width=1, ncore=1), dict(tomo=Arr(base=w.astype('f4'), free=[(1, 0, 2)], lo=0, hi=2)), LAYOUTS + ('double',), [Q + 'stripes_mask3d', 'stripesmask3d_main_float'], F
    yield 'retrieve_phase', lambda tp, A: tp.retrieve_phase(A['tomo'], dist=1.0, ncore=1), dict(tomo=Arr((2, 3, 4), -2, 2)), LAYOUTS, ['tomopy.prep.phase.retrieve_phase'], dict(tol=5e-4)
    # corrections
    M = 'tomopy.misc.corr.'
    v = Arr((2, 3, 4), -4, 4)
    for ax in (0, 1, 2):
        yield 'median_filter, axis %d' % ax, (lambda ax: lambda tp, A: tp.median_filter(A['a'], size=2, axis=ax, ncore=2))(ax), dict(a=v), LAYOUTS, [M + 'median_filter'], {}
        yield 'gaussian_filter, axis %d' % ax, (lambda ax: lambda tp, A: tp.gaussian_filter(A['a'], sigma=1, axis=ax, ncore=1))(ax), dict(a=v), LAYOUTS + ('double',), [M + 'gaussian_filter'], {}
        yield 'sobel_filter, axis %d' % ax, (lambda ax: lambda tp, A: tp.sobel_filter(A['a'], axis=ax, ncore=1))(ax), dict(a=v), LAYOUTS + ('double',), [M + 'sobel_filter'], {}
        yield 'remove_outlier, axis %d' % ax, (lambda ax: lambda tp, A: tp.remove_outlier(A['a'], dif=1.5, size=2, axis=ax, ncore=1))(ax), dict(a=v), LAYOUTS + ('double',), [M + 'remove_outlier'], {}
        yield 'remove_outlier1d, axis %d' % ax, (lambda ax: lambda tp, A: tp.remove_outlier1d(A['a'], dif=1.5, size=3, axis=ax, ncore=1))(ax), dict(a=v), LAYOUTS, [M + 'remove_outlier1d'], {}
    yield 'median_filter3d', lambda tp, A: tp.median_filter3d(A['a'], size=3, ncore=1), dict(a=Arr((2, 2, 2), -4, 4)), LAYOUTS + ('double',), [M + 'median_filter3d', 'medianfilter_main_float'], {}
    yield 'remove_outlier3d', lambda tp, A: tp.remove_outlier3d(A['a'], 1.0, size=3, ncore=1), dict(a=Arr((2, 2, 2), -4, 4)), LAYOUTS, [M + 'remove_outlier3d', 'medianfilter_main_float'], {}
    mask = np.zeros((3, 3, 4), bool)
    mask[1, 1, 1:3] = True
    b = np.arange(36.).reshape(3, 3, 4) + 1
    for kind in ('mean', 'median'):
        yield 'inpainter_morph, ' + kind, (lambda kind: lambda tp, A: tp.inpainter_morph(A['a'], A['m'], size=1, iterations=0, inpainting_type=kind, ncore=1))(kind), dict(a=Arr(base=b.astype('f4'), free=[(0, 1, 1)], lo=1, hi=50), m=Arr(base=mask, dtype='?')), LAYOUTS, [M + 'inpainter_morph'], F
    ring = np.random.RandomState(4).rand(2, 6, 6).astype('f4')
    yield 'remove_ring', lambda tp, A: tp.remove_ring(A['a'], center_x=2.3, center_y=2.7, rwidth=1, ncore=1), dict(a=Arr(base=ring, free=[(0, 2, 3)], lo=-2, hi=2)), LAYOUTS + ('double',), [M + 'remove_ring', 'remove_ring'], F
    # resampling
    G = 'tomopy.misc.morph.'
    d = Arr((2, 4, 4), -4, 4)
    for ax in (0, 1, 2):
        yield 'downsample, axis %d' % ax, (lambda ax: lambda tp, A: tp.downsample(A['a'], level=1, axis=ax))(ax), dict(a=d), LAYOUTS + ('double',), [G + 'downsample', 'downsample'], {}
        yield 'upsample, axis %d' % ax, (lambda ax: lambda tp, A: tp.upsample(A['a'], level=1, axis=ax))(ax), dict(a=d), LAYOUTS + ('double',), [G + 'upsample', 'upsample'], {}
        yield 'pad, axis %d' % ax, (lambda ax: lambda tp, A: tp.pad(A['a'], ax, npad=2, mode='edge', ncore=1))(ax), dict(a=d), LAYOUTS, [G + 'pad'], {}
    yield 'sino_360_to_180', lambda tp, A: tp.sino_360_to_180(A['a'], overlap=2), dict(a=d), LAYOUTS, [G + 'sino_360_to_180'], {}


def cases(tier):
    for name, op, args, kinds, funcs, kw in ops():
        kinds = list(kinds)
        for k in kinds:
            yield case(name, op, args, k, funcs, **kw)
