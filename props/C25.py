"""Memory of the C libraries."""
import ctypes
import sys
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc
from . import _spec as S

LIBS = ('recon', 'gridrec', 'prep', 'misc')
BOUNDS = 'every shape up to 4 x 3 x 6, every grid, window, block, padding and axis within the listed ranges (all of them symbolic whole numbers), centres inside and outside, symbolic data'
OUTSIDE = 'larger shapes; allocations that fail; parallel regions (run one after another); memory of FFTW and of Python'
ASSUMPTIONS = ['an access outside of an array, of freed or uninitialised memory ends the execution with a report', 'leaks are blocks that a repeated call leaves allocated']

CENTERS = (None, 0.3, -4.2, 9.7)
ANGLES = np.array([0.2, 1.1, 2.3, 0.8, 4.0, 5.3], 'f4')


class _Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


def _used():
    f = ctypes.CDLL(None).mallinfo2
    f.restype = _Info
    i = f()
    return i.uordblks + i.hblkhd


def left_over(f):
    """Blocks that a call of f leaves behind (0 or 1 in a real process, where only growth shows)."""
    b = sys.modules.get('symt.bridge')
    if b is not None and b.loaded() is not None:
        def live():
            return sum(1 for l in b.CLIBS.values() for m in l.mod().allocs if m.alive) + sum(1 for l in b.CLIBS.values() for m, _ in getattr(l.mod(), 'plans', {}).values() if m.alive)
        f()
        n = live()
        f()
        return min(live() - n, 1)
    for _ in range(4):
        f()
    for _ in range(12):
        n = _used()
        for _ in range(64):
            f()
        if _used() - n < 64 * 24:
            return 0
    return 1


def memory(name, call, sizes, shapes, legal=None, lo=0.25, hi=2.0, dt='f4', free=None, funcs=(), max_paths=4000, timeout=200, **kw):
    """call(tp, arrays, n): arrays cut to shapes(n); n the whole numbers."""
    big = shapes({k: v[1] for k, v in sizes.items()})
    ins = {k: SymScalar('i8', a, b) for k, (a, b) in sizes.items()}
    for i, s in enumerate(big):
        base = np.random.RandomState(5 + i).uniform(lo, hi, s)
        ins['a%d' % i] = Sym(s, dt, lo, hi, base=base.astype(dt), free=free)

    def impl(tp, X):
        n = {k: int(X[k]) for k in sizes}
        A = [X['a%d' % i][tuple(slice(0, q) for q in s)].copy() for i, s in enumerate(shapes(n))]
        return left_over(lambda: call(tp, [a.copy() for a in A], n))

    def check(X, R):
        yield ('every block is given back', R == 0)

    def assume(X):
        return list(legal({k: sc(X[k]) for k in sizes})) if legal else []
    return Case(name, ins, impl, check, assume=assume, funcs=list(funcs), max_paths=max_paths, timeout=timeout, forks=True, bounds=str(sizes), **kw)


def cases(tier):
    big = tier == 'thorough'
    tomo = dict(dt=(1, 3), dy=(1, 2), dx=(1, 5 if big else 4), c=(0, len(CENTERS) - 1))
    grid = dict(nx=(1, 4), ny=(1, 4))
    wide = dict(nx=(2, 4), ny=(2, 4))
    few = dict(dt=(1, 3), dx=(1, 3), c=(0, 1))
    T3 = lambda n: [(n['dt'], n.get('dy', 1), n['dx'])]

    def rec(alg, **kw):
        def call(tp, A, n):
            k = {q: (v(n) if callable(v) else v) for q, v in kw.items()}
            if 'nx' in n:
                k.update(num_gridx=n['nx'], num_gridy=n['ny'])
            tp.recon(A[0], ANGLES[:n['dt']], center=CENTERS[n.get('c', 0)], algorithm=alg, ncore=1, **k)
        return call
    R = lambda f: ['c_' + f, f]
    for a in ('art', 'fbp', 'sirt', 'mlem', 'grad', 'tv', 'tikh', 'pml_quad', 'pml_hybrid'):
        p = a.startswith('pml')
        f = R('os' + a if p else a)
        yield memory(a, rec(a), dict(tomo, dx=(2, tomo['dx'][1])) if p else tomo, T3, funcs=f)
        yield memory(a + ', other grids', rec(a), dict(few, **(wide if p else grid)), T3, funcs=f)
        if p:
            yield memory(a + ', grids one pixel wide', rec(a), dict(few, nx=(1, 1), ny=(1, 3)), T3, funcs=f)
            yield memory(a + ', grids one pixel high', rec(a), dict(few, nx=(2, 3), ny=(1, 1)), T3, funcs=f)
    blocks = dict(num_block=lambda n: n['nb'], ind_block=lambda n: np.arange(n['dt'])[::-1].copy())
    for a in ('bart', 'osem', 'ospml_quad', 'ospml_hybrid'):
        p = a.startswith('ospml')
        yield memory(a, rec(a, **blocks), dict(dt=(1, 5), dx=(2 if p else 1, 3), nb=(1, 5)), T3, legal=lambda n: [T.le(n['nb'], n['dt'])], free=[] if p else None, funcs=R(a))
        if not p:
            yield memory(a + ', other grids', rec(a), dict(few, **grid), T3, funcs=R(a))
    yield memory('art, two iterations', rec('art', num_iter=2), dict(dt=(1, 3), dx=(1, 3)), T3, funcs=R('art'))
    for f in ('none', 'shepp', 'butterworth'):
        yield memory('gridrec ' + f, rec('gridrec', filter_name=f), dict(dt=(1, 4), dy=(1, 3), dx=(1, 6), c=(0, 1)), T3, funcs=['c_gridrec', 'gridrec'])
    yield memory('gridrec, other grids', rec('gridrec'), dict(dt=(1, 2), dx=(2, 3), nx=(14, 18), ny=(14, 18)), T3, free=[], funcs=['c_gridrec', 'gridrec'])
    yield memory('gridrec, other centres', rec('gridrec'), dict(dt=(1, 2), dy=(1, 2), dx=(2, 5), c=(0, 3)), T3, funcs=['c_gridrec', 'gridrec'])
    for sq in (0, 1):
        for ax in (0, 1, 2) if not sq else ():
            yield memory('project3 along %d' % ax, lambda tp, A, n, ax=ax: tp.project3(A[0], A[1], A[2], ANGLES[:n['dt']], center=CENTERS[n['c']], pad=bool(n['pad']), axis=ax),
                         dict(dt=(1, 3), n=(1, 3), c=(0, 1), pad=(0, 1)), lambda n: [(n['n'],) * 3] * 3, funcs=['c_project3', 'project3'])
    yield memory('project', lambda tp, A, n: tp.project(A[0], ANGLES[:n['dt']], center=CENTERS[n['c']], pad=bool(n['pad']), ncore=1),
                 dict(dt=(1, 2), oy=(1, 2), ox=(1, 3), oz=(1, 3), c=(0, 3), pad=(0, 1)), lambda n: [(n['oy'], n['ox'], n['oz'])], funcs=['c_project', 'project'])
    yield memory('project2', lambda tp, A, n: tp.project2(A[0], A[1], ANGLES[:n['dt']], center=CENTERS[n['c']], pad=bool(n['pad'])),
                 dict(dt=(1, 2), oy=(1, 2), ox=(1, 3), oz=(1, 3), c=(0, 1), pad=(0, 1)), lambda n: [(n['oy'], n['ox'], n['oz'])] * 2, funcs=['c_project2', 'project2'])
    yield memory('vector', lambda tp, A, n: tp.vector(A[0], ANGLES[:n['dt']], center=CENTERS[n['c']], num_iter=1), dict(dt=(1, 3), dy=(1, 2), dx=(1, 4), c=(0, 1)), T3, funcs=['c_vector', 'vector'])
    cube = lambda k: lambda n: [(n['dt'], n['n'], n['n'])] * k
    yield memory('vector2', lambda tp, A, n: tp.vector2(A[0], A[1], ANGLES[:n['dt']], ANGLES[:n['dt']][::-1], num_iter=1, axis1=n['p'], axis2=n['q']),
                 dict(dt=(1, 3), n=(1, 3), p=(0, 2), q=(0, 2)), cube(2), funcs=['c_vector2', 'vector2'])
    yield memory('vector3', lambda tp, A, n: tp.vector3(A[0], A[1], A[2], ANGLES[:n['dt']], ANGLES[:n['dt']][::-1], ANGLES[:n['dt']], num_iter=1),
                 dict(dt=(1, 3), n=(1, 4)), cube(3), funcs=['c_vector3', 'vector3'])
    yield memory('background', lambda tp, A, n: tp.normalize_bg(A[0], air=n['air'], ncore=1), dict(dt=(1, 2), dy=(1, 2), dx=(2, 6), air=(1, 6)), T3,
                 legal=lambda n: [T.le(n['air'], n['dx'])], funcs=['c_normalize_bg', 'normalize_bg'])
    yield memory('stripe smoothing', lambda tp, A, n: tp.remove_stripe_sf(A[0], size=n['size'], ncore=1), dict(dt=(1, 2), dy=(1, 2), dx=(1, 6), size=(1, 8)), T3, funcs=['c_remove_stripe_sf', 'remove_stripe_sf'])
    for lv, ax in ((1, 0), (1, 1), (1, 2), (2, 2)):
        yield memory('downsample by %d along %d' % (lv, ax), lambda tp, A, n, lv=lv, ax=ax: tp.downsample(A[0], level=lv, axis=ax), dict(dt=(1, 5), dy=(1, 5), dx=(1, 5)), T3, funcs=['c_sample'])
        yield memory('upsample by %d along %d' % (lv, ax), lambda tp, A, n, lv=lv, ax=ax: tp.upsample(A[0], level=lv, axis=ax), dict(dt=(1, 3), dy=(1, 3), dx=(1, 3)), T3, funcs=['c_sample'])
    yield memory('median filter', lambda tp, A, n: tp.median_filter3d(A[0], size=n['size'], ncore=1), dict(dt=(1, 3), dy=(1, 3), dx=(1, 3), size=(1, 3)), T3, free=[], funcs=['medianfilter_main_float'])
    yield memory('median filter of short numbers', lambda tp, A, n: tp.median_filter3d(A[0], size=n['size'], ncore=1), dict(dt=(1, 3), dy=(1, 3), dx=(1, 3), size=(1, 5)), T3, dt='u2', lo=0, hi=9, free=[], funcs=['medianfilter_main_uint16'])
    yield memory('dezinger', lambda tp, A, n: tp.remove_outlier3d(A[0], 0.4, size=n['size'], ncore=1), dict(dt=(1, 3), dy=(1, 3), dx=(1, 3), size=(1, 3)), T3, free=[], funcs=['medianfilter_main_float'])
    for ty in ('mean', 'median', 'random'):
        def inp(tp, A, n, ty=ty):
            m = np.zeros(A[0].shape, bool)
            m.flat[n['m'] % m.size] = True
            if ty != 'random':
                m.flat[(3 * n['m'] + 1) % m.size] = True
            tp.inpainter_morph(A[0], m, size=n['size'], iterations=n['it'], inpainting_type=ty, ncore=1)
        rnd = ty == 'random'
        it = (0, 1) if ty == 'mean' else (0, 0)
        k = dict(size=(1, 1) if rnd else (1, 2), it=it)
        yield memory('inpainting 3D, ' + ty, inp, dict(dt=(1, 2 if rnd else 3), dy=(1, 2), dx=(1, 2 if rnd else 3), m=(0, 0 if rnd else 3), **k), T3, free=[], funcs=['Inpainter_morph_main'])
        yield memory('inpainting 2D, ' + ty, inp, dict(dt=(1, 3), dx=(1, 4), m=(0, 1 if rnd else 5), **k), lambda n: [(n['dt'], n['dx'])], free=[], funcs=['Inpainter_morph_main'])
    yield memory('stripe detection', lambda tp, A, n: tp.stripes_detect3d(A[0], size=n['size'], radius=n['radius'], ncore=1), dict(dt=(2, 5), dy=(1, 3), dx=(1, 4), size=(1, 2), radius=(1, 3)), T3,
                 legal=lambda n: [T.le(T.mul(2, n['size']), n['dt'])], free=[], funcs=['stripesdetect3d_main_float'])
    yield memory('stripe mask', lambda tp, A, n: tp.stripes_mask3d(A[0], 0.9, n['len'], n['dep'], n['wid'], ncore=1), dict(dt=(2, 4), dy=(1, 3), dx=(2, 4), len=(1, 3), dep=(0, 2), wid=(1, 3)), T3,
                 legal=lambda n: [T.lt(n['len'], n['dt']), T.lt(n['dep'], n['dy']), T.lt(n['wid'], n['dx'])], free=[], funcs=['stripesmask3d_main_float'])
    for mode in ('wrap', 'reflect'):
        yield memory('rings, ' + mode, lambda tp, A, n, mode=mode: tp.remove_ring(A[0], center_x=(None, 0.0, 2.2, 9.0)[n['c']], rwidth=n['w'], theta_min=(5, 60)[n['t']], int_mode=mode, ncore=1),
                     dict(dt=(1, 2), dy=(1, 4), dx=(1, 4), w=(0, 2), c=(0, 3), t=(0, 1)), T3, free=[], funcs=['c_remove_ring', 'remove_ring'])
