"""Forward projection is the exact line integral of the voxel object."""
import math
import numpy as np
from symt.harness import Sym, Case, close, sc
from . import _spec as S

LIBS = ('recon',)
BOUNDS = 'objects up to 3 slices x 7 x 7 voxels with every voxel symbolic in [-4, 4]; up to 12 angles; detector widths up to 12; in addition one case each with 70 slices, 190 angles and a 40 x 37 grid in which some voxels are symbolic'
OUTSIDE = 'larger grids and angle sets; rays passing within 0.03 pixel of an outer corner of the grid (the 0.01-pixel trimming margin applies there); float32 rounding beyond the 2e-3 tolerance'
ASSUMPTIONS = ['operations on symbolic values are over the reals, concrete geometry is evaluated in IEEE float32 as compiled']


def case(name, oy, ox, oz, theta, center=None, pad=True, emission=True, sinogram_order=False, ncore=1, nchunk=None, order='fifo', free=None):
    theta = np.asarray(theta, dtype='f4')
    dx = int(math.ceil((math.sqrt(ox * ox + oz * oz) + 2) / 2.0) * 2) if pad else ox
    dt = len(theta)
    cs = list(center) if isinstance(center, list) else [dx / 2.0 if center is None else float(center)] * oy
    AA = {c: S.System(theta, dx, c, ox, oz) for c in set(cs)}

    def impl(tp, X):
        return tp.project(X['obj'], theta.copy(), center=np.array(center, 'f4') if isinstance(center, list) else center, emission=emission, pad=pad, sinogram_order=sinogram_order, ncore=ncore, nchunk=nchunk)

    def check(X, Y):
        shape = (oy, dt, dx) if sinogram_order else (dt, oy, dx)
        yield ('shape of the projections', tuple(Y.shape) == shape)
        yield ('dtype of the projections', Y.dtype == np.float32)
        Yp, o = S.plain(Y), S.plain(X['obj'])
        for s in range(oy):
            A = AA[cs[s]]
            for p in range(dt):
                for d in range(dx):
                    if (p, d) in A.bad:
                        continue
                    v = sc(Yp[s, p, d] if sinogram_order else Yp[p, s, d])
                    w = A.fwd(o[s], p, d)
                    if not emission:
                        yield ('transmission at slice %d angle %d bin %d' % (s, p, d), _expc(v, w))
                    else:
                        yield ('line integral at slice %d angle %d bin %d' % (s, p, d), close(v, w, 2e-3))

    base = None if free is None else np.random.RandomState(oy * ox + oz).uniform(-4, 4, (oy, ox, oz)).astype('f4')
    return Case(name, {'obj': Sym((oy, ox, oz), 'f4', -4, 4, base=base, free=free)}, impl, check, funcs=['tomopy.sim.project.project', 'tomopy.util.mproc.distribute_jobs', 'tomopy.util.extern.c_project'],
                bounds='%d angles, %dx%dx%d voxels, %d bins' % (dt, oy, ox, oz, dx), order=order)


def _expc(v, w):
    """v = exp(-w), judged on the exponent."""
    from symt import terms as T
    if isinstance(v, T.Node):
        if v.op == 'uf' and v.args[0] == 'exp':
            return close(v.args[1], -w, 2e-3)
        if isinstance(w, T.Node):
            return False
    if isinstance(v, (float, int)) and not isinstance(w, T.Node):
        return close(v, math.exp(-w), 1e-3, 2e-2)
    return close(v, T.uf('exp', -w), 1e-3)


def cases(tier):
    a = S.angles
    yield case('three slices, default centre', 3, 5, 5, a(6))
    yield case('sinogram order', 2, 5, 5, a(5), sinogram_order=True)
    yield case('no padding', 2, 6, 6, a(7), pad=False)
    yield case('one slice', 1, 4, 4, a(9))
    yield case('centre left', 2, 5, 5, a(4), center=2.3)
    yield case('centre right', 2, 5, 5, a(4), center=6.77)
    yield case('integer centre no padding', 1, 6, 6, a(5), pad=False, center=3)
    yield case('half-integer centre', 1, 6, 6, a(5), pad=False, center=2.5)
    yield case('centre per slice', 3, 4, 4, a(4), center=[2.63, 5.2, 4.1])
    yield case('centre per slice in chunks', 4, 4, 4, a(3), center=[3.1, 3.1, 4.7, 3.9], ncore=2, nchunk=2, order='lifo')
    yield case('wide object', 3, 3, 6, a(8))
    yield case('tall object', 3, 6, 3, a(8))
    yield case('odd by even object', 2, 4, 7, a(8))
    yield case('negative angles', 1, 5, 5, -a(6))
    yield case('full turn', 1, 5, 5, a(12, 0.07, 0.07 + 2 * math.pi))
    yield case('negative full turn', 1, 5, 5, -a(11, 0.09, 0.09 + 2 * math.pi))
    yield case('beyond a full turn', 1, 5, 5, a(7, 6.4, 13.1))
    yield case('several turns', 1, 5, 5, [30.1, -41.7, 100.3, 12.6])
    yield case('axis aligned', 1, 5, 5, [0, math.pi / 2, math.pi, 3 * math.pi / 2, 2 * math.pi, -math.pi / 2])
    yield case('axis aligned even grid', 1, 4, 4, [0, math.pi / 2, math.pi, 1.5 * math.pi])
    yield case('diagonals', 1, 5, 5, [math.pi / 4, 3 * math.pi / 4, 5 * math.pi / 4, 7 * math.pi / 4])
    yield case('steep and shallow', 1, 5, 5, [0.003, math.pi / 2 - 0.002, math.pi / 2 + 0.002, math.pi - 0.003])
    yield case('unordered and repeated angles', 2, 4, 4, [2.1, 0.3, 2.1, 1.2])
    yield case('transmission', 1, 3, 3, a(4), emission=False)
    yield case('transmission, three slices', 3, 3, 3, a(4), emission=False)
    yield case('transmission, sinograms', 2, 3, 4, a(3), emission=False, sinogram_order=True)
    yield case('transmission, no padding', 2, 4, 4, a(3), emission=False, pad=False, ncore=2)
    yield case('one angle', 2, 3, 3, [0.4])
    yield case('chunks of one', 3, 4, 4, a(3), ncore=2, nchunk=1)
    yield case('two workers', 3, 4, 4, a(3), ncore=2, order='lifo')
    yield case('more workers than slices', 3, 4, 4, a(3), ncore=8, order='lifo')
    yield case('chunk of two of three', 3, 4, 4, a(3), ncore=2, nchunk=2)
    yield case('large grid, some voxels', 1, 40, 37, a(3), free=[(0, 0, 0), (0, 39, 36), (0, 39, 0), (0, 0, 36), (0, 20, 18), (0, 3, 30)])
    yield case('many angles, some voxels', 1, 4, 4, a(190, 0.01, 3.2), free=[(0, 0, 0), (0, 3, 1), (0, 2, 2)])
    yield case('many slices, some voxels', 70, 2, 2, a(3), ncore=4, nchunk=None, order='lifo', free=[(k, 0, k % 2) for k in (0, 1, 16, 17, 18, 33, 63, 64, 69)])
    yield case('single voxel', 1, 1, 1, a(3))
    yield case('two voxels', 1, 2, 2, a(5))
    if tier == 'thorough':
        for n in (7, 8):
            for c in (None, n / 2 + 1.37):
                yield case('thorough %d %s' % (n, c), 2, n, n, a(12, 0.01, 6.3), center=c)
        yield case('thorough 16', 1, 16, 16, a(12, 0.02, 6.3))
        for k in range(24):
            yield case('thorough random angles %d' % k, 1, 5, 6, np.random.RandomState(k).uniform(-20, 20, 6), center=None if k % 2 else 3 + 0.21 * k, pad=True)
