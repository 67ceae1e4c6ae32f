"""Vector-field projection and reconstruction."""
import math
import numpy as np
from ._recon import *
from .C01 import _expc

LIBS = ('recon',)
BOUNDS = 'fields up to 2 slices x 5 x 5 voxels (axis 0) or 4 x 4 x 4 cubes (all axes), up to 5 angles, every component value and measured value symbolic; reconstruction: up to 3 iterations'
OUTSIDE = 'larger sizes; non-cubic volumes for tilt axes 1 and 2; data sets of different numbers of projections; rays inside the 0.01-pixel trimming margin'
ASSUMPTIONS = ['operations on symbolic values are over the reals']

COMP = {0: (0, 1), 1: (1, 2), 2: (0, 2)}


def vox(axis, s, ix, iy):
    """Voxel of plane s, in-plane position (ix, iy), of the plane perpendicular to an axis."""
    return {0: (s, ix, iy), 1: (iy, ix, s), 2: (iy, s, ix)}[axis]


def fwd(A, vols, axis, s, p, d):
    vx, vy = A.direction(p)
    a, b = (vols[k] for k in COMP[axis])
    r = 0.0
    for (ix, iy), l in A.rows[p, d]:
        i = vox(axis, s, ix, iy)
        r = r + l * (vx * a[i] + vy * b[i])
    return r


def proj_case(name, which, shape, theta, axis=0, center=None, pad=True, sinogram_order=False, emission=True):
    oy, ox, oz = shape
    theta = np.asarray(theta, dtype='f4')
    dt = len(theta)
    dx = int(math.ceil((math.sqrt(ox * ox + oz * oz) + 2) / 2.0) * 2) if pad else ox
    cs = center if isinstance(center, list) else [dx / 2.0 if center is None else center] * oy
    AA = [S.System(theta, dx, c, ox, oz) for c in cs]
    n = 3 if which == 3 else 2

    def impl(tp, X):
        o = [X['o%d' % i] for i in range(n)]
        f = tp.project3 if which == 3 else tp.project2
        c = np.array(center, 'f4') if isinstance(center, list) else center
        kw = {'axis': axis} if which == 3 else {}
        return f(*o, theta.copy(), center=c, emission=emission, pad=pad, sinogram_order=sinogram_order, **kw)

    def check(X, Y):
        yield ('shape', tuple(Y.shape) == ((oy, dt, dx) if sinogram_order else (dt, oy, dx)))
        Yp = S.plain(Y)
        o = [S.plain(X['o%d' % i]) for i in range(n)]
        for s in range(oy):
            for p in range(dt):
                for d in range(dx):
                    if (p, d) in AA[s].bad:
                        continue
                    v = Yp[s, p, d] if sinogram_order else Yp[p, s, d]
                    if not emission:
                        yield ('transmission at plane %d angle %d bin %d' % (s, p, d), _expc(sc(v), sc(fwd(AA[s], o, axis, s, p, d))))
                        continue
                    yield ('line integral of the field at plane %d angle %d bin %d' % (s, p, d), close(sc(v), sc(fwd(AA[s], o, axis, s, p, d)), 3e-3))

    return Case(name, {'o%d' % i: Sym(shape, 'f4', -4, 4) for i in range(n)}, impl, check, funcs=['tomopy.sim.project.project%d' % which],
                bounds='%s voxels, %d angles, %d bins' % (shape, dt, dx))


def vec_case(name, nd, n, thetas, dy=None, centers=None, num_iter=1, axes=None, allow_uncrossed=False):
    """nd data sets of cubes of edge n (nd = 1: dy planes)."""
    given = axes
    axes = axes or {1: (0,), 2: (1, 2), 3: (0, 1, 2)}[nd]
    dy = dy or n
    dt = len(thetas[0])
    gs = []
    for k in range(nd):
        c = centers[k] if centers else None
        gs.append(Geo('v', thetas[k], n, dy=dy, center=c, search=not allow_uncrossed))

    def impl(tp, X):
        t = [X['t%d' % k] for k in range(nd)]
        th = [g.theta.copy() for g in gs]
        cs = [g.center_arg() for g in gs]
        f = {1: tp.vector, 2: tp.vector2, 3: tp.vector3}[nd]
        kw = {'center': cs[0]} if nd == 1 else {'center%d' % (k + 1): cs[k] for k in range(nd)}
        if given:
            kw.update({'axis%d' % (k + 1): axes[k] for k in range(nd)})
        return f(*t, *th, num_iter=num_iter, **kw)

    def check(X, Y):
        yield ('number of components', len(Y) == (2 if nd == 1 else 3))
        vols = [S.obj((dy, n, n)) for _ in range(3)]
        for v in vols:
            v[...] = 0.0
        for _ in range(num_iter):
            for k, g in enumerate(gs):
                ax = axes[k]
                t = S.plain(X['t%d' % k])
                ca, cb = COMP[ax]
                # planes of one data set do not share voxels: updates may be applied plane by plane
                for s in range(dy):
                    A = g.A[s]
                    ua, ub, col = {}, {}, {}
                    for p in range(dt):
                        vx, vy = A.direction(p)
                        for d in range(n):
                            row = A.rows[p, d]
                            n2 = sum(l * l for _, l in row)
                            if n2 == 0:
                                continue
                            u = (sc(t[p, s, d]) - fwd(A, vols, ax, s, p, d)) / n2
                            for ix, l in row:
                                ua[ix] = ua.get(ix, 0.0) + (l * vx) * u
                                ub[ix] = ub.get(ix, 0.0) + (l * vy) * u
                                col[ix] = col.get(ix, 0.0) + l
                    for ix in col:
                        i = vox(ax, s, *ix)
                        vols[ca][i] = vols[ca][i] + ua[ix] / col[ix]
                        vols[cb][i] = vols[cb][i] + ub[ix] / col[ix]
        for c in range(len(Y)):
            Yp = S.plain(Y[c])
            yield ('shape of component %d' % c, tuple(Yp.shape) == (dy, n, n))
            for ix in np.ndindex(dy, n, n):
                yield ('component %d voxel %s' % (c, list(ix)), close(sc(Yp[ix]), sc(vols[c][ix]), 3e-3))

    return Case(name, {'t%d' % k: Sym((dt, dy, n), 'f4', -2, 2) for k in range(nd)}, impl, check, funcs=['tomopy.recon.vector.vector' + ('' if nd == 1 else str(nd))],
                bounds='%d data sets of %d angles, %d planes of %d x %d, %d iterations' % (nd, dt, dy, n, n, num_iter))


def cases(tier):
    a = S.angles
    yield proj_case('two components', 2, (2, 4, 4), a(5))
    yield proj_case('two components wide', 2, (3, 3, 5), a(5))
    yield proj_case('two components tall', 2, (2, 5, 3), a(5), sinogram_order=True)
    yield proj_case('two components no padding', 2, (1, 4, 4), a(5), pad=False)
    yield proj_case('two components negative angles', 2, (1, 4, 4), -a(5, 0.07, 6.2))
    yield proj_case('two components beyond a turn', 2, (1, 4, 4), a(4, 6.4, 20.0))
    yield proj_case('two components off centre', 2, (1, 4, 4), a(4), center=3.3)
    yield proj_case('two components centre per slice', 2, (3, 4, 4), a(4), center=[3.3, 4.1, 4.1])
    yield proj_case('two components transmission', 2, (3, 3, 3), a(3), emission=False)
    yield proj_case('two components transmission, sinograms, no padding', 2, (3, 4, 4), a(2), emission=False, pad=False, sinogram_order=True)
    yield proj_case('three components transmission', 3, (3, 3, 3), a(3), emission=False, axis=1)
    yield proj_case('three components transmission, sinograms, no padding', 3, (4, 4, 4), a(2), emission=False, pad=False, sinogram_order=True, axis=2)
    yield proj_case('three components no padding', 3, (4, 4, 4), a(2), pad=False, axis=2)
    for axis in (0, 1, 2):
        yield proj_case('three components axis %d' % axis, 3, (4, 4, 4), a(4), axis=axis)
        yield proj_case('three components axis %d sinograms' % axis, 3, (3, 3, 3), -a(4, 0.1, 6.1), axis=axis, sinogram_order=True, center=2.9)
        yield proj_case('three components axis %d centre per plane' % axis, 3, (3, 3, 3), a(3), axis=axis, center=[2.9, 3.3, 3.7])
    yield proj_case('three components wide', 3, (2, 3, 5), a(4), axis=0)
    yield vec_case('vector', 1, 4, [a(4)], dy=2)
    yield vec_case('vector two iterations', 1, 4, [a(4)], dy=2, num_iter=2)
    yield vec_case('vector one slice', 1, 5, [a(5, 0.1, 6.2)], dy=1)
    yield vec_case('vector centre per slice', 1, 4, [a(4)], dy=2, centers=[[1.7, 2.3]])
    yield vec_case('vector uncrossed pixels', 1, 4, [[0.02]], dy=1, centers=[3.3], allow_uncrossed=True)
    yield vec_case('vector2', 2, 3, [a(3), a(3)])
    yield vec_case('vector2 own angles', 2, 3, [a(3), a(3, 0.3, 2.9)])
    yield vec_case('vector2 own centres', 2, 3, [a(3), a(3)], centers=[1.3, 1.7])
    yield vec_case('vector2 two iterations', 2, 3, [a(3), a(3, 0.3, 2.9)], num_iter=2)
    yield vec_case('vector2 tilt axes 0 and 1', 2, 3, [a(3), a(3)], axes=(0, 1))
    yield vec_case('vector3 tilt axes 1, 2 and 0', 3, 3, [a(3)] * 3, axes=(1, 2, 0))
    yield vec_case('vector3', 3, 3, [a(3), a(3), a(3)])
    yield vec_case('vector3 own angles', 3, 3, [a(3), a(3, 0.3, 2.9), -a(3, 0.2, 3.1)])
    yield vec_case('vector3 own centres', 3, 3, [a(3)] * 3, centers=[1.3, 1.7, [1.3, 1.5, 1.8]])
    yield vec_case('vector3 two iterations', 3, 3, [a(3), a(3, 0.3, 2.9), -a(3, 0.2, 3.1)], num_iter=2)
    if tier == 'thorough':
        for k in range(6):
            r = np.random.RandomState(k)
            yield proj_case('thorough two %d' % k, 2, (2, 4 + k % 3, 5), r.uniform(-15, 15, 6))
            yield proj_case('thorough three %d' % k, 3, (4, 4, 4), r.uniform(-15, 15, 6), axis=k % 3)
            yield vec_case('thorough vector %d' % k, 1, 5, [r.uniform(-9, 9, 5)], dy=1 + k % 2, num_iter=1 + k % 3)
            yield vec_case('thorough vector3 %d' % k, 3, 4, [r.uniform(-9, 9, 4) for _ in range(3)], num_iter=1 + k % 2)
