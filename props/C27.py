"""Ellipsoid phantoms."""
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ()
BOUNDS = 'volumes up to 4 x 5 x 6 (cubes and boxes) with up to three overlapping ellipsoids, whose intensity, semi-axes, centre (up to six of these at a time) and rotation angles are symbolic; one volume of 20 x 17 x 14 with symbolic intensities'
OUTSIDE = 'voxels whose centre lies within 1e-6 of the surface of an ellipsoid; larger volumes; more ellipsoids; the stored test images'
ASSUMPTIONS = ['operations on symbolic values are over the reals', 'sine and cosine of a symbolic angle are unknown numbers']
P = 'tomopy.misc.phantom.'
KEYS = ('A', 'a', 'b', 'c', 'x0', 'y0', 'z0', 'phi', 'theta', 'psi')
E1 = dict(A=1.0, a=.69, b=.92, c=.81, x0=0., y0=0., z0=0., phi=90., theta=90., psi=90.)
E2 = dict(A=-.3, a=.5, b=.35, c=.83, x0=.22, y0=-.11, z0=.3, phi=-25., theta=65., psi=140.)
E3 = dict(A=2., a=1.3, b=.4, c=.6, x0=-.31, y0=.13, z0=-.17, phi=10., theta=-35., psi=200.)
RANGE = dict(A=(-3, 3), a=(.2, 1.5), b=(.2, 1.5), c=(.2, 1.5), x0=(-1, 1), y0=(-1, 1), z0=(-1, 1), phi=(-180, 180), theta=(-180, 180), psi=(-180, 180))


def _cs(deg):
    if isinstance(deg, (int, float)):
        return math.cos(math.radians(deg)), math.sin(math.radians(deg))
    r = T.mul(deg, math.pi / 180)
    return T.uf('cos', r), T.uf('sin', r)


def _mat(a, b):
    r = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            for k in range(3):
                r[i][j] = T.add(r[i][j], T.mul(a[i][k], b[k][j]))
    return r


def _about_z(deg):
    c, s = _cs(deg)
    return [[c, s, 0.0], [T.neg(s), c, 0.0], [0.0, 0.0, 1.0]]


def _about_x(deg):
    c, s = _cs(deg)
    return [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, T.neg(s), c]]


def axis(n):
    return [-1.0] if n == 1 else [-1.0 + 2.0 * i / (n - 1) for i in range(n)]


def quad(p, pt):
    """Value of the quadratic form of the ellipsoid at a point: at most one inside."""
    m = _mat(_about_z(p['psi']), _mat(_about_x(p['theta']), _about_z(p['phi'])))
    q = 0.0
    for i, (s, c) in enumerate((('a', 'x0'), ('b', 'y0'), ('c', 'z0'))):
        u = 0.0
        for j in range(3):
            u = T.add(u, T.mul(m[i][j], pt[j]))
        u = T.div(T.sub(u, p[c]), p[s])
        q = T.add(q, T.mul(u, u))
    return q


def value(params, pt):
    v, edge = 0.0, []
    for p in params:
        q = quad(p, pt)
        v = T.add(v, T.ite(T.le(q, 1.0), p['A'], 0.0))
        e = T.lt(T.absv(T.sub(q, 1.0)), 1e-6)
        if e is not False:
            edge.append(e)
    u = False
    for e in edge:
        u = T.or_(u, e)
    return v, u


def phantom_case(name, shape, ells, free, give=None, dtype=None, **kw):
    """free: list of (ellipsoid, key) which are symbolic."""
    ins = {'%s%d' % (k, i): SymScalar('f8', *RANGE[k]) for i, k in free}

    def params(X):
        r = [dict(e) for e in ells]
        for i, k in free:
            r[i][k] = X['%s%d' % (k, i)]
        return r

    def impl(tp, X):
        p = params(X)
        kwd = {} if dtype is None else {'dtype': dtype}
        r = tp.misc.phantom.phantom(give or shape, p, **kwd)
        return r, p

    def check(X, R):
        r, p = R
        mine = [{k: sc(v) for k, v in e.items()} for e in params(X)]
        yield ('shape', tuple(r.shape) == tuple(shape))
        yield ('type', str(r.dtype) == (dtype or 'float32'))
        yield ('number of ellipsoids unchanged', len(p) == len(mine))
        for i, (u, v) in enumerate(zip(p, mine)):
            yield ('ellipsoid %d keeps its keys' % i, sorted(u) == sorted(v))
            for k in v:
                yield ('ellipsoid %d keeps %s' % (i, k), T.eq(sc(u[k]), v[k]))
        a = S.plain(r)
        ax = [axis(n) for n in shape]
        for ix in np.ndindex(*shape):
            v, edge = value(mine, [ax[d][ix[d]] for d in range(3)])
            yield ('voxel %s' % list(ix), close(sc(a[ix]), v, 1e-5, 1e-5, unless=edge))
    return Case(name, ins, impl, check, funcs=[P + 'phantom'], **kw)


def shepp_case(size, shape, dtype):
    """The Shepp-Logan head holds no negative value, whatever is added on top of it."""
    ins = {'k': SymScalar('f8', 0, 2)}

    def impl(tp, X):
        r = tp.misc.phantom.shepp3d(size, dtype=dtype) if dtype else tp.misc.phantom.shepp3d(size)
        return r, r * X['k']

    T1 = [[1., .6900, .920, .810, 0., 0., 0., 90., 90., 90.], [-.8, .6624, .874, .780, 0., -.0184, 0., 90., 90., 90.],
          [-.2, .1100, .310, .220, .22, 0., 0., -108., 90., 100.], [-.2, .1600, .410, .280, -.22, 0., 0., 108., 90., 100.],
          [.1, .2100, .250, .410, 0., .35, -.15, 90., 90., 90.], [.1, .0460, .046, .050, 0., .1, .25, 90., 90., 90.],
          [.1, .0460, .046, .050, 0., -.1, .25, 90., 90., 90.], [.1, .0460, .023, .050, -.08, -.605, 0., 90., 90., 90.],
          [.1, .0230, .023, .020, 0., -.606, 0., 90., 90., 90.], [.1, .0230, .046, .020, .06, -.605, 0., 90., 90., 90.]]

    def check(X, R):
        r, kr = R
        yield ('shape', tuple(r.shape) == tuple(shape))
        yield ('type', str(r.dtype) == (dtype or 'float32'))
        a = S.plain(kr)
        ax = [axis(n) for n in shape]
        ps = [dict(zip(KEYS, row)) for row in T1]
        for ix in np.ndindex(*shape):
            v, edge = value(ps, [ax[d][ix[d]] for d in range(3)])
            if edge is True:
                continue
            yield ('voxel %s' % list(ix), close(sc(a[ix]), T.mul(sc(X['k']), max(v, 0.0)), 1e-5, 1e-5))
    return Case('shepp3d %s %s' % (size, dtype), ins, impl, check, funcs=[P + 'shepp3d', P + 'phantom'])


def cases(tier):
    deep = tier == 'thorough'
    r = [
        phantom_case('three intensities 4x5x6', (4, 5, 6), [E1, E2, E3], [(0, 'A'), (1, 'A'), (2, 'A')]),
        phantom_case('intensity twice in float64 5x5x5', (5, 5, 5), [E1, E2, E1], [(0, 'A'), (2, 'A')], dtype='float64'),
        phantom_case('three intensities 20x17x14', (20, 17, 14), [E1, E2, E3], [(0, 'A'), (1, 'A'), (2, 'A')]),
        phantom_case('flat volume 1x4x5', (1, 4, 5), [dict(E3, A=1.), E2], [(0, 'A')]),
        phantom_case('no ellipsoid 2x3x4', (2, 3, 4), [], []),
    ]
    for k in ('x0', 'y0', 'z0', 'a', 'b', 'c'):
        r.append(phantom_case('%s of the second 5x4x3' % k, (5, 4, 3), [E1, E2], [(1, k)]))
    r.append(phantom_case('centre and intensity 4x3x5', (4, 3, 5), [E2], [(0, 'x0'), (0, 'y0'), (0, 'z0'), (0, 'A')]))
    r.append(phantom_case('semi-axes 3x4x5', (3, 4, 5), [E3], [(0, 'a'), (0, 'b'), (0, 'c')]))
    for k in ('phi', 'theta', 'psi'):
        r.append(phantom_case('%s 3x4x3' % k, (3, 4, 3), [E3], [(0, k)]))
    r.append(shepp_case(6, (6, 6, 6), None))
    r.append(shepp_case((16, 12, 14), (16, 12, 14), 'float64'))
    if deep:
        r.append(phantom_case('all six lengths 3x2x4', (3, 2, 4), [E2], [(0, k) for k in ('a', 'b', 'c', 'x0', 'y0', 'z0')]))
        r.append(phantom_case('all three angles 4x3x3', (4, 3, 3), [E2], [(0, k) for k in ('phi', 'theta', 'psi')]))
        r.append(shepp_case((40, 37, 41), (40, 37, 41), None))
    return r
