"""Reference updates of the ray-driven reconstruction algorithms, and a case builder on the public recon()."""
import math
import numpy as np
from symt.harness import Sym, Case, close, sc
from . import _spec as S

FUNCS = ['tomopy.recon.algorithm.recon', 'tomopy.recon.algorithm.init_tomo', 'tomopy.recon.algorithm._init_recon', 'tomopy.recon.algorithm._dist_recon',
         'tomopy.recon.algorithm._get_algorithm_kwargs', 'tomopy.sim.project.get_center', 'tomopy.util.mproc.get_ncore_slices', 'tomopy.util.extern.recon']


class Geo:
    def __init__(self, name, theta, dx, dy=1, center=None, nx=None, ny=None, blocks=None, search=True, slim=False, loose=False, free=None):
        self.name = name
        self.theta = np.asarray(theta, dtype='f4')
        self.dt, self.dx, self.dy = len(self.theta), dx, dy
        self.nx, self.ny = nx or dx, ny or dx
        self.blocks = blocks
        self.slim, self.loose, self.free = slim, loose, free
        cs = center if isinstance(center, (list, tuple)) else [center] * dy
        self.default_center = center is None
        got = {}
        self.centers, self.A = [], []
        for c in cs:
            c0 = dx / 2.0 if c is None else float(c)
            if c0 not in got:
                got[c0] = self._find(c0, search)
            self.centers.append(got[c0][0])
            self.A.append(got[c0][1])

    def _find(self, c0, search):
        for k in range(400 if search else 1):
            c = float(np.float32(c0 + 0.0171 * k))
            A = S.System(self.theta, self.dx, c, self.nx, self.ny)
            if not search or self._good(A):
                return c, A
        raise RuntimeError('no clean geometry for ' + self.name)

    def _good(self, A):
        if A.bad:
            return False
        for r in A.rows.values():
            if r and sum(l * l for _, l in r) < 0.02:
                return False
            if any(l < 0.004 for _, l in r) and not self.loose:
                return False
        for bl in self.blocks or [range(self.dt)]:
            col = {}
            for p in bl:
                for d in range(self.dx):
                    for ix, l in A.rows[p, d]:
                        col[ix] = col.get(ix, 0) + l
            if self.slim and not any(0.014 < v < 0.04 for v in col.values()):      # a pixel hardly touched
                return False
            if any(v < (0.014 if self.slim or self.loose else 0.05) for v in col.values()):
                return False
        return True

    def center_arg(self):
        if len(set(self.centers)) == 1:
            return self.centers[0]
        return np.array(self.centers, dtype='f4')


# --------------------------------------------------------------- reference updates, one slice
def ref_fbp(A, data, x, **kw):
    x = x.copy()
    for (p, d), row in A.rows.items():
        for ix, l in row:
            x[ix] = x[ix] + l * data[p, d]
    return x


def ref_art(A, data, x, num_iter=1, **kw):
    x = x.copy()
    for _ in range(num_iter):
        for p in range(A.dt):
            for d in range(A.dx):
                row = A.rows[p, d]
                n2 = sum(l * l for _, l in row)
                if n2 == 0:
                    continue
                u = (data[p, d] - A.fwd(x, p, d)) / n2
                for ix, l in row:
                    x[ix] = x[ix] + l * u
    return x


def ref_sirt(A, data, x, num_iter=1, blocks=None, **kw):
    x = x.copy()
    for _ in range(num_iter):
        for bl in blocks or [range(A.dt)]:
            upd, col = {}, {}
            for p in bl:
                for d in range(A.dx):
                    row = A.rows[p, d]
                    n2 = sum(l * l for _, l in row)
                    if n2 == 0:
                        continue
                    u = (data[p, d] - A.fwd(x, p, d)) / n2
                    for ix, l in row:
                        upd[ix] = upd.get(ix, 0.0) + l * u
                        col[ix] = col.get(ix, 0.0) + l
            for ix in upd:
                x[ix] = x[ix] + upd[ix] / col[ix]
    return x


def ref_em(A, data, x, num_iter=1, blocks=None, **kw):
    x = x.copy()
    for _ in range(num_iter):
        for bl in blocks or [range(A.dt)]:
            upd, col = {}, {}
            for p in bl:
                for d in range(A.dx):
                    row = A.rows[p, d]
                    if not row:
                        continue
                    u = data[p, d] / A.fwd(x, p, d)
                    for ix, l in row:
                        upd[ix] = upd.get(ix, 0.0) + l * u
                        col[ix] = col.get(ix, 0.0) + l
            for ix in upd:
                x[ix] = x[ix] * (upd[ix] / col[ix])
    return x


def ref_grad(A, data, x, num_iter=1, step=0.1, tikh=None, reg=None, **kw):
    r = 1.0 / math.sqrt(A.dx * A.dt / 2.0)
    x = x.copy()
    for ix in np.ndindex(*x.shape):
        x[ix] = x[ix] / r
    for _ in range(num_iter):
        g = S.obj(x.shape)
        g[...] = 0.0
        for (p, d), row in A.rows.items():
            u = r * A.fwd(x, p, d) - data[p, d]
            for ix, l in row:
                g[ix] = g[ix] + 2.0 * r * l * u
        if tikh is not None:
            for ix in np.ndindex(*x.shape):
                g[ix] = g[ix] + 2.0 * tikh * (x[ix] - reg[ix])
        for ix in np.ndindex(*x.shape):
            x[ix] = x[ix] - step * g[ix]
    for ix in np.ndindex(*x.shape):
        x[ix] = x[ix] * r
    return x


def fixed(b):
    return Sym(b.shape, b.dtype, free=[], base=b)


def init_base(geo, seed, lo=0.5, hi=2.0):
    r = np.random.RandomState(1000 + seed)
    return (lo + (hi - lo) * r.rand(geo.dy, geo.nx, geo.ny)).astype('f4')


def recon_case(name, alg, geo, ref, data=(-2.0, 2.0), init='sym', kwargs=None, refkw=None, tol=2e-3, ncore=1, nchunk=None, order='fifo',
               sinogram_order=False, seed=0, timeout=None, free=None, samples=2, dtype='f4', cpus=None, pass_center=True):
    """init: 'sym' all symbolic, 'conc' a fixed non-uniform positive image, None the library default."""
    free = free or geo.free
    if geo.free and init == 'sym':
        init = 'conc'
    kwargs = dict(kwargs or {})
    refkw = dict(refkw or {})
    shape = (geo.dy, geo.dt, geo.dx) if sinogram_order else (geo.dt, geo.dy, geo.dx)
    inputs = {'tomo': Sym(shape, dtype, data[0], data[1], free=free, base=None if free is None else
                          (data[0] + (data[1] - data[0]) * np.random.RandomState(7 + seed).rand(*shape)).astype(dtype))}
    b = init_base(geo, seed)
    if init == 'sym':
        inputs['init'] = Sym((geo.dy, geo.nx, geo.ny), 'f4', -2.0, 2.0)
    elif init == 'conc':
        inputs['init'] = fixed(b)
    if geo.nx != geo.dx or geo.ny != geo.dx:
        kwargs.setdefault('num_gridx', geo.nx)
        kwargs.setdefault('num_gridy', geo.ny)

    def impl(tp, X):
        i = X.get('init')
        kw = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kwargs.items()}
        c = geo.center_arg() if pass_center else None
        return tp.recon(X['tomo'], geo.theta.copy(), center=c, algorithm=alg, init_recon=i, ncore=ncore, nchunk=nchunk, sinogram_order=sinogram_order, **kw)

    def check(X, Y):
        yield ('shape of the reconstruction', tuple(Y.shape) == (geo.dy, geo.nx, geo.ny))
        yield ('dtype of the reconstruction', Y.dtype == np.float32)
        t = S.plain(X['tomo'])
        Yp = S.plain(Y)
        for s in range(geo.dy):
            ds = t[s] if sinogram_order else t[:, s]
            if init == 'sym':
                x0 = np.array(S.plain(X['init'])[s], dtype=object)
            elif init == 'conc':
                x0 = np.array(b[s].astype('f8').tolist(), dtype=object)
            else:
                x0 = S.obj((geo.nx, geo.ny))
                x0[...] = float(np.float32(1e-6))
            dso = np.array(ds.tolist(), dtype=object)
            kw2 = {k: (v[s] if k == 'reg' else v) for k, v in refkw.items()}
            R = ref(geo.A[s], dso, x0, **kw2)
            for ix in np.ndindex(geo.nx, geo.ny):
                yield ('%s: slice %d pixel %s' % (alg, s, list(ix)), close(sc(Yp[(s,) + ix]), sc(R[ix]), tol))

    return Case(name, inputs, impl, check, funcs=FUNCS + ['tomopy.util.extern.c_' + alg], order=order, timeout=timeout, samples=samples, cpus=cpus,
                bounds='%d angles x %d slices x %d bins onto %d x %d pixels, %s' % (geo.dt, geo.dy, geo.dx, geo.nx, geo.ny,
                                                                                    'data and start image symbolic' if init == 'sym' else 'data symbolic'))


def scale_geos():
    """Sizes beyond those with every value symbolic: some measurements symbolic."""
    a = S.angles
    yield Geo('many slices', a(2), 2, dy=37, center=[1.0 + 0.01 * (k % 3) for k in range(37)], free=[(k % 2, k, (k // 2) % 2) for k in (0, 1, 8, 9, 17, 18, 31, 32, 36)])
    th = a(75)
    bad = {p for p, _ in S.System(th, 2, 1.13, 3, 3).bad}
    th = np.delete(th, sorted(bad))
    yield Geo('many angles', th, 2, center=1.13, nx=3, ny=3, loose=True, free=[(p, 0, p % 2) for p in (0, 1, 31, 33, 47, len(th) - 3, len(th) - 1)])
    yield Geo('large grid', a(3), 12, nx=23, ny=21, loose=True, free=[(0, 0, 0), (1, 0, 5), (2, 0, 11), (2, 0, 3)])
    yield Geo('many bins', a(2), 33, nx=7, ny=9, loose=True, free=[(0, 0, 16), (1, 0, 15), (1, 0, 19), (0, 0, 13)])


def geos(tier='quick'):
    a = S.angles
    yield Geo('plain', a(5), 5, dy=2)
    yield Geo('three slices', a(4), 4, dy=3)
    yield Geo('even', a(6), 6)
    yield Geo('off centre', a(5), 5, center=1.9)
    yield Geo('centre per slice', a(4), 4, dy=3, center=[1.6, 2.31, 2.7])
    yield Geo('wide grid', a(5), 5, dy=2, nx=4, ny=6)
    yield Geo('tall grid', a(5), 5, dy=2, nx=6, ny=4)
    yield Geo('small grid', a(5), 6, nx=3, ny=3)
    yield Geo('big grid', a(6), 4, nx=6, ny=6)
    yield Geo('negative angles', -a(5), 5)
    yield Geo('full turn', a(8, 0.07, 0.07 + 2 * math.pi), 5)
    yield Geo('beyond a turn', a(6, 6.5, 12.9), 4)
    yield Geo('negative beyond a turn', -a(6, 6.7, 12.9), 4)
    yield Geo('unordered angles', [2.2, 0.35, 1.3, 2.9], 4, dy=2)
    yield Geo('one angle', [0.6], 4)
    yield Geo('slim crossings', [0.47], 5, slim=True)
    if tier == 'thorough':
        for k in range(12):
            r = np.random.RandomState(k)
            yield Geo('random %d' % k, r.uniform(-12, 12, 3 + k % 5), 4 + k % 4, dy=1 + k % 3, nx=3 + k % 5, ny=3 + (k // 2) % 5)
        yield Geo('large', a(10), 10)
        yield Geo('large wide', a(9), 8, nx=7, ny=11)
