"""Simulation helpers: artefacts, angles, probes and propagation."""
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ()
BOUNDS = 'tomograms up to 4 x 3 x 4 with every value and the parameters (levels, amplitudes, limits, angles) symbolic, fixed seeds of the random generator; images up to 6 x 7 for propagation and scanning'
OUTSIDE = 'larger arrays; the distribution of the random numbers themselves; Poisson noise (its values are drawn by the generator from the data)'
ASSUMPTIONS = ['the seeded generator returns the same standard draws in every call', 'operations on symbolic values are over the reals']
P, Q = 'tomopy.sim.project.', 'tomopy.sim.propagate.'
SHAPE = (4, 3, 4)


def base_case(name, ins, impl, check, funcs, **kw):
    def impl2(tp, X):
        was = {k: v.copy() for k, v in X.items() if isinstance(v, np.ndarray)}
        r = impl(tp, X)
        return r, {k: X[k] for k in was}, was

    def check2(X, R):
        r, now, was = R
        yield from check(X, r)
        for k in was:
            yield from arrays_close('input %s unchanged' % k, now[k], was[k], 0)
    return Case(name, ins, impl2, check2, funcs=funcs, **kw)


def gaussian(shape, seed):
    """The noise does not depend on the data, scales with its deviation and is centred on its mean."""
    ins = {'a': Sym(shape, 'f4', -3, 3), 's': SymScalar('f8', 0, 4), 'm': SymScalar('f8', -2, 2)}

    def impl(tp, X):
        out = []
        for mean, std in ((0.0, 1.0), (X['m'], X['s'])):
            np.random.seed(seed)
            out.append(tp.sim.project.add_gaussian(X['a'], mean=mean, std=std))
        return out

    def check(X, R):
        a = S.plain(X['a'])
        u, v = S.plain(R[0]), S.plain(R[1])
        for ix in np.ndindex(*shape):
            z = T.sub(sc(u[ix]), sc(a[ix]))
            yield ('noise %s' % list(ix), close(sc(v[ix]), T.add(T.add(sc(a[ix]), T.mul(z, sc(X['s']))), sc(X['m'])), 2e-5, 1e-5))
    return base_case('gaussian, seed %d' % seed, ins, impl, check, [P + 'add_gaussian'])


def gaussian_default(shape, free):
    """Without a deviation, 5% of the largest value."""
    base = np.linspace(1, 2, int(np.prod(shape))).reshape(shape).astype('f4')
    ins = {'a': Sym(shape, 'f4', 0, 5, base=base, free=free)}

    def impl(tp, X):
        out = []
        for std in (1.0, None):
            np.random.seed(3)
            out.append(tp.sim.project.add_gaussian(X['a'], std=std))
        return out

    def check(X, R):
        a = S.plain(X['a'])
        u, v = S.plain(R[0]), S.plain(R[1])
        top = sc(a.flat[0])
        for x in a.flat:
            top = T.maxv(top, sc(x))
        for ix in np.ndindex(*shape):
            z = T.sub(sc(u[ix]), sc(a[ix]))
            yield ('noise %s' % list(ix), close(sc(v[ix]), T.add(sc(a[ix]), T.mul(z, T.mul(top, 0.05))), 2e-5, 1e-5))
    return base_case('gaussian, default deviation', ins, impl, check, [P + 'add_gaussian'])


def rings(shape, seed):
    ins = {'a': Sym(shape, 'f4', 0.5, 3), 's': SymScalar('f8', 0, 0.5)}

    def impl(tp, X):
        out = []
        for a, std in ((np.ones(shape, 'f4'), 1.0), (X['a'], X['s'])):
            np.random.seed(seed)
            out.append(tp.sim.project.add_rings(a, std=std))
        return out

    def check(X, R):
        a = S.plain(X['a'])
        u, v = S.plain(R[0]), S.plain(R[1])
        for ix in np.ndindex(*shape):
            yield ('same sensitivity in every projection %s' % list(ix), close(sc(u[ix]), sc(u[(0,) + ix[1:]]), 1e-6))
            z = T.sub(sc(u[ix]), 1.0)
            yield ('value %s' % list(ix), close(sc(v[ix]), T.mul(sc(a[ix]), T.add(T.mul(z, sc(X['s'])), 1.0)), 2e-5))
        s = [float(sc(x)) for x in u[0].flat]
        yield ('sensitivities differ', len(set(s)) == len(s))
    return base_case('rings, seed %d' % seed, ins, impl, check, [P + 'add_rings'])


def impulses(which, shape, prob, seed, value=True):
    """Corrupted places do not depend on the data; the others keep their value."""
    base = np.linspace(1, 2, int(np.prod(shape))).reshape(shape).astype('f4')
    ins = {'a': Sym(shape, 'f4', -3, 3) if value else Sym(shape, 'f4', 0, 5, base=base, free=[(0, 1, 1)])}
    if value:
        ins['v'] = SymScalar('f8', 5, 9)

    def call(tp, a, v):
        np.random.seed(seed)
        if which == 'zingers':
            return tp.sim.project.add_zingers(a, f=prob, **({} if v is None else {'sat': v}))
        return tp.sim.project.add_salt_pepper(a, prob=prob, val=v)

    def impl(tp, X):
        return call(tp, np.zeros(shape, 'f4'), 1.0), call(tp, X['a'], X['v'] if value else None), call(tp, np.zeros((9, 20, 20), 'f4'), 1.0).sum()

    def check(X, R):
        a = S.plain(X['a'])
        m, v = S.plain(R[0]), S.plain(R[1])
        top = sc(a.flat[0])
        for x in a.flat:
            top = T.maxv(top, sc(x))
        want = sc(X['v']) if value else 2.0 ** 16 if which == 'zingers' else top
        n = 0
        for ix in np.ndindex(*shape):
            hit = sc(m[ix]) == 1
            n += hit
            yield ('value %s' % list(ix), close(sc(v[ix]), want if hit else sc(a[ix]), 1e-6))
        size = int(np.prod(shape))
        # seven standard deviations
        yield ('fraction of 3600 places', close(sc(R[2]) / 3600, prob, 7 * (prob * (1 - prob) / 3600) ** 0.5 + 1e-6))
        yield ('fraction of corrupted places', n == 0 if prob == 0 else n == size if prob == 1 else 0 < n < size)
    return base_case('%s, probability %s%s' % (which, prob, '' if value else ', default value'), ins, impl, check, [P + 'add_' + which.replace(' ', '_')])


def drift(shape, period):
    ins = {'a': Sym(shape, 'f4', 0.5, 3), 'amp': SymScalar('f8', 0, 1), 'mean': SymScalar('f8', 0.5, 2)}

    def impl(tp, X):
        return tp.sim.project.add_drift(X['a'], amp=X['amp'], period=period, mean=X['mean'])

    def check(X, R):
        a, v = S.plain(X['a']), S.plain(R)
        n = shape[0]
        for ix in np.ndindex(*shape):
            k = ix[0]
            f = T.add(T.add(T.mul(sc(X['amp']), math.sin(2 * math.pi / period * k)), sc(X['mean'])), k / (n - 1.0) if n > 1 else 0.0)
            yield ('value %s' % list(ix), close(sc(v[ix]), T.mul(f, sc(a[ix])), 1e-5))
    return base_case('drift, %d projections, period %s' % (shape[0], period), ins, impl, check, [P + 'add_drift'])


def angles(n):
    ins = {'a': SymScalar('f8', -400, 400), 'b': SymScalar('f8', -400, 400)}

    def impl(tp, X):
        return tp.sim.project.angles(n, X['a'], X['b']), tp.sim.project.angles(n)

    def check(X, R):
        y, d = R
        yield ('number of angles', tuple(y.shape) == (n,) and tuple(d.shape) == (n,))
        for k in range(n):
            t = k / (n - 1.0) if n > 1 else 0.0
            yield ('angle %d' % k, close(sc(y.flat[k]), T.mul(T.add(sc(X['a']), T.mul(T.sub(sc(X['b']), sc(X['a'])), t)), math.pi / 180), 1e-6))
            yield ('default angle %d' % k, close(sc(d.flat[k]), t * math.pi, 1e-9))
    return base_case('%d angles' % n, ins, impl, check, [P + 'angles'])


def gradient(g, pixel):
    nx, ny = g.shape
    gx, gy = np.empty((nx, ny), object), np.empty((nx, ny), object)
    for i in range(nx):
        for j in range(ny):
            a, b = max(i - 1, 0), min(i + 1, nx - 1)
            gx[i, j] = T.mul(T.sub(sc(g[b, j]), sc(g[a, j])), 1.0 / ((b - a) * pixel))
            a, b = max(j - 1, 0), min(j + 1, ny - 1)
            gy[i, j] = T.mul(T.sub(sc(g[i, b]), sc(g[i, a])), 1.0 / ((b - a) * pixel))
    return gx, gy


def tie(shape, pixel, dist, fixed):
    """One of attenuation and refraction is symbolic, the other fixed."""
    r = np.random.RandomState(2)
    b = r.uniform(0.1, 1.0, shape).astype('f8')
    ins = {'mu': Sym(shape, 'f8', 0, 1, base=b, free=[] if fixed == 'mu' else [(0, 1, 2)]), 'delta': Sym(shape, 'f8', -1, 1, base=b, free=[] if fixed == 'delta' else None)}

    def impl(tp, X):
        return tp.sim.propagate.propagate_tie(X['mu'], X['delta'], pixel, dist)

    def check(X, R):
        mu, de, y = S.plain(X['mu']), S.plain(X['delta']), S.plain(R)
        yield ('shape', tuple(R.shape) == shape)
        for m in range(shape[0]):
            i1 = np.empty(shape[1:], object)
            for ix in np.ndindex(*shape[1:]):
                v = sc(mu[(m,) + ix])
                i1[ix] = T.uf('exp', T.neg(v)) if isinstance(v, T.Node) else math.exp(-v)
            gx, gy = gradient(de[m], pixel)
            h = lambda g: np.array([[T.mul(i1[i, j], g[i, j]) for j in range(shape[2])] for i in range(shape[1])], object)
            xx, _ = gradient(h(gx), pixel)
            _, yy = gradient(h(gy), pixel)
            for ix in np.ndindex(*shape[1:]):
                yield ('value %s' % list((m,) + ix), close(sc(y[(m,) + ix]), T.add(i1[ix], T.mul(T.add(xx[ix], yy[ix]), dist)), 1e-5))
    return base_case('transport of intensity, pixel %s, distance %s, fixed %s' % (pixel, dist, fixed), ins, impl, check, [Q + 'propagate_tie'])


def probe(nx, ny, fwhm, center):
    ins = {'m': SymScalar('f8', 0, 5)}

    def impl(tp, X):
        return tp.sim.propagate.probe_gauss(nx, ny, fwhm, center, X['m'])

    def check(X, R):
        yield ('shape', tuple(R.shape) == (nx, ny))
        y = S.plain(R)
        w = fwhm or max(nx, ny) // 2
        cx, cy = center or (nx // 2, ny // 2)
        for i in range(nx):
            for j in range(ny):
                g = 0.5 ** (4 * ((i + 0.5 - cx) ** 2 + (j + 0.5 - cy) ** 2) / float(w) ** 2)
                yield ('probe [%d, %d]' % (i, j), close(sc(y[i, j]), T.mul(sc(X['m']), g), 1e-6))
    return base_case('probe %dx%d width %s centre %s' % (nx, ny, fwhm, center), ins, impl, check, [Q + 'probe_gauss'])


def scan(name, ps, os_, shift, mode, free=None):
    """Positions in raster order, each image the (Fourier) intensity of the probe times the window it covers."""
    r = np.random.RandomState(6)
    pb = r.uniform(0.2, 1.0, ps)
    ob = r.uniform(0.2, 1.0, os_)
    ins = {'p': Sym(ps, 'f8', -2, 2, base=pb, free=[]), 'o': Sym(os_, 'f8', -2, 2, base=ob, free=free)}

    def impl(tp, X):
        kw = {} if mode == 'default' else {'mode': mode}
        if shift:
            return tp.sim.propagate.calc_intensity(X['p'], X['o'], shift[0], shift[1], **kw)
        return tp.sim.propagate.calc_intensity(X['p'], X['o'], **kw)

    def check(X, R):
        p, o, y = S.plain(X['p']), S.plain(X['o']), S.plain(R)
        hx, hy = shift or (ps[0] // 2, ps[1] // 2)
        xs = [i for i in range(0, os_[0], hx) if i + ps[0] <= os_[0]]
        ys = [j for j in range(0, os_[1], hy) if j + ps[1] <= os_[1]]
        yield ('number of images', tuple(R.shape) == (len(xs) * len(ys),) + ps)
        n = 0
        for i in xs:
            for j in ys:
                psi = np.array([[T.mul(sc(p[a, b]), sc(o[i + a, j + b])) for b in range(ps[1])] for a in range(ps[0])], object)
                for u in range(ps[0]):
                    for v in range(ps[1]):
                        if mode == 'far':
                            re = im = 0.0
                            for a in range(ps[0]):
                                for b in range(ps[1]):
                                    t = -2 * math.pi * ((u - ps[0] // 2) * a / ps[0] + (v - ps[1] // 2) * b / ps[1])
                                    re = T.add(re, T.mul(psi[a, b], math.cos(t)))
                                    im = T.add(im, T.mul(psi[a, b], math.sin(t)))
                            w = T.add(T.mul(re, re), T.mul(im, im))
                        else:
                            w = T.mul(T.absv(psi[u, v]), T.absv(psi[u, v]))
                        yield ('image %d [%d, %d]' % (n, u, v), close(sc(y[n, u, v]), w, 1e-6, 1e-6))
                n += 1
    return base_case('scan %s' % name, ins, impl, check, [Q + 'calc_intensity', Q + '_rect_scan_probe', Q + '_rect_scan_coords'], timeout=100)


def cases(tier):
    for s in (1, 2):
        yield gaussian(SHAPE if s == 1 else (1, 2, 2), s)
        yield rings(SHAPE if s == 1 else (2, 1, 3), s)
    yield gaussian_default((2, 2, 3), [(0, 1, 1)])
    for w in ('zingers', 'salt pepper'):
        for p in (0, 0.3, 1):
            yield impulses(w, SHAPE, p, 4)
        yield impulses(w, (2, 2, 3), 0.4, 5, value=False)
    yield drift(SHAPE, 50)
    yield drift((5, 1, 2), 3)
    yield drift((1, 2, 2), 7)
    for n in (1, 2, 5, 8):
        yield angles(n)
    for f in ('mu', 'delta'):
        yield tie((2, 3, 4), 1.0, 1.0, f)
        yield tie((1, 5, 4), 0.5, 2.0, f)
        yield tie((2, 2, 3), 2.0, 0.3, f)
    for a in ((4, 6, None, None), (5, 3, None, None), (4, 4, 3, (1, 2)), (3, 5, 2.5, (0.5, 4)), (1, 2, None, None)):
        if a != (1, 2, None, None):
            yield probe(*a)
    for m in ('near', 'far', 'default'):
        f = [(2, 3)] if m == 'far' else None
        yield scan('half overlap, %s' % m, (2, 4), (4, 6), None, m, f and [(0, 5)])
        yield scan('steps of one, %s' % m, (2, 3), (3, 5), (1, 1), m, f and [(0, 1)])
        yield scan('uneven steps, %s' % m, (3, 2), (6, 7), (2, 3), m, f and [(3, 3)])
        yield scan('probe as large as the object, %s' % m, (3, 3), (3, 3), (1, 2), m, f and [(1, 1)])
