"""Phase retrieval."""
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ()
BOUNDS = 'projections up to 7 x 9 pixels (padded up to 16 x 16) with every value symbolic, up to 4 projections; eight settings of pixel size, distance, energy and regularisation; with and without padding; one to three workers'
OUTSIDE = 'larger projections; other parameter values; projections of a single row or column without padding; float32 rounding (single precision FFT)'
ASSUMPTIONS = ['the FFT computes the discrete Fourier transform', 'operations on symbolic values are over the reals']
H_BAR_C = 6.58211928e-19 * 299792458e+2      # keV cm


def wave_length(energy):
    return 2 * 3.14159265359 * H_BAR_C / energy


def padding(n, pixel, dist, energy):
    """Pixels put on either side: the next power of two that holds the fringes."""
    need = math.ceil(3.14159265359 * wave_length(energy) * dist / pixel ** 2)
    size = 1
    while size < n + need:
        size *= 2
    return int((size - n) * 0.5)


def frequencies(n, pixel):
    """Evenly spaced from -1/2 to 1/2 per pixel, both included, in the order of the transform (lowest first)."""
    m = [-(n - 1) + 2 * k for k in range(n)]
    first = n // 2                   # the smallest that is not negative
    m = m[first:] + m[:first]
    return [0.5 * v / ((n - 1) * pixel) for v in m]


def kernel(ny, nx, pixel, dist, energy, alpha):
    fy, fx = frequencies(ny, pixel), frequencies(nx, pixel)
    lam = wave_length(energy)
    H = np.array([[1.0 / (lam * dist * (a * a + b * b) / (4 * 3.14159265359) + alpha) for b in fx] for a in fy])
    H /= H.max()
    ey = np.exp(2j * np.pi * np.outer(np.arange(ny), np.arange(ny)) / ny)
    ex = np.exp(2j * np.pi * np.outer(np.arange(nx), np.arange(nx)) / nx)
    return (ey @ H @ ex).real / (ny * nx)


def retrieved(img, pixel, dist, energy, alpha, pad):
    ny, nx = img.shape
    py, px = (padding(ny, pixel, dist, energy), padding(nx, pixel, dist, energy)) if pad else (0, 0)
    Y, X = ny + 2 * py, nx + 2 * px
    k = kernel(Y, X, pixel, dist, energy, alpha)
    out = np.empty((ny, nx), object)
    for i in range(ny):
        for j in range(nx):
            w = np.zeros((ny, nx))
            for p in range(Y):
                for q in range(X):
                    w[min(max(p - py, 0), ny - 1), min(max(q - px, 0), nx - 1)] += k[(i + py - p) % Y, (j + px - q) % X]
            r = 0.0
            for p in range(ny):
                for q in range(nx):
                    r = T.add(r, T.mul(float(w[p, q]), sc(img[p, q])))
            out[i, j] = r
    return out


def case(name, shape, pixel=1e-4, dist=1.0, energy=20.0, alpha=1e-3, pad=True, ncore=1, nchunk=None, uniform=False, positional=False, tol=2e-4, **kw):
    ins = {'a': Sym(shape, 'f4', -2, 2, tie=(lambda ix: ix[:1]) if uniform else None)}

    def impl(tp, X):
        a = X['a']
        was = a.copy()
        if positional:
            y = tp.prep.phase.retrieve_phase(a, pixel, dist, energy, alpha, pad, ncore, nchunk)
        else:
            y = tp.prep.phase.retrieve_phase(a, pixel_size=pixel, dist=dist, energy=energy, alpha=alpha, pad=pad, ncore=ncore, nchunk=nchunk)
        return y, a, was

    def check(X, R):
        y, a, was = R
        yield ('shape', tuple(y.shape) == shape)
        yield ('type', y.dtype == np.float32)
        Y, A = S.plain(y), S.plain(X['a'])
        for s in range(shape[0]):
            want = retrieved(A[s], pixel, dist, energy, alpha, pad)
            for ix in np.ndindex(*shape[1:]):
                yield ('value %s' % list((s,) + ix), close(sc(Y[(s,) + ix]), want[ix], tol))
                if uniform:
                    yield ('a uniform projection stays %s' % list((s,) + ix), close(sc(Y[(s,) + ix]), sc(A[(s,) + ix]), tol))
        yield from arrays_close('input unchanged', a, was, 0)
    return Case(name, ins, impl, check, funcs=['tomopy.prep.phase.retrieve_phase', 'tomopy.prep.phase._retrieve_phase'], bounds=str(shape), timeout=200, **kw)


def cases(tier):
    for pad in (True, False):
        t = 'padded' if pad else 'not padded'
        yield case('even sizes, %s' % t, (1, 4, 6), pad=pad)
        yield case('odd sizes, %s' % t, (1, 5, 3), pad=pad)
        yield case('odd rows, %s' % t, (1, 3, 4), pad=pad, energy=35.0)
        yield case('odd columns, %s' % t, (1, 4, 5), pad=pad, dist=0.6, alpha=1e-2)
        yield case('uniform, %s' % t, (2, 4, 5), pad=pad, uniform=True)
        yield case('uniform, %s, odd' % t, (1, 5, 7), pad=pad, uniform=True)
        yield case('three projections, %s' % t, (3, 3, 4), pad=pad)
        yield case('two tasks, %s' % t, (3, 3, 4), pad=pad, ncore=2, order='lifo')
        yield case('tasks of one, %s' % t, (3, 4, 3), pad=pad, ncore=3, nchunk=1)
        yield case('pixel size, %s' % t, (1, 4, 4), pad=pad, pixel=3e-4, dist=20.0, energy=12.0)
        yield case('strong regularisation, %s' % t, (1, 4, 4), pad=pad, alpha=10.0)
        yield case('weak regularisation, %s' % t, (1, 4, 5), pad=pad, alpha=1e-5)
        yield case('positional arguments, %s' % t, (1, 4, 4), pad=pad, pixel=2e-4, dist=3.0, energy=15.0, alpha=0.02, positional=True)
    # one side needs no padding, or none does
    yield case('rows fill the grid', (1, 7, 4), dist=0.2)
    yield case('columns fill the grid', (1, 4, 7), dist=0.2)
    yield case('nothing to pad', (2, 7, 3), dist=0.2)
    yield case('single row', (1, 1, 4), dist=1.0)
    if tier == 'thorough':
        yield case('larger, padded', (2, 7, 9), dist=1.5)
        yield case('larger, not padded', (2, 6, 9), pad=False)
        yield case('larger, odd, not padded', (1, 9, 7), pad=False)
        yield case('wide padding', (1, 5, 5), dist=5.0)
        yield case('chunks of two', (4, 4, 4), ncore=2, nchunk=2, dist=0.5)
