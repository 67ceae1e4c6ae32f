"""Normalisation of projections."""
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ('prep',)
BOUNDS = 'up to 7 projections of 3 x 5 pixels, up to 6 flat and 4 dark frames, every pixel of all frames symbolic'
OUTSIDE = 'larger frames; float32 rounding; air regions wider than the detector; projections half-way between two flat-field positions (either neighbour is accepted)'
ASSUMPTIONS = ['operations on symbolic values are over the reals', 'numexpr evaluates its expressions elementwise']


def log(x):
    return T.uf('log', x)


def div(a, b):
    return T.div(sc(a), sc(b))


def med(xs):
    s = sorted_terms(xs)
    n = len(s)
    return s[n // 2] if n % 2 else T.div(T.add(s[n // 2 - 1], s[n // 2]), 2.0)


def sorted_terms(xs):
    from symt.ir import sort_terms
    return sort_terms([sc(x) for x in xs])


def mean(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r / len(xs)


def frame(f, how, ix):
    """Averaged value of a stack of frames (or a single one) at a pixel."""
    f = S.plain(f)
    if f.ndim == 2:
        return f[ix]
    xs = [f[(k,) + ix] for k in range(f.shape[0])]
    return mean(xs) if how == 'mean' else med(xs)


def norm1(a, flat, dark, cutoff):
    v = div(a - dark, T.maxv(sc(flat - dark), float(np.float32(1e-6))))
    return v if cutoff is None else T.minv(v, float(np.float32(cutoff)))


def eq(a, b):
    return close(sc(a), sc(b), 1e-3, 1e-4)


def normalize(name, shape, nflat, ndark, how='mean', cutoff=None, out=None, dtypes=('f4', 'f4', 'f4'), ncore=None, default=False):
    p = shape[1:]
    ins = {'arr': Sym(shape, dtypes[0], 0, 100), 'flat': Sym(p if nflat == 0 else (nflat,) + p, dtypes[1], 0, 100), 'dark': Sym(p if ndark == 0 else (ndark,) + p, dtypes[2], 0, 100)}
    if out == 'other':
        ins['out'] = Sym(shape, 'f4', -9, 9)

    def impl(tp, X):
        kw = {} if default else {'averaging': how}
        if cutoff is not None:
            kw['cutoff'] = cutoff
        if out:
            kw['out'] = X['arr'] if out == 'inplace' else X['out']
        keep = [X['arr'].copy(), X['flat'].copy(), X['dark'].copy()]
        Y = tp.normalize(X['arr'], X['flat'], X['dark'], ncore=ncore, **kw)
        return Y, [] if out is None else [kw['out']], [X['flat'], X['dark']] + ([] if out == 'inplace' else [X['arr']]), keep[1:] + ([] if out == 'inplace' else keep[:1])

    def check(X, R):
        Y, O, now, was = R
        yield ('shape', tuple(Y.shape) == shape)
        yield ('dtype', Y.dtype == np.float32)
        a = S.plain(X['arr'])
        for ix in np.ndindex(*shape):
            v = norm1(a[ix], frame(X['flat'], how, ix[1:]), frame(X['dark'], how, ix[1:]), cutoff)
            yield ('normalised value %s' % list(ix), eq(S.plain(Y)[ix], v))
            for o in O:
                yield ('output array %s' % list(ix), eq(S.plain(o)[ix], v))
        for a, b in zip(now, was):
            yield from arrays_close('inputs unchanged', a, b, 1e-6)

    return Case(name, ins, impl, check, funcs=['tomopy.prep.normalize.normalize'], bounds='%s, %d flats, %d darks' % (shape, nflat, ndark))


def nf(name, n, loc, per, ndark=0, how='mean', cutoff=None, p=(1, 2), out=None):
    nfl = len(loc) * per
    ins = {'tomo': Sym((n,) + p, 'f4', 0, 100), 'flats': Sym((nfl,) + p, 'f4', 0, 200), 'dark': Sym(p if ndark == 0 else (ndark,) + p, 'f4', 0, 60)}

    def impl(tp, X):
        kw = {} if out is None else {'out': X['tomo']}
        keep = X['tomo'].copy()
        Y = tp.normalize_nf(X['tomo'], X['flats'], X['dark'], list(loc), cutoff=cutoff, averaging=how, **kw)
        return Y, X['tomo'], keep

    def check(X, R):
        Y, now, was = R
        yield ('shape', tuple(Y.shape) == (n,) + p)
        t = S.plain(X['tomo'])
        fl = S.plain(X['flats'])
        for i in range(n):
            d = sorted((abs(i - l), k) for k, l in enumerate(loc))
            if len(d) > 1 and d[1][0] == d[0][0]:
                continue
            k = d[0][1]
            for ix in np.ndindex(*p):
                f = med([fl[(j,) + ix] for j in range(k * per, (k + 1) * per)])
                yield ('projection %d pixel %s uses the flats of position %d' % (i, list(ix), loc[k]),
                       eq(S.plain(Y)[(i,) + ix], norm1(t[(i,) + ix], f, frame(X['dark'], how, ix), cutoff)))
        if out is None:
            yield from arrays_close('input unchanged', now, was, 1e-6)
        else:
            yield from arrays_close('in place', now, Y, 1e-6)

    return Case(name, ins, impl, check, funcs=['tomopy.prep.normalize.normalize_nf'], bounds='%d projections, flats at %s, %d each' % (n, loc, per))


def roi(name, shape, r, ncore=None, order='fifo', zero=False, lo=0.5, hi=4):
    ins = {'arr': Sym(shape, 'f4', 0 if zero else lo, 0 if zero else hi)}

    def impl(tp, X):
        keep = X['arr'].copy()
        return tp.normalize_roi(X['arr'], roi=list(r), ncore=ncore), X['arr'], keep

    def check(X, R):
        Y, now, was = R
        a = S.plain(X['arr'])
        for i in range(shape[0]):
            bg = mean([a[i, y, x] for y in range(r[0], min(r[2], shape[1])) for x in range(r[1], min(r[3], shape[2]))])
            for ix in np.ndindex(*shape[1:]):
                yield ('projection %d pixel %s' % (i, list(ix)), eq(S.plain(Y)[(i,) + ix], a[(i,) + ix] if zero else div(a[(i,) + ix], bg)))
        yield from arrays_close('input unchanged', now, was, 1e-6)

    return Case(name, ins, impl, check, funcs=['tomopy.prep.normalize.normalize_roi', 'tomopy.util.mproc.distribute_jobs'], bounds='%s' % (shape,), order=order)


def bg(name, shape, air, ncore=None, nchunk=None, order='fifo', lo=0.5, hi=4):
    def impl(tp, X):
        keep = X['t'].copy()
        kw = {} if air is None else {'air': air}
        return tp.normalize_bg(X['t'], ncore=ncore, nchunk=nchunk, **kw), X['t'], keep

    def check(X, R):
        Y, now, was = R
        t = S.plain(X['t'])
        a = air or 1
        nx = shape[2]
        for i in range(shape[0]):
            for y in range(shape[1]):
                row = t[i, y]
                l, r = mean(list(row[:a])), mean(list(row[nx - a:]))
                if hi <= 0:
                    l = r = 1.0
                for x in range(nx):
                    w = l + (r - l) * x / (nx - 1)
                    # multiplied out, so that only products of two unknowns remain
                    yield ('projection %d row %d bin %d' % (i, y, x), eq(S.plain(Y)[i, y, x], div(row[x], w)))
        yield from arrays_close('input unchanged', now, was, 1e-6)

    return Case(name, {'t': Sym(shape, 'f4', lo, hi)}, impl, check, funcs=['tomopy.prep.normalize.normalize_bg', 'normalize_bg'], bounds='%s, air %s' % (shape, air), order=order)


def mlog(name, shape, out=None, dt='f4'):
    def impl(tp, X):
        keep = X['a'].copy()
        kw = {} if out is None else {'out': X['a'] if out == 'inplace' else X['o']}
        Y = tp.minus_log(X['a'], **kw)
        return Y, kw.get('out'), X['a'], keep

    def check(X, R):
        Y, o, now, was = R
        yield ('dtype', Y.dtype == np.float32)
        for ix in np.ndindex(*shape):
            v = T.neg(log(sc(S.plain(X['a'])[ix])))
            yield ('-log %s' % list(ix), eq(S.plain(Y)[ix], v))
            if o is not None:
                yield ('output array %s' % list(ix), eq(S.plain(o)[ix], v))
        if out != 'inplace':
            yield from arrays_close('input unchanged', now, was, 1e-6)

    ins = {'a': Sym(shape, dt, 1 if dt[0] in 'iu' else 0.01, 9)}
    if out == 'other':
        ins['o'] = Sym(shape, 'f4', -9, 9)
    return Case(name, ins, impl, check, funcs=['tomopy.prep.normalize.minus_log'], bounds='%s' % (shape,))


def cases(tier):
    yield mlog('minus_log', (2, 2, 3))
    yield mlog('minus_log in place', (2, 2, 3), out='inplace')
    yield mlog('minus_log into an array', (2, 2, 3), out='other')
    yield mlog('minus_log of double data', (2, 2, 2), dt='f8')
    yield mlog('minus_log of integers', (2, 2, 2), dt='u2')
    s = (3, 2, 3)
    yield normalize('normalize defaults', s, 2, 2, default=True)
    for how in ('mean', 'median'):
        for nfl, nd in ((0, 0), (0, 3), (3, 0), (1, 1), (2, 3), (4, 2), (5, 4)):
            yield normalize('normalize %s %d flats %d darks' % (how, nfl, nd), s, nfl, nd, how)
    for out in ('inplace', 'other'):
        yield normalize('normalize %s' % out, s, 2, 2, out=out)
        yield normalize('normalize %s cut off' % out, s, 2, 2, out=out, cutoff=1.4)
    yield normalize('normalize cut off', s, 2, 2, cutoff=1.25)
    yield normalize('normalize cut off at zero', s, 2, 2, cutoff=0.0)
    yield normalize('normalize negative cut off', s, 1, 1, cutoff=-0.5)
    yield normalize('normalize integer frames', s, 2, 2, dtypes=('u2', 'u2', 'u2'))
    yield normalize('normalize integer frames median', s, 3, 3, 'median', dtypes=('u2', 'u2', 'u2'))
    yield normalize('normalize double frames', s, 2, 3, dtypes=('f8', 'f8', 'f8'))
    yield normalize('normalize one projection', (1, 2, 2), 2, 2, ncore=1)
    for how in ('mean', 'median'):
        yield nf('nearest flats %s, two positions' % how, 6, [0, 5], 1, 2, how)
        yield nf('nearest flats %s, three darks' % how, 4, [0, 3], 2, 3, how)
    yield nf('nearest flats, one position', 3, [0], 3)
    yield nf('nearest flats, three positions', 7, [0, 3, 6], 2)
    yield nf('nearest flats, uneven positions', 9, [1, 3, 8], 1)
    yield nf('nearest flats, uneven positions 2', 9, [0, 6, 8], 1)
    yield nf('nearest flats, inner positions', 9, [2, 7], 1, cutoff=1.1)
    yield nf('nearest flats, first position late', 8, [5, 6], 3)
    yield nf('nearest flats, gaps of 3, 5 and 1', 10, [0, 3, 8, 9], 1, p=(1, 1))
    yield nf('nearest flats, gaps of 1, 2, 4 and 5', 14, [0, 1, 3, 7, 12], 1, p=(1, 1))
    yield nf('nearest flats cut off at zero', 5, [0, 3], 1, cutoff=0.0, p=(1, 1))
    yield nf('nearest flats in place', 6, [0, 5], 1, 2, out='inplace')
    yield nf('nearest flats far apart', 16, [0, 15], 1, p=(1, 1))
    yield nf('nearest flats, adjacent', 4, [1, 2], 2, p=(1, 1))
    yield roi('roi', (3, 3, 4), [0, 0, 2, 2])
    yield roi('roi default window cut at the edge', (2, 3, 4), [0, 0, 10, 10])
    yield roi('roi asymmetric', (3, 3, 4), [1, 2, 3, 3], ncore=2, order='lifo')
    yield roi('roi one row', (2, 4, 3), [3, 0, 4, 3], ncore=3)
    yield roi('roi of negative values', (2, 2, 3), [0, 1, 2, 3], lo=-4, hi=-0.5)
    yield roi('roi of zeros', (2, 2, 3), [0, 0, 2, 2], zero=True)
    yield bg('background default air', (3, 2, 4), None)
    yield bg('background air 1', (3, 2, 5), 1, ncore=2, order='lifo')
    yield bg('background air 2', (2, 2, 5), 2, ncore=2, nchunk=1)
    yield bg('background air 3 overlapping', (2, 1, 5), 3)
    yield bg('background air all', (1, 2, 3), 3)
    yield bg('background one row', (4, 1, 3), 1, ncore=3)
    yield bg('background not positive', (2, 2, 4), 2, lo=-4, hi=0)
    if tier == 'thorough':
        for n, loc in ((13, [0, 12]), (13, [0, 4, 12]), (14, [0, 5, 7, 13]), (13, [3, 9]), (15, [0, 7, 14])):
            for per in (1, 2, 4):
                yield nf('thorough nearest %d %s %d' % (n, loc, per), n, loc, per, 2, 'median' if per == 2 else 'mean')
        for air in (1, 2, 3, 4, 6):
            yield bg('thorough air %d' % air, (3, 2, 7), air, ncore=2)
        yield normalize('thorough normalize', (6, 3, 5), 6, 5, 'median', cutoff=2)
        yield normalize('thorough normalize mean', (6, 3, 5), 6, 5, cutoff=2)
