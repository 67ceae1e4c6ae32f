"""Morphological inpainting."""
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ('misc',)
BOUNDS = 'images up to 4 x 4 and volumes up to 3 x 3 x 3 with every known value symbolic and not zero (positive or of both signs away from zero), fixed masks (and all masks of a 2 x 2 image), windows of half width 1 and 2, random numbers symbolic'
OUTSIDE = 'larger images; values that are exactly zero (the algorithm counts them as missing); windows of half width 0'
ASSUMPTIONS = ['rand() returns any non-negative number', 'operations on symbolic values are over the reals']
FN = ['tomopy.misc.corr.inpainter_morph', 'Inpainter_morph_main']


def box(shape, ix, h):
    return [tuple(j) for off in np.ndindex(*(2 * h + 1,) * len(shape)) for j in [[i + o - h for i, o in zip(ix, off)]] if all(0 <= k < n for k, n in zip(j, shape))]


def median(vs):
    return T.rank(len(vs) // 2, vs)


def inpaint(a, mask, h, iterations, kind):
    """Reference: grow into the mask from known neighbours, one layer per pass; then revisit the whole mask."""
    nd = a.ndim
    full = (2 * h + 1) ** nd
    val = {ix: (0.0 if mask[ix] else sc(a[ix])) for ix in np.ndindex(*a.shape)}
    known = {ix: not mask[ix] for ix in val}

    def visit(todo):
        new = {}
        for ix in todo:
            if not any(known[j] for j in box(a.shape, ix, 1)):
                continue
            js = [j for j in box(a.shape, ix, h) if known[j]]
            if kind == 'median':
                new[ix] = median([val[j] for j in js])
            else:
                w = [math.exp(-sum((p - q) ** 2 for p, q in zip(ix, j)) / (2.0 * full)) for j in js]
                r = 0.0
                for j, wj in zip(js, w):
                    r = r + val[j] * (wj / math.fsum(w))
                new[ix] = r
        for ix, v in new.items():
            val[ix], known[ix] = v, True
        return len(new)
    while visit([ix for ix in val if not known[ix]]):
        pass
    for _ in range(iterations):
        visit([ix for ix in val if mask[ix]])
    return val


def prep(name, shape, mask, dt, lo, hi, kind, h, iterations, axis, view, sign):
    m = np.zeros(shape, bool)
    for ix in mask:
        m[ix] = True
    ins = {'a': Sym(shape, dt, lo, hi)}

    def call(tp, X, m):
        a = X['a'] if view is None else view(X['a'])
        mm = m if view is None else view(m)
        keep = a.copy()
        Y = tp.misc.corr.inpainter_morph(a, mm, size=h, iterations=iterations, inpainting_type=kind, axis=axis)
        return Y, a, keep

    def assume(X):
        if sign != 'both':
            return []
        # away from zero
        out = []
        for v in S.plain(X['a']).flat:
            out.append(T.or_(sc(v) >= 0.25, sc(v) <= -0.25))
        return out
    return m, ins, call, assume


def common(Y, now, was, m, dt='f4'):
    a = S.plain(was)
    yield ('shape', tuple(Y.shape) == a.shape)
    yield ('dtype', Y.dtype == np.float32)
    for ix in np.ndindex(*a.shape):
        if not m[ix]:
            yield ('known value stays %s' % list(ix), close(sc(S.plain(Y)[ix]), sc(a[ix]), 1e-5))
    yield from arrays_close('input unchanged', now, was, 1e-6)


def parts(a, y, m, axis):
    """Slices that are inpainted on their own."""
    if axis is None:
        if a.ndim == 3 and a.shape[0] == 1:
            return [(a[0], y[0], m[0])]
        return [(a, y, m)]
    return [(np.take(a, i, axis), np.take(y, i, axis), np.take(m, i, axis)) for i in range(a.shape[axis])]


def exact(name, shape, mask, kind, h=1, iterations=0, axis=None, view=None, dt='f4', lo=0.5, hi=4, sign='+', vacuous=False):
    m0, ins, call, assume = prep(name, shape, mask, dt, lo, hi, kind, h, iterations, axis, view, sign)

    def check(X, R):
        Y, now, was = R
        m = m0 if view is None else view(m0)
        yield from common(Y, now, was, m)
        for k, (a, y, mm) in enumerate(parts(S.plain(was), S.plain(Y), m, axis)):
            if mm.all():
                continue
            v = inpaint(a, mm, h, iterations, kind)
            for ix in np.ndindex(*a.shape):
                if mm[ix]:
                    yield ('part %d inpainted value %s' % (k, list(ix)), close(sc(y[ix]), v[ix], 2e-5))

    return Case(name, ins, lambda tp, X: call(tp, X, m0), check, assume=assume, funcs=FN, bounds='%s half width %d, %d masked' % (shape, h, len(mask)),
                sample_filter=None if sign != 'both' else lambda X: (abs(X['a']) >= 0.25).all())


def hull(name, shape, mask, kind, h=1, iterations=0, axis=None, view=None, lo=0.5, hi=4, dt='f4', sign='+'):
    """Inpainted values lie between the smallest and the largest known value that can reach them."""
    m0, ins, call, assume = prep(name, shape, mask, dt, lo, hi, kind, h, iterations, axis, view, sign)

    def impl(tp, X):
        n = 1 if hasattr(X['a'], '_pd') else (40 if kind == 'random' else 1)
        return [call(tp, X, m0) for _ in range(n)]

    def check(X, RR):
        m = m0 if view is None else view(m0)
        for Y, now, was in RR:
            yield from common(Y, now, was, m)
            for k, (a, y, mm) in enumerate(parts(S.plain(was), S.plain(Y), m, axis)):
                src = [sc(a[ix]) for ix in np.ndindex(*a.shape) if not mm[ix]]
                if not src:
                    for ix in np.ndindex(*a.shape):
                        yield ('nothing known %s' % list(ix), close(sc(y[ix]), 0.0, 1e-6))
                    continue
                top = bot = src[0]
                for v in src[1:]:
                    top, bot = T.maxv(top, v), T.minv(bot, v)
                for ix in np.ndindex(*a.shape):
                    if mm[ix]:
                        yield ('part %d not above the known values %s' % (k, list(ix)), sc(y[ix]) <= T.add(top, 1e-3))
                        yield ('part %d not below the known values %s' % (k, list(ix)), sc(y[ix]) >= T.sub(bot, 1e-3))

    return Case(name, ins, impl, check, assume=assume, funcs=FN, bounds='%s half width %d, %d masked' % (shape, h, len(mask)), validate=kind != 'random', samples=4,
                sample_filter=None if sign != 'both' else lambda X: (abs(X['a']) >= 0.25).all())


def anymask(name, shape, kind, iterations=0):
    """Every mask of a tiny image."""
    ins = {'a': Sym(shape, 'f4', 0.5, 4), 'm': Sym(shape, '?')}

    def impl(tp, X):
        n = 1 if hasattr(X['a'], '_pd') or kind != 'random' else 20
        return [tp.misc.corr.inpainter_morph(X['a'], X['m'], size=1, iterations=iterations, inpainting_type=kind) for _ in range(n)]

    def check(X, RR):
        a, m = S.plain(X['a']), S.plain(X['m'])
        ixs = list(np.ndindex(*shape))
        for Y in RR:
            y = S.plain(Y)
            for ix in ixs:
                yield ('known value stays %s' % list(ix), T.or_(T.eq(sc(y[ix]), sc(a[ix])), sc(m[ix])))
                some = False
                for j in ixs:
                    some = T.or_(some, T.and_(T.not_(sc(m[j])), sc(a[j]) >= T.sub(sc(y[ix]), 1e-3)))
                less = False
                for j in ixs:
                    less = T.or_(less, T.and_(T.not_(sc(m[j])), sc(a[j]) <= T.add(sc(y[ix]), 1e-3)))
                none = True
                for j in ixs:
                    none = T.and_(none, sc(m[j]))
                yield ('between known values %s' % list(ix), T.or_(T.or_(T.not_(sc(m[ix])), none), T.and_(some, less)))
                yield ('nothing known %s' % list(ix), T.or_(T.not_(none), T.eq(sc(y[ix]), 0.0)))

    return Case(name, ins, impl, check, funcs=FN, bounds='%s, all masks' % (shape,), validate=kind != 'random', samples=4)


def T3(a):
    return a.transpose(2, 0, 1)


def tr(a):
    return a.T


def cases(tier):
    hole = [(1, 1)]
    band = [(1, 0), (1, 1), (1, 2), (1, 3)]
    corner = [(0, 0), (0, 1), (1, 0), (1, 1)]
    deep = [(i, j) for i in range(3) for j in range(4) if (i, j) not in ((0, 0), (2, 3))]
    for kind in ('mean', 'median'):
        f = exact if kind == 'mean' else hull
        for nm, mk in (('hole', hole), ('band', band), ('corner', corner), ('deep', deep), ('nothing', [])):
            yield f('2-D %s %s' % (kind, nm), (3, 4), mk, kind)
            if kind == 'mean':
                yield f('2-D %s %s, wide window' % (kind, nm), (3, 4), mk, kind, h=2)
        yield f('2-D %s one more iteration' % kind, (3, 4), hole + [(1, 2)], kind, iterations=1)
        yield f('2-D %s of doubles' % kind, (3, 3), hole, kind, dt='f8')
        yield f('2-D %s transposed view' % kind, (3, 4), band, kind, view=tr)
        yield f('2-D %s both signs' % kind, (3, 3), hole, kind, lo=-4, hi=4, sign='both')
        yield hull('2-D %s all masked' % kind, (2, 3), list(np.ndindex(2, 3)), kind)
        for ax, sh in ((0, (2, 3, 3)), (1, (3, 2, 3)), (2, (3, 3, 2))):
            mk = [tuple(np.insert([1, 1], ax, 0)), tuple(np.insert([0, 2], ax, 1)), tuple(np.insert([0, 1], ax, 1))]
            yield f('axis %d %s' % (ax, kind), sh, mk, kind, axis=ax)
            yield f('axis %d %s wide window' % (ax, kind), sh, mk, kind, axis=ax, h=2)
            yield f('axis %d %s thin' % (ax, kind), tuple(np.insert([1, 4], ax, 2)), [tuple(np.insert([0, 2], ax, 1))], kind, axis=ax)
        yield f('axis 1 %s transposed view' % kind, (3, 3, 2), [(1, 1, 0), (1, 1, 1)], kind, axis=1, view=T3)
        yield f('one slice %s' % kind, (1, 3, 3), [(0, 1, 1), (0, 0, 0)], kind)
        for nm, mk in (('hole', [(1, 1, 1)]), ('two', [(0, 0, 0), (1, 1, 1)]), ('plane', [(1, i, j) for i in range(2) for j in range(3)]),
                       ('deep', [ix for ix in np.ndindex(3, 2, 3) if ix not in ((0, 0, 0), (2, 1, 2))])):
            yield exact('3-D %s %s' % (kind, nm), (3, 2, 3), mk, kind)
            yield exact('3-D %s %s, wide window' % (kind, nm), (3, 2, 3), mk, kind, h=2)
        yield exact('3-D %s one more iteration' % kind, (2, 2, 3), [(0, 0, 1), (1, 1, 1)], kind, iterations=1)
        yield exact('3-D %s transposed view' % kind, (2, 3, 2), [(0, 0, 1), (1, 1, 1)], kind, view=T3)
        yield exact('3-D %s both signs' % kind, (2, 2, 2), [(0, 0, 1)], kind, lo=-4, hi=4, sign='both')
    for it in (2, 3):
        yield exact('2-D mean, %d more iterations' % it, (3, 4), hole + [(1, 2)], 'mean', iterations=it)
        yield exact('3-D mean, %d more iterations' % it, (2, 2, 3), [(0, 0, 1), (1, 1, 1)], 'mean', iterations=it)
    yield exact('2-D median of the window', (3, 4), [(0, 0), (1, 2)], 'median')
    yield exact('2-D median of the window, one value', (1, 2), [(0, 0)], 'median')
    for nm, mk in (('hole', hole), ('two', [(0, 0), (1, 2)]), ('nothing', [])):
        yield hull('2-D random %s' % nm, (3, 3), mk, 'random')
        yield hull('2-D random %s both signs' % nm, (3, 3), mk, 'random', lo=-4, hi=4, sign='both')
    yield hull('2-D random one more iteration', (2, 3), [(0, 1)], 'random', iterations=1)
    yield hull('2-D random wide window', (2, 3), [(0, 1)], 'random', h=2)
    yield hull('axis 1 random', (2, 2, 2), [(0, 0, 1), (1, 1, 1)], 'random', axis=1)
    yield hull('3-D random', (2, 2, 2), [(0, 0, 1)], 'random')
    yield hull('3-D random two', (2, 2, 2), [(0, 0, 1), (1, 1, 0)], 'random')
    yield hull('3-D random all masked', (2, 2, 2), list(np.ndindex(2, 2, 2)), 'random')
    for kind in ('mean', 'median', 'random'):
        yield anymask('every mask, %s' % kind, (2, 2), kind)
    if tier == 'thorough':
        r = np.random.RandomState(5)
        for k in range(10):
            mk = [ix for ix in np.ndindex(4, 4) if r.rand() < 0.5]
            yield exact('thorough 2-D mean %d' % k, (4, 4), mk, 'mean', h=1 + k % 2, iterations=k % 2)
            mk = [ix for ix in np.ndindex(3, 3, 3) if r.rand() < 0.6]
            yield exact('thorough 3-D mean %d' % k, (3, 3, 3), mk, 'mean', h=1 + k % 2, iterations=k % 2)
            yield exact('thorough 3-D median %d' % k, (3, 3, 3), mk, 'median', h=1)
