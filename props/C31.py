"""Empirical cumulative distribution of a data set."""
import numpy as np
from symt import terms as T
from symt.harness import Sym, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ()
BOUNDS = 'up to 6 symbolic values (thorough: 8) with and without ties, 1 to 9 steps; up to 40 fixed values'
OUTSIDE = 'values that are not finite; data of more than one axis'
ASSUMPTIONS = ['operations on symbolic values are over the reals']
F = 'tomopy.misc.npmath.discrete_cdf'


def kept(n, steps):
    """Which of n sorted values are steps of the staircase."""
    if steps is None or n <= steps:
        return list(range(n))
    return list(range(0, n, -(-n // steps)))


def cdf(name, n, steps=None, base=None, dtype='f8', **kw):
    ins = {'d': Sym((n,), dtype, -4, 4, **({} if base is None else {'base': np.array(base, dtype), 'free': []}))}

    def impl(tp, X):
        d = X['d'].copy()
        f = tp.misc.npmath.discrete_cdf
        x, y = f(X['d']) if steps is None else f(X['d'], steps)
        return x, y, X['d'], d

    def check(X, R):
        x, y, now, was = R
        v = [sc(e) for e in S.plain(X['d'])]
        k = kept(n, steps)
        ok = all(hasattr(e, '__len__') and not hasattr(e, 'keys') for e in (x, y))
        yield ('two sequences', ok)
        if not ok:
            return
        yield ('length', len(x) == 2 * len(k) and len(y) == 2 * len(k))
        if steps is not None and n:
            yield ('no more steps than asked for', len(x) <= 2 * steps)
        yield from arrays_close('data unchanged', now, was, 0)
        x, y = S.plain(x) if len(x) else [], S.plain(y) if len(y) else []
        for i, r in enumerate(k):
            want = T.rank(r, v) if base is None else sorted(float(e) for e in v)[r]
            for s in (0, 1):
                yield ('value of step %d, %s' % (i, 'end' if s else 'start'), close(sc(x[2 * i + s]), want, 0))
                yield ('height of step %d, %s' % (i, 'end' if s else 'start'), close(sc(y[2 * i + s]), (i + s) / len(k), 1e-12))
    return Case(name, ins, impl, check, funcs=[F], bounds='%d values' % n, **kw)


def cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3, 5, 6):
        yield cdf('%d values' % n, n)
    yield cdf('four values, float32', 4, dtype='f4')
    yield cdf('no values', 0, base=[])
    for n, k in ((5, 5), (5, 4), (5, 3), (6, 4), (6, 2), (4, 1), (3, 9)):
        yield cdf('%d values, %d steps' % (n, k), n, k)
    yield cdf('ties', 7, base=[1, 0, 1, 3, 1, 0, 3])
    yield cdf('counted', 9, 4, base=[4, -1, 4, 2, 0, -3, 2, 2, 1], dtype='i4')
    rng = np.random.RandomState(3)
    yield cdf('many values', 40, base=rng.uniform(-4, 4, 40))
    for k in (7, 13, 39, 40):
        yield cdf('many values, %d steps' % k, 40, k, base=rng.uniform(-4, 4, 40))
    if deep:
        for n in (7, 8):
            yield cdf('%d values' % n, n)
            for k in (2, 3, 5):
                yield cdf('%d values, %d steps' % (n, k), n, k)
