"""Alignment of projections: what the loops register, move, add up and return."""
import contextlib
import io
import math
import numpy as np
from symt import terms as T
from symt.harness import Sym, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ('recon', 'gridrec')
BOUNDS = 'up to 4 projections of 4 x 7 pixels (thorough: padded to 7 x 9) with up to three symbolic values each set, padded by up to 2; up to 3 iterations; SIRT, Landweber-like gradient and gridrec reconstructions; whole-pixel shifts for every projection and iteration'
OUTSIDE = 'the registration itself (skimage), convergence, fractional shifts (C21), written image files; data in which a symbolic value is the largest'
ASSUMPTIONS = ['the registration returns the shifts of a table and is given two images', 'operations on symbolic values are over the reals']
P = 'tomopy.prep.alignment.'


def moved(img, dr, dc):
    """Image that shows at (r, c) what was at (r + dr, c + dc)."""
    out = np.zeros_like(img)
    h, w = img.shape
    r0, r1, c0, c1 = max(0, -dr), min(h, h - dr), max(0, -dc), min(w, w - dc)
    if r0 < r1 and c0 < c1:
        out[r0:r1, c0:c1] = img[r0 + dr:r1 + dr, c0 + dc:c1 + dc]
    return out


def align(which, name, shape, table, free, pad=None, alg='sirt', center=None, blur=None, rin=None, rout=None, dt='f4', debug=True, ups=None, sign=1, **kw):
    """table[n][m]: shift (rows, columns) that the registration reports for projection m in iteration n."""
    iters = len(table)
    rs = np.random.RandomState(len(name))
    base = rs.randint(-3, 4, shape).astype(dt)
    big = np.unravel_index(int(np.prod(shape)) // 2 + 1, shape)
    base[big] = 8 * sign
    scl = 8.0
    assert big not in free
    ins = {'a': Sym(shape, dt, -4, 4, base=base, free=free)}
    ang = S.angles(shape[0])
    q = pad or (0, 0)
    if which == 'joint':
        s0 = (shape[1] + 2 * q[1], shape[2] + 2 * q[0], shape[2] + 2 * q[0])
        ins['rec'] = Sym(s0, 'f4', 0, 1, base=np.full(s0, 1e-12, 'f4'), free=[])
    args = {}
    for k, v in (('pad', pad), ('blur', blur), ('rin', rin), ('rout', rout), ('upsample_factor', ups), ('center', center)):
        if v is not None:
            args[k] = v
    npad = ((0, 0), (q[1], q[1]), (q[0], q[0]))

    def impl(tp, X):
        import skimage.registration as reg
        m = tp.prep.alignment
        seen = []
        count = [0]

        def stub(a, b, *rest, **opts):
            n, k = divmod(count[0], shape[0])
            count[0] += 1
            seen.append((a.copy(), b.copy(), opts.get('upsample_factor')))
            # errors of the registration are not the shifts
            return np.array(table[n][k], float), 77.0 + n, 33.0 - k
        keep = m.__dict__.get('phase_cross_correlation'), reg.phase_cross_correlation
        a = X['a']
        was = a.copy()
        try:
            reg.phase_cross_correlation = stub
            if keep[0] is not None:
                m.phase_cross_correlation = stub
            with contextlib.redirect_stdout(io.StringIO()):
                y, sx, sy, conv = getattr(m, 'align_' + which)(a, ang, iters=iters, algorithm=alg, debug=debug, **args)
        finally:
            reg.phase_cross_correlation = keep[1]
            if keep[0] is not None:
                m.phase_cross_correlation = keep[0]
        # the same by hand
        orig = np.pad(was / scl, npad, mode='constant', constant_values=0)
        cur = orig.copy()
        tot = np.zeros((shape[0], 2), int)
        want = []
        rec = None
        for n in range(iters):
            if which == 'seq':
                rec = tp.recon(cur.copy(), ang, center=center, algorithm=alg)
            else:
                if rec is None:
                    rec = X['rec']
                rec = tp.recon(cur.copy(), ang, center=center, algorithm=alg, init_recon=rec.copy(), **({} if alg == 'gridrec' else {'num_iter': 1}))
            sim = tp.project(rec, ang, center=center, pad=False)
            if blur is not False:
                lo, hi = 0.5 if rin is None else rin, 0.8 if rout is None else rout
                want.append((m.blur_edges(cur.copy(), lo, hi), m.blur_edges(sim.copy(), lo, hi)))
            else:
                want.append((cur.copy(), sim))
            for k in range(shape[0]):
                d = np.array(table[n][k], int)
                tot[k] += d
                if which == 'seq':
                    cur[k] = moved(cur[k], *d)
                else:
                    cur[k] = moved(orig[k], *tot[k])
        result = cur * scl if which == 'seq' else orig * scl
        return dict(y=y, sx=sx, sy=sy, conv=conv, seen=seen, want=want, result=result, a=a, was=was)

    def check(X, R):
        tot = np.array(table, float).sum(0)
        yield ('one registration per projection and iteration', len(R['seen']) == iters * shape[0])
        for k in range(shape[0]):
            yield ('total shift along the rows %d' % k, close(sc(R['sx'][k]), float(tot[k][0]), 1e-6))
            yield ('total shift along the columns %d' % k, close(sc(R['sy'][k]), float(tot[k][1]), 1e-6))
        if debug:
            for n in range(iters):
                yield ('size of the shifts of iteration %d' % n, close(sc(R['conv'][n]), math.sqrt(float((np.array(table[n], float) ** 2).sum())), 1e-5))
        for n in range(iters):
            for k in range(shape[0]):
                a, b, u = R['seen'][n * shape[0] + k]
                yield ('accuracy of the registration', u == (10 if ups is None else ups))
                yield from arrays_close('projection %d registered in iteration %d' % (k, n), a, R['want'][n][0][k], 1e-4)
                yield from arrays_close('simulation %d registered in iteration %d' % (k, n), b, R['want'][n][1][k], 1e-3)
        yield from arrays_close('result', R['y'], R['result'], 1e-3)
        yield from arrays_close('input unchanged', R['a'], R['was'], 1e-6)
    return Case('%s: %s' % (which, name), ins, impl, check, funcs=[P + 'align_' + which, P + 'scale', P + 'blur_edges'], bounds='%s, %d iterations' % (shape, iters), timeout=200, **kw)


def shifts(iters, n, seed, far=1):
    r = np.random.RandomState(seed)
    return [[tuple(int(v) for v in r.randint(-far, far + 1, 2)) for _ in range(n)] for _ in range(iters)]


def cases(tier):
    for w in ('seq', 'joint'):
        yield align(w, 'one iteration', (3, 3, 5), shifts(1, 3, 1), [(0, 1, 2), (2, 2, 4)])
        yield align(w, 'three iterations', (3, 3, 5), shifts(3, 3, 2), [(1, 0, 1)], debug=False)
        yield align(w, 'padded', (3, 2, 4), shifts(2, 3, 3), [(0, 1, 2), (2, 0, 0)], pad=(2, 1))
        yield align(w, 'padded, no blur', (2, 3, 3), shifts(2, 2, 4, 2), [(0, 1, 2), (1, 2, 0)], pad=(1, 2), blur=False)
        yield align(w, 'no blur', (4, 2, 5), shifts(2, 4, 5), [(3, 1, 1)], blur=False, ups=4)
        yield align(w, 'wide blur', (3, 4, 6), shifts(2, 3, 6), [(1, 2, 3), (2, 1, 1)], rin=0.1, rout=0.95)
        yield align(w, 'gridrec', (3, 2, 6), shifts(2, 3, 7), [(1, 1, 3)], alg='gridrec')
        yield align(w, 'off centre', (3, 2, 6), shifts(2, 3, 8), [(0, 0, 3)], center=2.7, alg='sirt')
        yield align(w, 'gradient', (3, 2, 5), shifts(2, 3, 9), [(2, 0, 3)], alg='grad', blur=False)
        yield align(w, 'far', (2, 3, 4), [[(2, -3), (-1, 2)], [(-2, 2), (3, 0)]], [(0, 2, 1), (1, 0, 3)], blur=False)
        yield align(w, 'negative values', (3, 2, 5), shifts(2, 3, 10), [(1, 0, 3), (2, 1, 4)], sign=-1)
        yield align(w, 'double precision', (2, 2, 5), shifts(2, 2, 11), [(1, 0, 3)], dt='f8', pad=(0, 1))
        yield align(w, 'axis of each slice', (3, 3, 6), shifts(2, 3, 12), [(1, 0, 3), (0, 2, 2)], center=np.array([2.2, 3.1, 2.7], 'f4'), ups=3)
        yield align(w, 'no shifts', (2, 2, 4), [[(0, 0)] * 2] * 2, [(1, 0, 3)], rin=0.0, rout=1.0)
        yield align(w, 'four iterations', (2, 2, 4), shifts(4, 2, 13), [(1, 0, 3)], blur=False)
        yield align(w, 'art', (2, 2, 4), shifts(2, 2, 14), [(1, 1, 2)], alg='art')
    if tier == 'thorough':
        for w in ('seq', 'joint'):
            for k in range(4):
                yield align(w, 'thorough %d' % k, (4, 3, 7), shifts(2 + k % 2, 4, 20 + k, 2), [(k, 1, 2), (0, 3, 5)], pad=(k % 2, k // 2))
