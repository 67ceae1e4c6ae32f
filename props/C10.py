"""Work is split into an exact partition, and the pieces are put together again."""
import numpy as np
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ()
BOUNDS = 'axis sizes 1 to 16, 0 to 20 workers, chunk sizes 0 to 18 as symbolic integers on machines of 1, 3 and 8 cores; arrays up to 5 x 4 x 4 with every value symbolic, split along any axis'
OUTSIDE = 'larger arrays; process start-up and pickling (workers are run one after another in this process on copies of their arguments)'
ASSUMPTIONS = ['multiprocessing.Pool runs every task exactly once, in any order', 'shared memory blocks are seen by all workers']


def cover(n, slcs):
    """Indices covered by a list of slices or indices, in order."""
    out = []
    for s in slcs:
        out += list(range(n))[s] if isinstance(s, slice) else [s]
    return out


def part_case(name, fn, cpus, chunk):
    ins = {'n': SymScalar('i8', 1, 16), 'ncore': SymScalar('i8', 0, 20)}
    if chunk is None:
        pass
    elif chunk == 'sym':
        ins['nchunk'] = SymScalar('i8', 1, 18)

    def impl(tp, X):
        from symt import ctx as C
        k = X.get('nchunk') if chunk == 'sym' else chunk
        nc, slcs = getattr(tp.util.mproc, fn)(X['n'], X['ncore'], k)
        return nc, [((s.start, s.stop) if isinstance(s, slice) else s) for s in slcs]

    def check(X, R):
        nc, parts = R
        n = X['n']
        pos = 0
        ok = True
        yield ('at least one piece', len(parts) >= 1)
        for i, q in enumerate(parts):
            if isinstance(q, tuple):
                a, b = q
                yield ('piece %d starts where the last ended' % i, close(sc(a), sc(pos), 0.4))
                yield ('piece %d is not empty' % i, sc(b) > sc(a))
                if chunk == 'sym':
                    yield ('piece %d is not longer than the chunk' % i, sc(b) - sc(a) <= X['nchunk'])
                    if i < len(parts) - 1:
                        yield ('only the last piece is shorter than the chunk', sc(b) - sc(a) >= X['nchunk'])
                pos = b
            else:
                yield ('index %d' % i, close(sc(q), sc(pos), 0.4))
                pos = sc(pos) + 1
        if chunk == 'sym':
            yield ('the pieces reach the end', sc(pos) >= n)
            last = parts[-1]
            yield ('no piece beyond the end', sc(last[0]) < n)
        else:
            yield ('the pieces reach the end', close(sc(pos), sc(n), 0.4))
        if chunk is None:
            sizes = [sc(b) - sc(a) for a, b in parts]
            for i in range(1, len(sizes)):
                yield ('balanced', sizes[i - 1] - sizes[i] <= 1)
                yield ('balanced', sizes[i - 1] - sizes[i] >= 0)
                yield ('balanced', sizes[0] - sizes[i] <= 1)
            yield ('one piece per worker', close(sc(nc), len(parts), 0.4))
        yield ('at least one worker', sc(nc) >= 1)
        if not fn.startswith('get_worker'):
            yield ('not more workers than items', sc(nc) <= n)

    def worker(X):
        # this one leaves the number of workers to the caller
        return [sc(X['ncore']) <= X['n'], sc(X['ncore']) >= 1]

    return Case(name, ins, impl, check, cpus=cpus, funcs=['tomopy.util.mproc.' + fn], assume=worker if fn.startswith('get_worker') else None, max_paths=20000, timeout=240, validate=cpus == 8, bounds='sizes 1..16, workers 0..20, machine with %d cores' % cpus)


def nchunk_case(name, cpus):
    def impl(tp, X):
        return tp.util.mproc.get_ncore_nchunk(X['n'], X['ncore'], X['nchunk'])

    def check(X, R):
        nc, k = sc(R[0]), sc(R[1])
        n = X['n']
        yield ('at least one worker', nc >= 1)
        yield ('workers of this machine only', nc <= cpus)
        yield ('workers asked for', nc <= X['ncore'])
        yield ('chunk not beyond the axis', k <= n)
        yield ('chunk asked for', k <= X['nchunk'])
        yield ('chunk shortened only to the axis', k - X['nchunk'] >= 0 if False else (k - n >= 0) | (k - X['nchunk'] >= 0))
        yield ('no idle worker', (nc - 1) * k < n)

    return Case(name, {'n': SymScalar('i8', 1, 16), 'ncore': SymScalar('i8', 1, 20), 'nchunk': SymScalar('i8', 1, 18)}, impl, check, cpus=cpus, funcs=['tomopy.util.mproc.get_ncore_nchunk'],
                max_paths=20000, timeout=240, validate=cpus == 8, bounds='sizes 1..16, workers 1..20, machine with %d cores' % cpus)


def default_chunk_case(name, cpus, with_ncore):
    def impl(tp, X):
        return tp.util.mproc.get_ncore_nchunk(X['n'], X['ncore'] if with_ncore else None, None)

    def check(X, R):
        nc, k = sc(R[0]), sc(R[1])
        yield ('at least one worker', nc >= 1)
        yield ('workers of this machine only', nc <= cpus)
        yield ('the chunks cover the axis', nc * k >= X['n'])
        yield ('chunk of at least one', k >= 1)
        yield ('no chunk longer than needed', (k - 1) * nc < X['n'])

    return Case(name, {'n': SymScalar('i8', 1, 16), 'ncore': SymScalar('i8', 1, 20)}, impl, check, cpus=cpus, funcs=['tomopy.util.mproc.get_ncore_nchunk'], max_paths=20000, timeout=240,
                validate=cpus == 8, bounds='sizes 1..16, machine with %d cores' % cpus)


def f_scale(a, k, add=0.0):
    return a * k + add


def f_inplace(a, k):
    a[...] = a * k


def f_two(a, b):
    return a * 2 + b


def f_sum_into(a, b, c):
    c[...] = a - b * 3


def f_rowsum(a):
    return a + a.sum(axis=1, keepdims=True)


def f_2d(a, k):
    assert a.ndim == 2
    return a * k


def f_partial(a):
    if a.shape[0] == 1:
        raise KeyError('worker failed')
    return a


def jobs_case(name, shape, axis, call, spec, nin=1, dtypes=('f4', 'f4', 'f4'), order='fifo', alias=None, out=None, tol=1e-4):
    """call(mproc, arrays) -> result; spec(arrays) -> expected; inputs must not change unless listed in alias."""
    ins = {'a%d' % i: Sym(shape, dtypes[i], -3, 3) for i in range(nin)}
    if out:
        ins['out'] = Sym(shape, out, -9, 9)

    def impl(tp, X):
        A = [X['a%d' % i] for i in range(nin)] + ([X['out']] if out else [])
        Y = call(tp.util.mproc, A, tp)
        return [Y] + A

    def check(X, Y):
        A = [X['a%d' % i] for i in range(nin)]
        yield from arrays_close('result', Y[0], spec(A), tol)
        for i in range(nin):
            if i != alias:
                yield from arrays_close('input %d unchanged' % i, Y[1 + i], A[i], 1e-6)

    return Case(name, ins, impl, check, order=order, funcs=['tomopy.util.mproc.distribute_jobs', 'tomopy.util.mproc._arg_parser', 'tomopy.util.dtype.as_sharedmem'], bounds='arrays %s, axis %d' % (shape, axis))


def ranks_case(name, chunk):
    """Several processes (as MPI would start them) take the pieces between them."""
    ins = {'n': SymScalar('i8', 1, 12), 'ncore': SymScalar('i8', 1, 7), 'procs': SymScalar('i8', 1, 5)}
    if chunk == 'sym':
        ins['nchunk'] = SymScalar('i8', 1, 7)

    def impl(tp, X):
        m = tp.util.mproc
        keep = m.get_nproc, m.get_rank, m.barrier
        k = X.get('nchunk') if chunk == 'sym' else chunk
        P = int(X['procs'])
        out = []
        try:
            m.get_nproc, m.barrier = (lambda: P), (lambda: None)
            for r in range(P):
                m.get_rank = lambda r=r: r
                out.append([((s.start, s.stop) if isinstance(s, slice) else s) for s in m.get_worker_ncore_slices(X['n'], X['ncore'], k)[1]])
            m.get_nproc = lambda: 1
            whole = [((s.start, s.stop) if isinstance(s, slice) else s) for s in m.get_worker_ncore_slices(X['n'], X['ncore'], k)[1]]
        finally:
            m.get_nproc, m.get_rank, m.barrier = keep
        return out, whole

    def check(X, R):
        out, whole = R
        flat = [q for part in out for q in part]
        yield ('every piece goes to one process', len(flat) == len(whole))
        for i, (p, q) in enumerate(zip(flat, whole)):
            for a, b in zip(p if isinstance(p, tuple) else (p,), q if isinstance(q, tuple) else (q,)):
                yield ('piece %d' % i, close(sc(a), sc(b), 0.4))
    return Case(name, ins, impl, check, funcs=['tomopy.util.mproc.get_worker_ncore_slices'], max_paths=4000, timeout=120, forks=True, bounds='axis 1 to 12, 1 to 7 workers, 1 to 5 processes')


def cases(tier):
    yield ranks_case('several processes, even split', None)
    yield ranks_case('several processes, single items', 0)
    yield ranks_case('several processes, chunks', 'sym')
    for cpus in (8, 1, 3):
        for fn in ('get_ncore_slices', 'get_worker_ncore_slices'):
            yield part_case('%s: even split, %d cores' % (fn, cpus), fn, cpus, None)
            yield part_case('%s: single items, %d cores' % (fn, cpus), fn, cpus, 0)
            yield part_case('%s: chunks, %d cores' % (fn, cpus), fn, cpus, 'sym')
        yield nchunk_case('get_ncore_nchunk: chunks, %d cores' % cpus, cpus)
        yield default_chunk_case('get_ncore_nchunk: no chunk, %d cores' % cpus, cpus, True)
        yield default_chunk_case('get_ncore_nchunk: no chunk and no workers, %d cores' % cpus, cpus, False)
    sh = (5, 3, 4)
    for axis in (0, 1, 2):
        for nc, nk in ((1, None), (2, None), (3, 1), (2, 2), (8, 3), (None, 7), (None, None)):
            for order in ('fifo', 'lifo'):
                if order == 'lifo' and nc == 1:
                    continue
                yield jobs_case('scale axis %d workers %s chunk %s %s' % (axis, nc, nk, order), sh, axis,
                                lambda m, A, tp, axis=axis, nc=nc, nk=nk: m.distribute_jobs(A[0], f_scale, axis, args=(2.5,), kwargs={'add': 1.0}, ncore=nc, nchunk=nk), lambda A: A[0] * 2.5 + 1.0, order=order)
        yield jobs_case('in place axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: m.distribute_jobs(A[0], f_inplace, axis, args=(3.0,), ncore=2, nchunk=2), lambda A: A[0] * 3.0)
        yield jobs_case('two arrays axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: m.distribute_jobs((A[0], A[1]), f_two, axis, ncore=2, nchunk=1), lambda A: A[0] * 2 + A[1], nin=2, order='lifo')
        yield jobs_case('third array is the output axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: m.distribute_jobs([A[0], A[1], A[2]], f_sum_into, axis, ncore=2), lambda A: A[0] - A[1] * 3, nin=3)
        yield jobs_case('output array given axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: m.distribute_jobs((A[0], A[1]), f_two, axis, ncore=3, out=A[2]), lambda A: A[0] * 2 + A[1], nin=2, out='f4')
        yield jobs_case('output is an input axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: m.distribute_jobs((A[0], A[1]), f_two, axis, ncore=2, out=A[0]), lambda A: A[0] * 2 + A[1], nin=2, alias=0)
        yield jobs_case('single items axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: m.distribute_jobs(A[0], f_2d, axis, args=(4.0,), ncore=2, nchunk=0), lambda A: A[0] * 4.0, order='lifo')
        yield jobs_case('result of an earlier call axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: chain(m, A[0], axis, lambda x: x), lambda A: A[0] * 7.0 + 2.0)
        yield jobs_case('crop of an earlier result axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: chain(m, A[0], axis, lambda x: x[1:, 1:]), lambda A: A[0][1:, 1:] * 7.0 + 2.0)
        yield jobs_case('reversed earlier result axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: chain(m, A[0], axis, lambda x: x[::-1]), lambda A: A[0][::-1] * 7.0 + 2.0)
        yield jobs_case('transposed earlier result axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: chain(m, A[0], axis, lambda x: np.swapaxes(x, 0, 1)), lambda A: np.swapaxes(A[0], 0, 1) * 7.0 + 2.0)
        for tag, view in (('leading part', lambda x: x[:3]), ('trailing part', lambda x: x[2:]), ('one of its items', lambda x: x[1:2])):
            yield jobs_case('%s of an earlier result beside another array axis %d' % (tag, axis), sh, axis, lambda m, A, tp, axis=axis, view=view: beside(m, A, axis, view), lambda A, view=view: view(A[0]) * 7.0 + view(A[1]), nin=2)
            yield jobs_case('output is the %s of an earlier result axis %d' % (tag, axis), sh, axis, lambda m, A, tp, axis=axis, view=view: into(m, A, axis, view), lambda A, view=view: view_spec(A, view))
        yield jobs_case('transposed input axis %d' % axis, sh, axis, lambda m, A, tp, axis=axis: m.distribute_jobs(np.swapaxes(A[0], 0, 2), f_scale, axis, args=(2.5,), ncore=2), lambda A: np.swapaxes(A[0], 0, 2) * 2.5)
    yield jobs_case('row sums need the whole row', sh, 0, lambda m, A, tp: m.distribute_jobs(A[0], f_rowsum, 0, ncore=2), lambda A: A[0] + A[0].sum(axis=1, keepdims=True))
    yield jobs_case('arrays of different types', sh, 0, lambda m, A, tp: m.distribute_jobs((A[0], A[1]), f_two, 0, ncore=2, out=A[2]), lambda A: A[0] * 2 + A[1], nin=2, dtypes=('f8', 'f4'), out='f8')
    yield jobs_case('integer array beside a float one', sh, 0, lambda m, A, tp: m.distribute_jobs((A[0], A[1]), f_two, 0, ncore=2), lambda A: A[0] * 2 + A[1], nin=2, dtypes=('i4', 'f4'))

    def fails(tp, X):
        try:
            tp.util.mproc.distribute_jobs(X['a'], f_partial, 0, ncore=2, nchunk=2)
        except Exception as e:
            return type(e).__name__
        return 'no exception'

    for order in ('fifo', 'lifo'):
        yield Case('failure of a worker is reported %s' % order, {'a': Sym((5, 2, 2), 'f4', -1, 1)}, fails, lambda X, Y: [('the error of the worker reaches the caller', Y == 'KeyError')], order=order,
                   funcs=['tomopy.util.mproc.distribute_jobs'])


def chain(m, a, axis, view):
    first = m.distribute_jobs(a, f_scale, axis, args=(3.5,), ncore=1)
    keep = first.copy()
    second = m.distribute_jobs(view(first), f_scale, axis, args=(2.0,), kwargs={'add': 2.0}, ncore=1)
    # the first result must survive
    return second + view(first - keep) * 1000


def beside(m, A, axis, view):
    first = m.distribute_jobs(A[0], f_scale, axis, args=(3.5,), ncore=1)
    keep = first.copy()
    second = m.distribute_jobs((view(first), view(A[1])), f_two, axis, ncore=2)
    return second + view(first - keep) * 1000


def into(m, A, axis, view):
    first = m.distribute_jobs(A[0], f_scale, axis, args=(3.5,), ncore=1)
    m.distribute_jobs(view(A[0]), f_scale, axis, args=(-1.5,), ncore=2, out=view(first))
    return first


def view_spec(A, view):
    y = A[0] * 3.5
    view(y)[...] = view(A[0]) * -1.5
    return y
