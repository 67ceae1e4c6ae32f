"""Which elements of shared arrays the tasks of a thread pool write: two tasks must not write the same one."""
import concurrent.futures as cf
import numpy as np


class Race(Exception):
    pass


def arrays(x, out, depth=0):
    if isinstance(x, np.ndarray):
        b = x
        while isinstance(np.ndarray.base.__get__(b), np.ndarray):
            b = np.ndarray.base.__get__(b)
        out[id(b)] = b
    elif isinstance(x, dict) and depth < 3:
        for v in x.values():
            arrays(v, out, depth + 1)
    elif isinstance(x, (list, tuple, set)) and depth < 3:
        for v in x:
            arrays(v, out, depth + 1)
    elif callable(x) and depth < 3:
        for c in getattr(x, '__closure__', None) or ():
            try:
                arrays(c.cell_contents, out, depth + 1)
            except ValueError:
                pass
        arrays(getattr(x, '__self__', None), out, depth + 1)
        arrays(getattr(x, 'args', None), out, depth + 1)
        arrays(getattr(x, 'keywords', None), out, depth + 1)
    return out


def _flat(a):
    """The elements in memory order."""
    a = a.view(np.ndarray)
    if a.flags.c_contiguous or a.flags.f_contiguous:
        return a.ravel(order='K')
    return _order(a).ravel()


def _order(f):
    order = sorted(range(f.ndim), key=lambda d: -abs(f.strides[d]))
    return f.transpose(order)[tuple(slice(None, None, -1) if f.strides[d] < 0 else slice(None) for d in order)]


def _changed(new, old):
    if new.dtype == object:
        return [i for i in range(new.size) if new[i] is not old[i]]
    if not new.size:
        return []
    return np.nonzero((new.view('u1').reshape(new.size, -1) != old.view('u1').reshape(new.size, -1)).any(1))[0].tolist()


class Team:
    """Every task starts from the state before the first one; what each of them changes is put together at the end. That
    is what they leave behind in any schedule, unless two of them touch the same element."""
    def __init__(self):
        self.n = 0
        self.init = {}       # id -> (array, contents before the first task)
        self.by = {}         # id -> element -> task
        self.new = {}        # id -> element -> value
        self.merged = False
        self.race = None

    def run(self, fn, a, k):
        t, self.n = self.n, self.n + 1
        for q, (r, o) in self.init.items():         # written in between by the thread that hands out the work
            now, was = _flat(r), self._state(q)
            for i in _changed(now, was):
                o[i] = now[i]
                self.by[q].pop(i, None)
                self.new[q].pop(i, None)
        self._show(False)
        for r in arrays((fn, a, k), {}).values():
            if id(r) not in self.init:
                self.init[id(r)] = (r, _flat(r).copy())
        try:
            return fn(*a, **k)
        finally:
            for q, (r, o) in self.init.items():
                new = _flat(r)
                ch = _changed(new, o)
                w, v = self.by.setdefault(q, {}), self.new.setdefault(q, {})
                for i in ch:
                    v[i] = new[i]
                    if w.setdefault(i, t) != t and self.race is None:
                        self.race = 'data race: tasks %d and %d of a thread pool both write element %d of an array of %d' % (w[i], t, i, new.size)
            self.merged = True       # the state now is that of this task alone
            self._show(False)

    def _state(self, q):
        val = self.init[q][1].copy()
        if self.merged:
            for i, x in self.new.get(q, {}).items():
                val[i] = x
        return val

    def _show(self, merged):
        if merged == self.merged:
            return
        self.merged = merged
        for q, (r, o) in self.init.items():
            if not r.flags.writeable or not self.new.get(q):
                continue
            _put(r.view(np.ndarray), self._state(q))

    def merge(self):
        self._show(True)


def _put(f, val):
    """The inverse of ravel in memory order."""
    if f.flags.c_contiguous:
        f.reshape(-1)[:] = val
    elif f.flags.f_contiguous:
        f.T.reshape(-1)[:] = val
    else:
        g = _order(f)
        g[...] = val.reshape(g.shape)


class Future(cf.Future):
    team = None

    def result(self, timeout=None):
        self.team.merge()
        return super().result(timeout)

    def exception(self, timeout=None):
        self.team.merge()
        return super().exception(timeout)


class Pool(cf.ThreadPoolExecutor):
    """Runs the tasks of a real pool one by one and reports the race, if any, when the pool is left."""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self._team = Team()

    def submit(self, fn, /, *a, **k):
        f = Future()
        f.team = self._team
        try:
            f.set_result(self._team.run(fn, a, k))
        except BaseException as e:
            f.set_exception(e)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *x) for x in zip(*its)]
        return iter([f.result() for f in fs])

    def __exit__(self, *a):
        r = super().__exit__(*a)
        self._team.merge()
        if self._team.race:
            raise Race(self._team.race)
        return r


def fill_new(np):
    """New arrays hold a pattern, not what another array left there."""
    def pattern(f):
        def g(*a, **k):
            r = f(*a, **k)
            if r.dtype != object and r.size:
                (r.view(np.ndarray).reshape(-1) if r.flags.c_contiguous else _order(r.view(np.ndarray)).reshape(-1)).view('u1')[:] = 0xa5
            return r
        return g
    np.empty, np.empty_like = pattern(np.empty), pattern(np.empty_like)
