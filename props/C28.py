"""Wrapped back ends (ASTRA, lprec), driven with a stand-in for the wrapped library."""
import sys
import types
import numpy as np
from symt import terms as T
from symt.harness import Sym, SymScalar, Case, close, sc, arrays_close
from . import _spec as S

LIBS = ()
BOUNDS = 'up to 5 slices of 2 angles x 4 bins on up to 3 devices, chunks of 1 to 3 slices on up to 2 workers, every data value symbolic; one rotation centre per slice, symbolic within half a detector of the middle; failures of any subset of slices'
OUTSIDE = 'ASTRA, lprec and UFO themselves (a stand-in with the calls they document takes their place and computes weighted sums of exactly the data, geometry and options it is handed; its tasks run in step with the feeding thread); with UFO, angles that are not equally spaced from zero and several rotation centres; several calls at once'
ASSUMPTIONS = ['the stand-in refuses what the library documents to refuse (shapes that do not fit the geometry, other types than float32, memory that is not contiguous)', 'pools run their tasks one after another in one of two orders', 'operations on symbolic values are over the reals']
W = 'tomopy.recon.wrappers.'
THETA = (0.25, 1.5, 2.75)


class Fail(Exception):
    pass


def weight(x, y, a, j, off):
    """Some weight that tells every pixel, projection and bin apart, and depends on the detector offset."""
    return T.mul(1.0 + x + 0.25 * y + 0.5 * a + 0.125 * j + 0.0625 * (x * j + y * a + x * a), T.add(1.0, T.mul(off, 0.03125 * (j + 1))))


METHODS = {'SIRT': 1.0, 'FBP': 2.0, 'SART_CUDA': 3.0}
PROJ = {'linear': 0.0, 'strip': 0.5, 'cuda': 0.25}


def result(init, sino, theta, off, method, ptype, niter, opt):
    """What the stand-in makes of one slice."""
    out = np.empty(init.shape, object)
    k = METHODS[method] + PROJ[ptype] + (opt or 0)
    for x, y in np.ndindex(*init.shape):
        v = T.mul(sc(init[x, y]), 1.0 / niter)
        for a in range(sino.shape[0]):
            for j in range(sino.shape[1]):
                v = T.add(v, T.mul(T.mul(sc(sino[a, j]), weight(x, y, a, j, off)), k * niter * float(theta[a])))
        out[x, y] = v
    return out


class Stub:
    """The calls of the ASTRA toolbox that a slice by slice reconstruction needs."""

    def __init__(self, align, fail=False):
        self.objs, self.next, self.runs, self.fail = {}, 1, [], fail
        m = types.ModuleType('astra')
        m.create_vol_geom = lambda *s: {'shape': tuple(int(v) for v in (s[0] if len(s) == 1 else s[:2]))}
        m.create_proj_geom = lambda kind, w, n, th: {'kind': kind, 'w': w, 'n': int(n), 'theta': np.array(th, dtype=float), 'offset': 0.0}
        m.astra_dict = lambda n: {'type': n}
        m.create_projector = lambda t, pg, vg: self.put(('projector', t, dict(pg), vg))
        if align:
            m.geom_postalignment = lambda g, f: dict(g, offset=f)
        m.data2d = types.SimpleNamespace(link=self.link, delete=self.free, create=self.create, get=lambda i: self.objs[i][2])
        m.algorithm = types.SimpleNamespace(create=lambda c: self.put(('algorithm', dict(c, option=dict(c.get('option', {}))))), run=self.run, delete=self.free)
        m.projector = types.SimpleNamespace(delete=self.free)
        self.module = m

    def put(self, o):
        self.objs[self.next] = o
        self.next += 1
        return self.next - 1

    def free(self, i):
        for k in (i if isinstance(i, (list, tuple)) else [i]):
            del self.objs[k]

    def link(self, kind, geom, data):
        if tuple(data.shape) != (geom['shape'] if kind == '-vol' else (len(geom['theta']), geom['n'])):
            raise ValueError('the array does not fit the geometry')
        if str(data.dtype) != 'float32' or not data.flags.c_contiguous:
            raise ValueError('contiguous float32 memory needed')
        return self.put((kind, geom, data))

    def create(self, kind, geom, data=0.0):
        shape = geom['shape'] if kind == '-vol' else (len(geom['theta']), geom['n'])
        a = np.zeros(shape, np.float32) if isinstance(data, float) else data.copy()
        return self.link(kind, geom, a)

    def run(self, i, n=1):
        c = self.objs[i][1]
        _, ptype, pg, vg = self.objs[c['ProjectorId']]
        _, sg, sino = self.objs[c['ProjectionDataId']]
        _, _, vol = self.objs[c['ReconstructionDataId']]
        if self.fail and sino[0, 0] > 0.5:
            raise Fail('slice')
        off = pg['offset']
        if 'option' in pg:                 # older releases: one offset per angle, the other way round
            o = pg['option']['ExtraDetectorOffset']
            off = -o[0]
        r = result(np.array(vol, copy=True, dtype=object) if isinstance(vol, np.ndarray) and vol.dtype == object else S.plain(vol), S.plain(sino), sg['theta'], sc(off), c['type'], ptype, int(n), c['option'].get('Relax'))
        for ix in np.ndindex(*vol.shape):
            vol[ix] = r[ix]
        self.runs.append(c['option'].get('GPUindex'))


def shifted(sino, s):
    r = np.empty(sino.shape, object)
    n = sino.shape[1]
    for a, j in np.ndindex(*sino.shape):
        r[a, j] = sc(sino[a, j - s]) if 0 <= j - s < n else 0.0
    return r


def astra(name, ns, method='SIRT', proj='linear', gpus=None, niter=None, extra=None, align=True, center=None, free_center=None, grid=None, order='fifo', fail=False,
          init=True, ncore=1, nchunk=None, sino_order=False, nang=2, ndet=4):
    """center: list of numbers; free_center: slices whose centre is symbolic."""
    gx, gy = grid or (ndet, ndet)
    shape = (ns, nang, ndet) if sino_order else (nang, ns, ndet)
    ins = {'t': Sym(shape, 'f4', 0, 1)}
    if init:
        ins['i'] = Sym((ns, gx, gy), 'f4', 0, 1)
    free = free_center or []
    if free:
        ins['c'] = Sym((ns,), 'f4', 0, ndet, base=np.array(center, 'f4'), free=[(k,) for k in free])
    th = np.array(THETA[:nang])

    def impl(tp, X):
        st = Stub(align, fail)
        was = sys.modules.get('astra')
        sys.modules['astra'] = st.module
        opts = {'method': method, 'proj_type': proj}
        if niter is not None:
            opts['num_iter'] = niter
        if gpus is not None:
            opts['gpu_list'] = list(gpus)
        if extra is not None:
            opts['extra_options'] = dict(extra)
        tomo = X['t'].copy()
        kw = {}
        if init:
            kw['init_recon'] = X['i'].copy()
        if center is not None:
            kw['center'] = X['c'] if free else np.array(center, 'f4')
        if grid is not None:
            kw.update(num_gridx=gx, num_gridy=gy)
        try:
            r = tp.recon(X['t'], th, algorithm=tp.astra, options=opts, sinogram_order=sino_order, ncore=ncore, nchunk=nchunk, **kw)
            err = None
        except Fail:
            r, err = None, 'failed'
        finally:
            if was is None:
                del sys.modules['astra']
            else:
                sys.modules['astra'] = was
        return r, err, len(st.objs), [] if fail else sorted(st.runs, key=str), opts, X['t'], tomo

    def check(X, R):
        r, err, left, runs, opts, now, tomo = R
        t = S.plain(X['t'])
        sl = [t[s] if sino_order else t[:, s] for s in range(ns)]
        if fail:
            bad = False
            for s in range(ns):
                bad = T.or_(bad, T.lt(0.5, sc(sl[s][0, 0])))
            yield ('the failure of a slice reaches the caller', bad if err else T.not_(bad))
            return
        yield ('no object of the library is left behind', left == 0)
        yield ('one run per slice', len(runs) == ns)
        if gpus is not None and proj == 'cuda':
            yield ('devices of the list only', set(runs) <= set(gpus))
            yield ('every device works', len(set(runs)) == min(len(gpus), ns))
        yield ('extra options as they were', opts.get('extra_options') == extra)
        yield from arrays_close('data unchanged', now, tomo, 0)
        yield ('shape', tuple(r.shape) == (ns, gx, gy))
        cen = S.plain(X['c']) if free else [ndet / 2.0 if center is None else center[s] for s in range(ns)]
        for s in range(ns):
            start = S.plain(X['i'])[s] if init else np.full((gx, gy), 1e-6)
            c = sc(cen[s])
            a = S.plain(r)[s]
            opt = (extra or {}).get('Relax')
            args = (np.float32(th).astype(float),)
            if proj == 'cuda':
                want = [(True, result(start, sl[s], *args, T.sub(ndet / 2.0, c), method, proj, niter or 1, opt))]
            else:
                # the nearest whole number of bins
                want = []
                for k in range(-ndet, ndet + 1):
                    d = T.sub(T.sub(ndet / 2.0, c), float(k))
                    g = T.lt(T.absv(d), 0.499)
                    if g is not False:
                        want.append((g, result(start, shifted(sl[s], k), *args, 0.0, method, proj, niter or 1, opt)))
            for ix in np.ndindex(gx, gy):
                for g, w in want:
                    yield ('slice %d pixel %s' % (s, list(ix)), close(sc(a[ix]), w[ix], 1e-4, 1e-5, unless=T.not_(g) if g is not True else False))
    return Case('astra, ' + name, ins, impl, check, funcs=[W + 'astra', W + 'astra_rec'], order=order)


def lprec(name, ns, gpus=(0,), method='fbp', niter=None, reg=None, order='fifo', fail=False, center=2.0, n=4, nang=2, filt=None):
    ins = {'t': Sym((nang, ns, n), 'f4', 0, 1), 'i': Sym((ns, n, n), 'f4', 0, 1)}
    names = ('fbp', 'grad', 'cg', 'tv', 'em', 'tve', 'tvl1')
    code = {k: 1.0 + i for i, k in enumerate(names)}

    def one(init, sino, k, it, rg, cen):
        out = np.empty(init.shape, object)
        for x, y in np.ndindex(*init.shape):
            v = T.mul(sc(init[x, y]), 0.5)
            for a, j in np.ndindex(*sino.shape):
                v = T.add(v, T.mul(sc(sino[a, j]), T.mul(weight(x, y, a, j, 0.0), k * it * (1 + rg) * (1 + cen))))
            out[x, y] = v
        return out

    def impl(tp, X):
        log = []

        def mk(k):
            def run(lp, recon, tomo, it, rg, gpu):
                if not 0 < recon.shape[0] <= lp.most:
                    raise ValueError('more slices than room')
                if ('memory', gpu) not in log:
                    raise ValueError('no memory on this device')
                if k != 'fbp' and ('pre', True) not in log:
                    raise ValueError('forward transform not ready')
                log.append(('run', gpu, recon.shape[0]))
                out = recon.copy()
                for s in range(recon.shape[0]):
                    if fail and tomo[s, 0, 0] > 0.5:
                        raise Fail('slice')
                    o = one(S.plain(recon)[s], S.plain(tomo)[s], code[k], it, rg, lp.cen)
                    for ix in np.ndindex(n, n):
                        out[(s,) + ix] = o[ix]
                return out
            return run

        class Tr:
            def __init__(self, N, nproj, most, filt, cen, interp):
                self.most, self.cen = most, cen
                log.append(('made', N, nproj, filt, interp))

            def precompute(self, fwd):
                log.append(('pre', bool(fwd)))

            def initcmem(self, fwd, gpu):
                log.append(('memory', gpu))
        top, tr, me = types.ModuleType('lprec'), types.ModuleType('lprec.lpTransform'), types.ModuleType('lprec.lpmethods')
        tr.lpTransform = Tr
        for k in names:
            setattr(me, k, mk(k))
        top.lpTransform, top.lpmethods = tr, me
        mods = {'lprec': top, 'lprec.lpTransform': tr, 'lprec.lpmethods': me}
        was = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)
        kw = {}
        if niter is not None:
            kw['num_iter'] = niter
        if reg is not None:
            kw['reg_par'] = reg
        if filt is not None:
            kw['filter_name'] = filt
        tomo = X['t'].copy()
        try:
            r = tp.recon(X['t'], np.array(THETA[:nang]), center=center, algorithm=tp.lprec, lpmethod=method, gpu_list=list(gpus), init_recon=X['i'].copy(), ncore=1, **kw)
            err = None
        except Fail:
            r, err = None, 'failed'
        finally:
            for k, v in was.items():
                if v is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = v
        # which device takes which slices depends on the timing
        facts = {'made': ('made', n, nang, filt or 'None', 'cubic') in log, 'listed': {l[1] for l in log if l[0] == 'run'} <= set(gpus),
                 'slices': None if fail else sum(l[2] for l in log if l[0] == 'run')}
        return r, err, facts, X['t'], tomo

    def check(X, R):
        r, err, facts, now, tomo = R
        t = S.plain(X['t'])
        if fail:
            bad = False
            for s in range(ns):
                bad = T.or_(bad, T.lt(0.5, sc(t[0, s, 0])))
            yield ('the failure of a slice reaches the caller', bad if err else T.not_(bad))
            return
        yield ('made for the data', facts['made'])
        yield ('devices of the list only', facts['listed'])
        yield ('every slice once', facts['slices'] == ns)
        yield from arrays_close('data unchanged', now, tomo, 0)
        for s in range(ns):
            w = one(S.plain(X['i'])[s], t[:, s], code[method], niter or 1, 1 if reg is None else reg, int(center))
            a = S.plain(r)[s]
            for ix in np.ndindex(n, n):
                yield ('slice %d pixel %s' % (s, list(ix)), close(sc(a[ix]), w[ix], 1e-4, 1e-5))
    return Case('lprec, ' + name, ins, impl, check, funcs=[W + 'lprec', W + 'lpmultigpu'], order=order)


class Ufo:
    """The calls of the UFO framework that a chain of tasks fed from memory needs."""

    def __init__(self, ndet):
        self.nodes, self.edges, self.ran, self.threads, self.seen = [], [], 0, [], []
        outer = self

        class Task:
            def __init__(self, name):
                self.name, self.props = name, {}
                self.given, self.pool, self.stopped, self.held = [], [], False, None

            def set_properties(self, **kw):
                self.props.update(kw)

            def get_input_buffer(self):
                if not self.pool:
                    raise RuntimeError('waits for ever: no buffer in use')
                return self.pool.pop()

            def release_input_buffer(self, b):
                if b.source is None:
                    raise ValueError('no data')
                self.given.append(b)

            def get_output_buffer(self):
                i = outer.input
                if not i.given:
                    raise RuntimeError('waits for ever: nothing was put in')
                b = i.given.pop(0)
                i.pool.append(b)
                r = Buffer(outer.compute(b.read()))
                b.source = None
                self.held = r
                return r

            def release_output_buffer(self, b):
                if b is not self.held:
                    raise ValueError('not the buffer handed out')
                b.data[...] = 7777.0           # used again
                self.held = None

            def stop(self):
                self.stopped = True

        class Buffer:
            def __init__(self, data=None, shape=None):
                self.data, self.shape, self.source = data, shape, None

            def set_host_array(self, pointer, free):
                if free:
                    raise ValueError('memory of somebody else')
                self.source = pointer

            def read(self):
                if self.source in outer.addresses:
                    a = outer.addresses[self.source]
                    if not a.flags.c_contiguous or str(a.dtype) != 'float32':
                        raise ValueError('contiguous float32 memory needed')
                    a = S.plain(a)
                else:
                    import ctypes
                    n = self.shape[0] * self.shape[1]
                    a = np.array((ctypes.c_float * n).from_address(self.source)).reshape(self.shape).astype(float)
                if a.shape != self.shape:
                    raise ValueError('another size than the buffer')
                return a

        class Pool:
            get_task = staticmethod(lambda name: Task(name))

        class Graph:
            def connect_nodes(self, a, b):
                outer.edges.append((a, b))

        class Scheduler:
            props = types.SimpleNamespace(time=0.0)

            def run(self, g):
                if not isinstance(g, Graph) or not outer.threads:
                    raise RuntimeError('waits for ever: nobody feeds the tasks')
                outer.follow()
                for t in outer.threads:
                    t.done = True
                    t.target(*t.args, **t.kw)
                outer.threads = []
                if not outer.input.stopped:
                    raise RuntimeError('waits for ever: the input does not end')
                outer.ran += 1
                outer.edges = []

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, **kw):
                self.target, self.args, self.kw, self.done = target, args, kwargs or {}, False

            def start(self):
                outer.threads.append(self)

            def join(self, timeout=None):
                if not self.done:
                    raise RuntimeError('waits for ever: the tasks do not run')
        self.Thread, self.ndet, self.addresses = Thread, ndet, {}
        gi, rep, ufo, unp = (types.ModuleType(n) for n in ('gi', 'gi.repository', 'ufo', 'ufo.numpy'))
        gi.require_version = lambda *a: None
        gi.repository = rep
        rep.Ufo = types.SimpleNamespace(TaskGraph=Graph, PluginManager=Pool, Scheduler=Scheduler, InputTask=lambda: Task('input'), OutputTask=lambda: Task('output'))
        unp.empty_like = lambda a: Buffer(shape=tuple(a.shape))
        unp.asarray = lambda b: b.data
        ufo.numpy = unp
        self.modules = {'gi': gi, 'gi.repository': rep, 'ufo': ufo, 'ufo.numpy': unp}

    def follow(self):
        """The chain from the input to the output."""
        nxt = dict(self.edges)
        if len(nxt) != len(self.edges):
            raise ValueError('not a chain')
        t = [a for a, b in self.edges if a.name == 'input'][0]
        self.input, chain = t, [t]
        while t.name != 'output':
            t = nxt[t]
            chain.append(t)
        self.chain = chain
        self.seen.append([(c.name, sorted((k, v) for k, v in c.props.items() if isinstance(v, (bool, int)))) for c in chain])

    def compute(self, sino):
        props = {}
        for c in self.chain:
            props.update(c.props)
        n = props.get('crop_width') or padded(self.ndet)
        axis = props.get('axis_pos', props.get('center_of_rotation'))
        return slice_of(sino, n, sc(axis), sc(props['angle_step']), float(props.get('angle_offset', 0.0)))


def padded(n):
    k = 1
    while k < n:
        k *= 2
    return k


def slice_of(sino, n, axis, step, offset):
    out = np.empty((n, n), object)
    real = True
    for x, y in np.ndindex(n, n):
        v = 0.0
        for a, j in np.ndindex(*sino.shape):
            v = T.add(v, T.mul(T.mul(sc(sino[a, j]), weight(x, y, a, j, axis)), T.mul(step, 1.0 + offset)))
        out[x, y] = v
        real = real and isinstance(v, (int, float))
    return out.astype(np.float64) if real else out


FBP = [('input', []), ('fft', []), ('filter', []), ('ifft', 'crop'), ('backproject', []), ('output', [])]
DFI = [('input', []), ('zeropad', [('oversampling', 1)]), ('fft', [('auto_zeropadding', False), ('dimensions', 1)]), ('dfi-sinc', []), ('swap-quadrants', []), ('ifft', [('dimensions', 2)]),
       ('swap-quadrants', []), ('output', [])]


def ufo(name, kind, ns, ndet=4, nang=2, theta=(0.0, 0.5), sino_order=False, ncore=1, nchunk=None, order='fifo'):
    shape = (ns, nang, ndet) if sino_order else (nang, ns, ndet)
    ins = {'t': Sym(shape, 'f4', 0, 1), 'c': SymScalar('f4', 0.5, ndet - 0.5)}
    th = np.array(theta)

    def impl(tp, X):
        import importlib
        st = Ufo(ndet)
        w = sys.modules[tp.ufo_fbp.__module__]
        was = {k: sys.modules.get(k) for k in st.modules}
        threads = w.threading
        cls = type(X['t'])
        fake = cls is not np.ndarray

        def interface(a):
            key = -1 - len(st.addresses)
            st.addresses[key] = a
            return {'data': (key, False), 'shape': tuple(a.shape), 'version': 3}
        tomo = X['t'].copy()
        try:
            sys.modules.update(st.modules)
            w.threading = types.SimpleNamespace(Thread=st.Thread, Lock=threads.Lock)
            if fake:
                cls.__array_interface__ = property(interface)
            r = tp.recon(X['t'], th, center=X['c'], algorithm=getattr(tp, 'ufo_' + kind), sinogram_order=sino_order, ncore=ncore, nchunk=nchunk)
        finally:
            if fake:
                del cls.__array_interface__
            w.threading = threads
            for k, v in was.items():
                if v is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = v
        return r, st.seen, X['t'], tomo

    def check(X, R):
        r, seen, now, tomo = R
        t = S.plain(X['t'])
        want = [(n, [('crop_width', ndet)] if p == 'crop' else p) for n, p in (FBP if kind == 'fbp' else DFI)]
        yield ('the tasks of the method, in their order', bool(seen) and all(s == want for s in seen))
        yield ('shape', tuple(r.shape) == (ns, ndet, ndet))
        yield from arrays_close('data unchanged', now, tomo, 0)
        n = ndet if kind == 'fbp' else padded(ndet)
        lo = (n - ndet) // 2
        a = S.plain(r)
        for s in range(ns):
            w = slice_of(t[s] if sino_order else t[:, s], n, sc(X['c']), float(th[1] - th[0]), float(np.pi) if kind == 'fbp' else 0.0)
            for ix in np.ndindex(ndet, ndet):
                yield ('slice %d pixel %s' % (s, list(ix)), close(sc(a[(s,) + ix]), sc(w[ix[0] + lo, ix[1] + lo]), 1e-4, 1e-5))
    return Case('ufo, ' + name, ins, impl, check, funcs=[W + 'ufo_' + kind, W + '_process_data'], order=order)


def cases(tier):
    deep = tier == 'thorough'
    yield astra('defaults', 2)
    yield astra('no start image', 2, init=False, method='FBP', niter=3)
    yield astra('projector and options', 2, proj='strip', extra={'Relax': 2, 'Min': 0}, niter=2, sino_order=True)
    yield astra('rectangular grid', 2, grid=(3, 2))
    yield astra('centre of each slice', 3, center=[1.0, 2.0, 3.2])
    yield astra('far centres', 3, center=[0.0, 4.0, 2.6], sino_order=True)
    yield astra('symbolic centre', 2, center=[2.0, 1.0], free_center=[0], nang=1, grid=(1, 2))
    yield astra('two symbolic centres', 2, center=[2.0, 1.0], free_center=[0, 1], nang=1, ndet=3, grid=(1, 1))
    yield astra('odd detector', 2, center=[1.3, 2.0], ndet=5, nang=1)
    yield astra('chunks of two', 5, center=[1.0, 2.0, 3.0, 2.5, 1.6], ncore=2, nchunk=2, order='lifo', nang=1, grid=(1, 2))
    yield astra('one device', 2, 'SART_CUDA', 'cuda', [3])
    yield astra('no devices named', 2, 'SART_CUDA', 'cuda', center=[1.5, 2.25])
    yield astra('two devices', 5, 'SART_CUDA', 'cuda', [0, 2], center=[1.0, 2.0, 3.0, 2.5, 1.75], order='lifo', nang=1, grid=(2, 2))
    yield astra('three devices, two slices', 2, 'SART_CUDA', 'cuda', [4, 2, 1], niter=4, extra={'Relax': 1})
    yield astra('device, symbolic centre', 2, 'SART_CUDA', 'cuda', [1, 0], center=[2.0, 1.0], free_center=[0, 1], nang=1, grid=(1, 2))
    yield astra('device, older release', 3, 'SART_CUDA', 'cuda', [0, 1], align=False, center=[1.0, 2.0, 3.5], nang=1, grid=(2, 2))
    yield astra('device list without device', 2, gpus=[1, 0], center=[1.0, 3.0])
    yield astra('failing slice', 3, fail=True, nang=1, grid=(1, 1))
    for order in ('fifo', 'lifo'):
        yield astra('failing device %s' % order, 3, 'SART_CUDA', 'cuda', [0, 1], fail=True, nang=1, grid=(1, 1), order=order)
    yield lprec('one device', 3)
    yield lprec('two devices', 5, (1, 3), 'tv', 4, 0.5, order='lifo', n=2)
    yield lprec('iterations and regularisation', 2, (0,), 'em', 3, 0.25, center=1.0, filt='parzen', n=3)
    yield lprec('three devices, two slices', 2, (2, 0, 1), 'grad', n=2)
    yield lprec('failing slice', 3, (0, 1), fail=True, n=2, nang=1)
    yield ufo('fbp', 'fbp', 3)
    yield ufo('fbp, sinograms, three angles', 'fbp', 2, 3, 3, (0.0, 0.25, 0.5), True)
    yield ufo('dfi', 'dfi', 3)
    yield ufo('dfi, padded detector', 'dfi', 2, 6, 2, (0.0, 1.5), True)
    yield ufo('fbp, chunks', 'fbp', 3, 2, 2, ncore=2, nchunk=2, order='lifo')
    if deep:
        yield ufo('fbp, many slices', 'fbp', 6, 5, 3, (0.0, 0.5, 1.0), ncore=2, nchunk=4)
        yield ufo('dfi, many slices', 'dfi', 5, 5, 3, (0.0, 0.5, 1.0), ncore=2, nchunk=3)
        for k in ('cg', 'tve', 'tvl1'):
            yield lprec('method %s' % k, 7, (0, 1, 2), k, 2, n=3, order='lifo')
        for g in (2, 3, 4):
            yield astra('%d devices, seven slices' % g, 7, 'SART_CUDA', 'cuda', list(range(g)), center=[2.0, 1.0, 3.0, 2.5, 1.0, 0.5, 2.2], nang=3, grid=(2, 3))
        yield astra('three symbolic centres', 3, center=[2.0, 1.0, 1.0], free_center=[0, 1, 2], nang=1, ndet=3, grid=(1, 1))
        yield astra('wide symbolic centre', 1, center=[2.0], free_center=[0], nang=1, ndet=8, grid=(1, 2))
