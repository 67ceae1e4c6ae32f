"""Concrete runs on the unmodified library (fresh build of the working tree): a worker process.

Requests (pickled on stdin): ('run', module, tier, case, env).  Answers: dict with the values the
implementation returned and the labels of the conditions that do not hold.
"""
import io
import os
import pickle
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _read(f, n, timeout=None):
    b = b''
    while len(b) < n:
        x = f.read(n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def child():
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    inp = os.fdopen(os.dup(0), 'rb')
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.path.insert(0, HERE)
    repo = os.environ['VERIF_REPO_SRC']
    sys.path.insert(0, repo)
    import warnings
    warnings.simplefilter('ignore')
    import importlib
    if os.environ.get('VERIF_WATCH'):
        import concurrent.futures
        from symt import watch
        concurrent.futures.ThreadPoolExecutor = watch.Pool
    import numpy as np
    if os.environ.get('VERIF_WATCH'):
        watch.fill_new(np)
    import tomopy
    import tomopy.misc.phantom, tomopy.sim.propagate
    from symt import harness as H
    assert os.path.realpath(tomopy.__file__).startswith(os.path.realpath(repo)), tomopy.__file__
    cache = {}
    while True:
        try:
            n = struct.unpack('<Q', _read(inp, 8))[0]
        except EOFError:
            return
        req = pickle.loads(_read(inp, n))
        try:
            _, modname, tier, cname, env = req
            k = (modname, tier)
            if k not in cache:
                m = importlib.import_module(modname)
                cache[k] = {c.name: c for c in m.cases(tier)}
            case = cache[k][cname]
            ans = run_real(case, tomopy, env, H, np)
        except Exception as e:
            ans = {'error': traceback.format_exc()[-2000:]}
        b = pickle.dumps(ans)
        out.write(struct.pack('<Q', len(b)) + b)
        out.flush()


def run_real(case, tp, env, H, np):
    X = H.conc_inputs(case, env)
    X0 = H.copy_in(X)
    ans = {'exc': None, 'fails': [], 'value': None}
    os_env = dict(os.environ)
    if case.assume:
        try:
            if not all(bool(c) for c in case.assume(X0)):
                return {'skip': True, 'exc': None, 'fails': [], 'value': None}
        except Exception:
            pass
    try:
        Y = case.impl(tp, X)
    except Exception as e:
        ans['exc'] = '%s: %s' % (type(e).__name__, e)
        ans['exc_allowed'] = bool(case.allow) and isinstance(e, case.allow)
        ans['tb'] = traceback.format_exc()[-1500:]
        return ans
    finally:
        for k in [k for k in os.environ if k not in os_env]:
            del os.environ[k]
        os.environ.update(os_env)
    for l, c in case.check(X0, Y):
        if not H.holds(c):
            d = ''
            if isinstance(c, H.Close):
                d = ' got %r, specified %r' % (c.a, c.b)
            ans['fails'].append(l + d)
            if len(ans['fails']) >= 5:
                break
    ans['value'] = plain(Y, np)
    return ans


def plain(v, np):
    if isinstance(v, np.ndarray):
        return np.array(v)
    if isinstance(v, (tuple, list)):
        return [plain(x, np) for x in v]
    if isinstance(v, dict):
        return {k: plain(x, np) for k, x in v.items()}
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (int, float, bool, str, type(None))):
        return v
    return None


class Crash(Exception):
    pass


class Real:
    """Handle on a worker."""
    def __init__(self, kind='release', timeout=120):
        from . import build
        self.kind = kind
        self.libdir = build.real_libs('release' if kind == 'watch' else kind)
        self.timeout = timeout
        self.p = None

    def start(self):
        from . import build
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=self.libdir, MKL_THREADING_LAYER='SEQUENTIAL', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   VERIF_REPO_SRC=os.path.join(build.REPO, 'source'), PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
                   OMP_NUM_THREADS='4')
        for k in ('PYTHONPATH', 'PYTHONHOME', 'TOMOPY_FFT_IMPL', 'TOMOPY_PYTHON_THREADS'):
            env.pop(k, None)
        if self.kind == 'asan':
            lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
            env['LD_PRELOAD'] = lib
            env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1'
        elif self.kind == 'tsan':
            lib = subprocess.run(['gcc', '-print-file-name=libtsan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
            env['LD_PRELOAD'] = lib + ' ' + os.path.join(self.libdir, 'libteam.so')
            env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'
        else:
            if self.kind == 'watch':
                env['VERIF_WATCH'] = '1'
            env['MALLOC_PERTURB_'] = '165'
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([build.PYBIN, '-c', 'import sys; sys.path.insert(0, %r); from symt import realrun; realrun.child()' % HERE],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=build.scratch(), start_new_session=True)
        return self

    def ask(self, modname, tier, cname, env):
        if self.p is None or self.p.poll() is not None:
            self.start()
        b = pickle.dumps(('run', modname, tier, cname, env))
        try:
            self.p.stdin.write(struct.pack('<Q', len(b)) + b)
            self.p.stdin.flush()
            import select
            r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
            if not r:
                self.kill()
                return {'timeout': True, 'exc': None, 'fails': [], 'value': None}
            n = struct.unpack('<Q', _read(self.p.stdout, 8))[0]
            return pickle.loads(_read(self.p.stdout, n))
        except (EOFError, BrokenPipeError):
            rc = self.p.wait()
            self.err.seek(0)
            txt = self.err.read().decode(errors='replace')
            self.kill()
            return {'crash': 'worker ended with status %s' % rc, 'log': txt[-3000:], 'exc': None, 'fails': [], 'value': None}

    def kill(self):
        if self.p is not None:
            import signal
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            try:
                self.p.stdin.close()
            except Exception:
                pass
            self.p.stdout.close()
            self.p.wait()
            self.p = None
