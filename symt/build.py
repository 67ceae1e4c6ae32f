"""Regenerates everything from /repo's working tree: LLVM IR for the encoder, shared libraries for replay."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import atexit

REPO = os.environ.get('VERIF_REPO', '/repo')
PYBIN = '/opt/venv/bin/python'
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get('VERIF_SCRATCH')
        if base:
            _scratch = base
        else:
            _scratch = tempfile.mkdtemp(prefix='verif-tomopy-')
            pid = os.getpid()
            atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


LIBS = {
    'recon': 'source/libtomo/recon',
    'misc': 'source/libtomo/misc',
    'prep': 'source/libtomo/prep',
    'gridrec': 'source/libtomo/gridrec',
}


def c_sources(lib):
    """The sources the build compiles into a library, read from its CMakeLists."""
    d = os.path.join(REPO, LIBS[lib])
    txt = open(os.path.join(d, 'CMakeLists.txt')).read()
    import re
    names = [n for n in re.findall(r'[\w./-]+\.c\b', txt)]
    out = []
    for n in names:
        f = os.path.join(d, n)
        if os.path.exists(f) and f not in out:
            out.append(f)
    return out or sorted(glob.glob(os.path.join(d, '*.c')))


INC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include')
IRFLAGS = ['-S', '-emit-llvm', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-ffp-contract=off', '-fno-strict-aliasing', '-DNDEBUG', '-std=gnu11', '-w',
           '-fno-math-errno', '-fno-builtin-printf']


def emit_ir(lib, extra=(), tag=''):
    """clang IR of each source of a library; returns the .ll paths."""
    outd = os.path.join(scratch(), 'ir' + tag)
    os.makedirs(outd, exist_ok=True)
    procs = []
    for f in c_sources(lib):
        o = os.path.join(outd, lib + '_' + os.path.basename(f)[:-2] + '.ll')
        cmd = ['clang-18'] + IRFLAGS + (['-DTOMOPY_USE_FFTW'] if lib == 'gridrec' else []) + list(extra) + ['-I', os.path.join(REPO, 'include'), '-I', os.path.dirname(f), '-idirafter', INC,
                                                     f, '-o', o]
        procs.append((o, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    outs = []
    for o, cmd, p in procs:
        txt = p.communicate()[0]
        if p.returncode:
            raise RuntimeError('clang failed: %s\n%s' % (' '.join(cmd), txt.decode()[:2000]))
        outs.append(o)
    return outs


_mods = {}


def module(lib, externs=None, omp=False):
    from . import ir
    if lib not in _mods:
        if omp:
            from . import omp as O
            externs = dict(O.EXT, **(externs or {}))
        m = ir.Module(externs)
        for p in emit_ir(lib, *((['-fopenmp'], '-omp') if omp else ())):
            m.load(p, prefix=os.path.basename(p)[:-3])
        _mods[lib] = m
    return _mods[lib]


_lib = {}


def real_libs(kind='release'):
    """Build the shared libraries of the current tree with cmake; returns their directory."""
    if kind in _lib:
        return _lib[kind]
    d = os.path.join(scratch(), 'lib-' + kind)
    env = dict(os.environ)
    env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['CC'] = '/usr/bin/gcc'
    env['CXX'] = '/usr/bin/g++'
    if not os.path.exists(os.path.join(d, 'libtomo-recon.so')):
        os.makedirs(d, exist_ok=True)
        flags = []
        if kind == 'asan':
            flags = ['-DCMAKE_C_FLAGS=-fsanitize=address -fno-omit-frame-pointer -g', '-DCMAKE_C_FLAGS_RELEASE=-O1 -DNDEBUG',
                     '-DCMAKE_SHARED_LINKER_FLAGS=-fsanitize=address']
        if kind == 'tsan':
            flags = ['-DCMAKE_C_FLAGS=-fsanitize=thread -finstrument-functions -fgnu89-inline -g', '-DCMAKE_C_FLAGS_RELEASE=-O1 -DNDEBUG', '-DCMAKE_SHARED_LINKER_FLAGS=-fsanitize=thread -Wl,--allow-multiple-definition']
            subprocess.run(['gcc', '-O1', '-g', '-shared', '-fPIC', '-fsanitize=thread', os.path.join(INC, '..', 'team.c'), '-o', os.path.join(d, 'libteam.so'), '-ldl'], env=env, check=True)
        cmd = ['cmake', '-S', REPO, '-B', d, '-GNinja', '-DCMAKE_BUILD_TYPE=Release', '-DTOMOPY_USE_MKL=OFF',
               '-DTOMOPY_USE_CUDA=OFF', '-DTOMOPY_USE_OPENCV=OFF', '-DPYTHON_EXECUTABLE=' + PYBIN] + flags
        for c in (cmd, ['cmake', '--build', d, '--target', 'tomo-recon', 'tomo-misc', 'tomo-prep', 'tomo-gridrec']):
            r = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise RuntimeError('build failed: %s\n%s' % (' '.join(c), r.stdout.decode()[-3000:]))
    _lib[kind] = d
    return d
