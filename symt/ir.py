"""Executes C code symbolically from clang's LLVM IR.

Each function of a textual LLVM module is translated to a Python function over values that are
either concrete machine values or symbolic terms (terms.Node).  Memory is a set of objects with
exact bounds, lifetime and initialisation tracking: an access outside an object, after its
release, or arithmetic on a value never written raises MemError, which the harnesses treat as an
observable violation (subject to replay on a sanitizer build).
"""
import ctypes
import math
import re
import struct
from . import terms as T
from . import ctx as C
from . import interval

Node = T.Node
Unsupported = T.Unsupported


class MemError(Exception):
    pass


class StepLimit(Unsupported):
    pass


# --------------------------------------------------------------------------------- undefined value
def _undef_op(*a):
    raise MemError('use of an uninitialised value')


class Undef:
    __array_ufunc__ = None
    __slots__ = ()
    def __repr__(self): return 'UNINIT'
    def __deepcopy__(self, m): return self
    def __copy__(self): return self


for _n in ('add sub mul truediv floordiv mod pow radd rsub rmul rtruediv rfloordiv rmod rpow neg pos abs '
           'lt le gt ge and or xor rand ror rxor invert bool int float index lshift rshift').split():
    setattr(Undef, '__%s__' % _n, _undef_op)
UNINIT = Undef()


# --------------------------------------------------------------------------------- memory
class Mem:
    __slots__ = ('name', 'size', 'alive', 'kind', 'es', 'cells', 'fill', 'log')

    def __init__(self, size, kind='heap', name='', fill=UNINIT):
        self.size = size
        self.kind = kind
        self.name = name
        self.alive = True
        self.es = 0
        self.cells = None
        self.fill = fill
        self.log = None

    def _setup(self, n):
        self.es = n
        self.cells = [self.fill] * (self.size // n)

    def chk(self, off, n):
        if not self.alive:
            raise MemError('access to released memory %s' % self.desc())
        if off < 0 or off + n > self.size:
            raise MemError('out-of-bounds access at byte offset %d (%d bytes) of %s' % (off, n, self.desc()))

    def desc(self):
        return '%s object%s of %d bytes' % (self.kind, (' ' + self.name) if self.name else '', self.size)

    def get(self, off, n):
        if off.__class__ is not int:
            v = select(self, off, n)
            if v is not None:
                return v
            off = C.concretize(off)
        if not self.alive or off < 0 or off + n > self.size:
            self.chk(off, n)
        if self.es != n:
            self._es(n, off)
        if off % n:
            self._es(math.gcd(n, off % n), off)
            return self._gather(off, n)
        if self.log is not None:
            self.log.append(('r', off, n))
        return self.cells[off // n]

    def put(self, off, n, v):
        if off.__class__ is not int:
            off = C.concretize(off)
        if not self.alive or off < 0 or off + n > self.size:
            self.chk(off, n)
        if self.kind == 'const':
            raise MemError('write to constant memory %s' % self.name)
        if self.es != n:
            self._es(n, off)
        if off % n:
            raise Unsupported('misaligned store')
        if self.log is not None:
            self.log.append(('w', off, n))
        self.cells[off // n] = v

    def _es(self, n, off):
        """Change the element size of the object."""
        if self.es == 0:
            self._setup(n)
            return
        if self.es == n:
            return
        if self.size % n:
            # keep the tail: only objects whose size is a multiple of the access can be recast
            raise Unsupported('recast of %s to %d-byte elements' % (self.desc(), n))
        by = []
        for v in self.cells:
            by.extend(to_bytes(v, self.es))
        self.cells = [from_bytes(by[i:i + n]) for i in range(0, self.size, n)]
        self.es = n

    def _gather(self, off, n):
        by = []
        for i in range(off, off + n, self.es):
            by.extend(to_bytes(self.cells[i // self.es], self.es))
        return from_bytes(by)

    def raw(self, off, n):
        off = _conc(off)
        """List of cells covering [off, off+n), with the element size."""
        self.chk(off, n)
        if self.es == 0:
            return None, self.fill
        if off % self.es or n % self.es:
            self._es(math.gcd(self.es, math.gcd(off, n)), off)
        if self.log is not None:
            self.log.append(('r', off, n))
        return self.es, self.cells[off // self.es:(off + n) // self.es]

    def setraw(self, off, n, es, cells):
        off = _conc(off)
        self.chk(off, n)
        if n == 0:
            return
        if self.log is not None:
            self.log.append(('w', off, n))
        if es is None:      # uniform fill
            if self.es == 0:
                if off == 0 and n == self.size:
                    self.fill = cells
                    return
                self._setup(math.gcd(math.gcd(off, n), 8) if self.size % math.gcd(math.gcd(off, n), 8) == 0 else 1)
            if off % self.es or n % self.es:
                self._es(math.gcd(self.es, math.gcd(off, n)), off)
            for i in range(off // self.es, (off + n) // self.es):
                self.cells[i] = cells
            return
        if self.es == 0:
            if self.size % es:
                raise Unsupported('copy granularity')
            self._setup(es)
        if self.es != es or off % es:
            by = []
            for v in cells:
                by.extend(to_bytes(v, es))
            g = math.gcd(self.es, math.gcd(off, n))
            if self.es != g:
                self._es(g, off)
            self.cells[off // g:(off + n) // g] = [from_bytes(by[i:i + g]) for i in range(0, n, g)]
            return
        self.cells[off // es:(off + n) // es] = cells


class ArrMem(Mem):
    """Memory of a numpy array: of a concrete one, or of an object array that holds terms."""
    __slots__ = ('arr', 'isobj', 'item', 'keep', 'isz')

    def __init__(self, flat, itemsize, name, keep=None, isint=False):
        self.arr = flat
        self.size = flat.size * itemsize
        self.item = itemsize
        self.es = itemsize
        self.kind = 'array'
        self.name = name
        self.alive = True
        self.isobj = flat.dtype == object
        self.keep = keep
        self.log = None
        self.fill = UNINIT

    @property
    def cells(self):
        return _Cells(self)

    def get(self, off, n):
        if off.__class__ is not int:
            v = select(self, off, n)
            if v is not None:
                return v
            off = C.concretize(off)
        if off < 0 or off + n > self.size:
            self.chk(off, n)
        if self.log is not None:
            self.log.append(('r', off, n))
        if n != self.es or off % n:
            if self.isobj:
                by = []
                for i in range(off // self.es * self.es, off + n, self.es):
                    by.extend(to_bytes(_pyval(self.arr[i // self.es]), self.es))
                s = off % self.es
                return from_bytes(by[s:s + n])
            return int.from_bytes(self.arr.view('u1')[off:off + n].tobytes(), 'little', signed=True)
        return _pyval(self.arr[off // n])

    def put(self, off, n, v):
        if off.__class__ is not int:
            off = C.concretize(off)
        if off < 0 or off + n > self.size:
            self.chk(off, n)
        if self.log is not None:
            self.log.append(('w', off, n))
        if n != self.es or off % n:
            raise Unsupported('store of %d bytes to an array of %d-byte elements' % (n, self.es))
        self._set(off // n, v)

    def _set(self, i, v):
        if self.isobj:
            if v.__class__ is int and self.keep is not None and self.keep.kind == 'f':
                v = bits_to_float(v, self.es)
            self.arr[i] = v
        else:
            if isinstance(v, Node):
                raise Unsupported('symbolic value stored in a concrete array')
            if self.arr.dtype.kind == 'f' and v.__class__ is int:
                v = bits_to_float(v, self.es)
            elif self.arr.dtype.kind in 'iub' and v.__class__ is int:
                bitsn = 8 * self.es
                v &= (1 << bitsn) - 1
                if self.arr.dtype.kind == 'i' and v >> (bitsn - 1):
                    v -= 1 << bitsn
            self.arr[i] = v

    def raw(self, off, n):
        off = _conc(off)
        self.chk(off, n)
        if off % self.es or n % self.es:
            raise Unsupported('partial element copy')
        return self.es, [_pyval(x) for x in self.arr[off // self.es:(off + n) // self.es]]

    def setraw(self, off, n, es, cells):
        off = _conc(off)
        self.chk(off, n)
        if off % self.es or n % self.es or (es is not None and es != self.es):
            raise Unsupported('partial element copy')
        for k, i in enumerate(range(off // self.es, (off + n) // self.es)):
            self._set(i, cells if es is None else cells[k])


def _pyval(x):
    c = x.__class__
    if c is float or c is Node or c is int or c is bool or c is Undef:
        return x
    if hasattr(x, 'item'):
        return x.item()
    return x


def to_bytes(v, n):
    if isinstance(v, Undef):
        return [UNINIT] * n
    if v.__class__ is int or v.__class__ is bool:
        return list((int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
    if v.__class__ is float:
        return list(struct.pack('<f' if n == 4 else '<d', v))
    raise Unsupported('bytes of a symbolic value')


def from_bytes(b):
    if any(isinstance(x, Undef) for x in b):
        return UNINIT
    return int.from_bytes(bytes(b), 'little', signed=True)


def bits_to_float(v, n):
    if v == 0:
        return 0.0
    v &= (1 << (8 * n)) - 1
    return struct.unpack('<f' if n == 4 else '<d', v.to_bytes(n, 'little'))[0]


class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off):
        self.o = o
        self.off = off
    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.o.desc() if self.o is not None else 'null', self.off)


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name


def _deref(p):
    if p.__class__ is not Ptr:
        if isinstance(p, Undef):
            raise MemError('dereference of an uninitialised pointer')
        raise Unsupported('dereference of %r' % (p,))
    if p.o is None:
        raise MemError('null pointer dereference')
    return p.o


def LDF(p, n):
    v = (p.o if p.__class__ is Ptr and p.o is not None else _deref(p)).get(p.off, n)
    if v.__class__ is int:
        return bits_to_float(v, n)
    return v


def LDI(p, n):
    v = (p.o if p.__class__ is Ptr and p.o is not None else _deref(p)).get(p.off, n)
    if v.__class__ is float:
        return int.from_bytes(struct.pack('<f' if n == 4 else '<d', v), 'little', signed=True)
    if v.__class__ is int:
        h = 1 << (8 * n - 1)
        if v >= h or v < -h:
            v = ((v + h) & (2 * h - 1)) - h
    return v


def LDB(p):          # i1 in memory (bool)
    v = LDI(p, 1)
    return (v & 1) == 1 if v.__class__ is int else v


def LDP(p, n=8):
    v = (p.o if p.__class__ is Ptr and p.o is not None else _deref(p)).get(p.off, 8)
    if v.__class__ is int:
        if v == 0:
            return NULL
        return inttoptr(v)
    return v


def ST(p, n, v):
    (p.o if p.__class__ is Ptr and p.o is not None else _deref(p)).put(p.off, n, v)


SELECT_MAX = 64


def select(mem, off, n):
    """Load at a symbolic offset that is a multiple of the element size within a small known range: a choice over
    the elements. None when the range is not known."""
    if C.CUR is None:
        return None
    if n != mem.es or not mem.alive:
        return None
    l = T.lin(off)
    if l is None:
        return None
    k = int(l.get(None, 0))
    if k != l.get(None, 0) or k % n or any(c != int(c) or int(c) % n for v, c in l.items()):
        return None
    lo, hi = interval.of(off, C.CUR.ranges, C.CUR.memo)[:2]
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > SELECT_MAX * n:
        return None
    lo, hi = -(-int(math.ceil(lo - 1e-6)) // n) * n, int(math.floor(hi + 1e-6)) // n * n
    if lo < 0 or hi + n > mem.size:
        return None
    r = None
    for i in range(hi, lo - 1, -n):
        v = mem.get(i, n)
        if isinstance(v, Undef):
            return None
        r = v if r is None else T.ite(T.eq(off, i), v, r)
    return r


def GEP(p, off):
    if off.__class__ is not int and isinstance(off, Node):
        l = T.lin(off)
        if l is None or not all(k is None or (k.op == 'var' and k.args[0].startswith('rand!')) for k in l):
            off = C.concretize(off)
    if p.__class__ is not Ptr:
        if isinstance(p, Undef):
            raise MemError('arithmetic on an uninitialised pointer')
        raise Unsupported('gep on %r' % (p,))
    return Ptr(p.o, p.off + off)


# --------------------------------------------------------------------------------- scalar helpers
_cf = ctypes.c_float


def F32(x):
    if x.__class__ is float:
        return _cf(x).value
    return x


def FDIV(a, b):
    if a.__class__ is float and b.__class__ is float:
        if b != 0.0:
            return a / b
        if a != a or a == 0.0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    if b.__class__ is float and b == 0.0 and isinstance(a, Node):
        return DIV0
    return T.div(_chk(a), _chk(b))


class Div0(Undef):
    """A symbol divided by zero: of no use, but compilers divide before they test the divisor."""
    __slots__ = ()
    def __repr__(self): return 'symbol / 0'


DIV0 = Div0()


def _chk(a):
    if isinstance(a, Undef):
        if a is DIV0:
            raise Unsupported('symbol / 0')
        raise MemError('use of an uninitialised value')
    return a


def FMUL(a, b):
    if a.__class__ is float and b.__class__ is float:
        return a * b
    return T.mul(_chk(a), _chk(b))


def FREM(a, b):
    if a.__class__ is float and b.__class__ is float:
        return math.fmod(a, b) if b != 0 else math.nan
    raise Unsupported('frem')


def FNEG(a):
    return -a


def _nan(a):
    return a.__class__ is float and a != a


def FCMP(pred, a, b):
    _chk(a); _chk(b)
    if pred == 'true': return True
    if pred == 'false': return False
    un = _nan(a) or _nan(b)
    if pred == 'ord': return not un
    if pred == 'uno': return un
    k = pred[1:]
    if un:
        return pred[0] == 'u'
    if k == 'eq': return T.eq(a, b)
    if k == 'ne': return T.ne(a, b)
    if k == 'lt': return T.lt(a, b)
    if k == 'gt': return T.lt(b, a)
    if k == 'le': return T.le(a, b)
    if k == 'ge': return T.le(b, a)
    raise Unsupported(pred)


def WRAP(x, n):
    if x.__class__ is int:
        h = 1 << (n - 1)
        if -h <= x < h:
            return x
        return ((x + h) & ((1 << n) - 1)) - h
    return x


def U(x, n):
    if x.__class__ is bool:
        return int(x)
    if x.__class__ is int:
        return x & ((1 << n) - 1)
    return x


def _nonneg(x):
    if not isinstance(x, Node):
        return x >= 0
    return C.CUR is not None and interval.of(x, C.CUR.ranges, C.CUR.memo)[0] >= 0


def SEXTN(x, n):
    """Value of an n-bit field read as a signed number."""
    if x.__class__ is Node and x.sort == 'I' and C.CUR is not None:
        lo, hi = interval.of(x, C.CUR.ranges, C.CUR.memo)[:2]
        h = 1 << (n - 1)
        if not (lo >= -h and hi < h):
            return T.ite(T.le(h, x), T.sub(x, 2 * h), x)
    return x


def ZEXTN(x, n):
    """Value of an n-bit field read as an unsigned number."""
    if x.__class__ is Node and x.sort == 'I' and C.CUR is not None and not _nonneg(x):
        return T.ite(T.lt(x, 0), T.add(x, 1 << n), x)
    return U(x, n)


def ICMP(pred, a, b, n):
    if a.__class__ is Ptr or b.__class__ is Ptr or isinstance(a, FnPtr) or isinstance(b, FnPtr):
        return PCMP(pred, a, b)
    if n == 1:
        if pred == 'eq': return T.eq(a, b) if isinstance(a, Node) or isinstance(b, Node) else bool(a) == bool(b)
        if pred == 'ne': return T.ne(a, b) if isinstance(a, Node) or isinstance(b, Node) else bool(a) != bool(b)
    _chk(a); _chk(b)
    if isinstance(a, Node) or isinstance(b, Node):
        if a.__class__ is Node and a.sort == 'R' or b.__class__ is Node and b.sort == 'R':
            raise Unsupported('integer comparison of float bits')
        if pred[0] == 'u':
            if not isinstance(b, Node) and b >= 0:
                nonneg = T.le(0, a)
                k = {'ult': T.lt, 'ule': T.le}.get(pred)
                if k: return T.and_(nonneg, k(a, b))
                k = {'ugt': T.le, 'uge': T.lt}[pred]
                return T.not_(T.and_(nonneg, k(a, b)))
            if not isinstance(a, Node) and a >= 0:
                return ICMP({'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}[pred], b, a, n)
            if not (_nonneg(a) and _nonneg(b)):
                a, b = (x if _nonneg(x) else ZEXTN(x, n) for x in (a, b))
    elif pred[0] == 'u':
        a = U(a, n); b = U(b, n)
    k = pred[-2:]
    if k == 'eq': return T.eq(a, b)
    if k == 'ne': return T.ne(a, b)
    if k == 'lt': return T.lt(a, b)
    if k == 'gt': return T.lt(b, a)
    if k == 'le': return T.le(a, b)
    return T.le(b, a)


def PCMP(pred, a, b):
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
        return e if pred == 'eq' else not e
    if a.__class__ is int: a = inttoptr(a)
    if b.__class__ is int: b = inttoptr(b)
    if pred == 'eq':
        return a.o is b.o and a.off == b.off
    if pred == 'ne':
        return not (a.o is b.o and a.off == b.off)
    if a.o is not b.o:
        # distinct objects: order by identity, as an overlap test would be
        x, y = (_addr(a), _addr(b))
    else:
        x, y = a.off, b.off
    k = pred[1:]
    return x < y if k == 'lt' else x <= y if k == 'le' else x > y if k == 'gt' else x >= y


_addrs = {}
_objs = {}
_next = [1 << 20]


def _addr(p):
    if p.o is None:
        return p.off
    k = id(p.o)
    if k not in _addrs:
        _addrs[k] = _next[0]
        _objs[_next[0]] = p.o
        _next[0] += ((max(p.o.size, 1) + 4095) // 4096 + 1) * 4096
    return _addrs[k] + p.off


def ptrtoint(p):
    return _addr(p)


def inttoptr(v):
    if v.__class__ is Ptr:
        return v
    if v == 0:
        return NULL
    for base, o in _objs.items():
        if base <= v <= base + o.size:
            return Ptr(o, v - base)
    raise Unsupported('inttoptr')


def ZEXT1(x):
    if x is True: return 1
    if x is False: return 0
    if isinstance(x, Node):
        return T.ite(x, 1, 0)
    return _chk(x) & 1


def SEXT1(x):
    if x is True: return -1
    if x is False: return 0
    return T.ite(x, -1, 0)


def TRUNC(x, n):
    if x.__class__ is int:
        if n == 1:
            return (x & 1) == 1
        return WRAP(x, n)
    if n == 1 and isinstance(x, Node):
        if x.op == 'ite' and x.args[1] == 1 and x.args[2] == 0:
            return x.args[0]
        raise Unsupported('trunc i1')
    return x


def SEL(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(c, Node):
        if isinstance(a, (Ptr, Undef, list)) or isinstance(b, (Ptr, Undef, list)):
            return a if C.decide(c) else b
        return T.ite(c, a, b)
    if isinstance(c, Undef):
        raise MemError('branch on an uninitialised value')
    if isinstance(c, list):
        return [SEL(x, y, z) for x, y, z in zip(c, a, b)]
    return a if c else b


def FPTOSI(x, n):
    if x.__class__ is float:
        if x != x or x in (math.inf, -math.inf):
            return -(1 << (n - 1))
        r = int(x)
        h = 1 << (n - 1)
        if not (-h <= r < h):
            return -h          # x86 cvttss2si
        return r
    return T.to_int_trunc(_chk(x))


def FPTOUI(x, n):
    if x.__class__ is float:
        if x != x or x in (math.inf, -math.inf):
            return 0
        return WRAP(int(x), n)
    return T.to_int_trunc(_chk(x))


def SITOFP(x):
    if x.__class__ is int:
        return float(x)
    if x is True: return -1.0
    if x is False: return 0.0
    return T.to_real(_chk(x))


def UITOFP(x, n):
    if x.__class__ is int:
        return float(x & ((1 << n) - 1))
    if x is True: return 1.0
    if x is False: return 0.0
    return T.to_real(_chk(x))


def SDIV(a, b):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise MemError('integer division by zero')
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    a = _chk(a); b = _chk(b)
    if not isinstance(b, Node):
        if b == 0:
            raise MemError('integer division by zero')
        if b > 0:
            return T.ite(T.le(0, a), T.floordiv(a, b), T.neg(T.floordiv(T.neg(a), b)))
    raise Unsupported('sdiv by symbolic')


def SREM(a, b):
    if a.__class__ is Node and b.__class__ is int and b > 0 and a.op == 'var' and a.args[0].startswith('rand!') and '%' not in a.args[0]:
        # a random number modulo b is any number below b
        r = T.var('%s%%%d' % (a.args[0], b), 'I')
        C.CUR.bound(r, 0, b - 1)
        return r
    if a.__class__ is int and b.__class__ is int:
        return a - b * SDIV(a, b)
    return T.sub(a, T.mul(b, SDIV(a, b)))


def UDIV(a, b, n):
    if a.__class__ is int and b.__class__ is int:
        b = U(b, n)
        if b == 0:
            raise MemError('integer division by zero')
        return WRAP(U(a, n) // b, n)
    return SDIV(a, b)


def UREM(a, b, n):
    if a.__class__ is int and b.__class__ is int:
        return WRAP(U(a, n) % U(b, n), n)
    return SREM(a, b)


def SHL(a, b, n):
    if b.__class__ is int:
        return WRAP(a * (1 << b), n)
    raise Unsupported('shl')


def LSHR(a, b, n):
    if a.__class__ is int and b.__class__ is int:
        return WRAP(U(a, n) >> b, n)
    raise Unsupported('lshr of symbolic')


def ASHR(a, b, n):
    if a.__class__ is int and b.__class__ is int:
        return a >> b
    if b.__class__ is int:
        return T.floordiv(a, 1 << b)
    raise Unsupported('ashr')


def AND(a, b, n):
    if n == 1:
        return T.and_(_chk(a), _chk(b))
    if a.__class__ is int and b.__class__ is int:
        return a & b
    if isinstance(b, Node) and not isinstance(a, Node):
        a, b = b, a
    if isinstance(a, Node) and a.sort == 'R':
        if b == 0x7fffffff or b == 0x7fffffffffffffff:
            return T.absv(a)
        raise Unsupported('bit operation on a float')
    if b.__class__ is int and b >= 0 and (b & (b + 1)) == 0:
        return T.mod(a, b + 1)
    if b == -1:
        return a
    if b.__class__ is int and b < 0 and ((-b) & (-b - 1)) == 0:
        return T.mul(T.floordiv(a, -b), -b)
    raise Unsupported('and of symbolic ints')


def OR(a, b, n):
    if n == 1:
        return T.or_(_chk(a), _chk(b))
    if a.__class__ is int and b.__class__ is int:
        return a | b
    raise Unsupported('or of symbolic ints')


def ORD(a, b, n):     # or disjoint == add
    if n == 1:
        return T.or_(_chk(a), _chk(b))
    if a.__class__ is int and b.__class__ is int:
        return a | b
    return T.add(a, b)


def XOR(a, b, n):
    if n == 1:
        return T.xor_(_chk(a), _chk(b)) if (isinstance(a, Node) or isinstance(b, Node)) else bool(a) != bool(b)
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if b == -1:
        return T.sub(T.neg(a), 1)
    raise Unsupported('xor of symbolic ints')


def BITCAST(x, ft, tt):
    if isinstance(x, list) or ft[0] == 'vec' or tt[0] == 'vec':
        if ft[0] == 'vec' and tt[0] == 'vec' and ft[1] == tt[1]:
            return x
        # <2 x float> <-> double used by the ABI for float _Complex
        if tt == ('double',) and ft[0] == 'vec':
            return list(x)
        if ft == ('double',) and tt[0] == 'vec' and isinstance(x, list):
            return x
        raise Unsupported('vector bitcast')
    if ft == tt:
        return x
    if ft[0] in ('float', 'double') and tt[0] == 'int':
        if x.__class__ is float:
            return int.from_bytes(struct.pack('<f' if ft[0] == 'float' else '<d', x), 'little', signed=True)
        return x
    if ft[0] == 'int' and tt[0] in ('float', 'double'):
        if x.__class__ is int:
            return bits_to_float(x, 4 if tt[0] == 'float' else 8)
        return x
    return x


# --------------------------------------------------------------------------------- types
def sizeof(t):
    k = t[0]
    if k == 'int':
        return max(1, (t[1] + 7) // 8) if t[1] <= 8 else 1 << (((t[1] + 7) // 8) - 1).bit_length()
    if k == 'float': return 4
    if k == 'double': return 8
    if k == 'ptr': return 8
    if k == 'fp80': return 16
    if k == 'arr': return t[1] * sizeof(t[2])
    if k == 'vec': return t[1] * sizeof(t[2])
    if k == 'struct':
        off = 0
        for f in t[1]:
            a = 1 if t[2] else alignof(f)
            off = (off + a - 1) // a * a + sizeof(f)
        a = alignof(t)
        return (off + a - 1) // a * a
    raise Unsupported('sizeof %r' % (t,))


def alignof(t):
    k = t[0]
    if k == 'arr': return alignof(t[2])
    if k == 'struct': return 1 if t[2] else max([alignof(f) for f in t[1]] or [1])
    return sizeof(t)


def fieldoff(t, i):
    off = 0
    for j, f in enumerate(t[1]):
        a = 1 if t[2] else alignof(f)
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += sizeof(f)
    raise IndexError


# --------------------------------------------------------------------------------- lexer/parser
TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>![-\w.]*(?:\([^()]*\))?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)
 | (?P<id>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('IR lexer: %r' % s[i:i + 40])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


PARAM_ATTRS = set('''noundef nonnull nocapture readonly readnone writeonly signext zeroext inreg noalias nofree
 returned immarg noundef nest swiftself nocallback nosync willreturn writable dead_on_unwind allocptr allocalign'''.split())
FLAGS = set('''nsw nuw exact fast nnan ninf nsz arcp contract afn reassoc inbounds volatile disjoint nneg samesign
 tail musttail notail atomic unordered monotonic acquire release acq_rel seq_cst inrange nusw'''.split())


class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported('IR parse: expected %r at %r' % (v, self.t[max(0, self.i - 4):self.i + 6]))

    def flags(self):
        fl = set()
        while self.peek()[0] == 'id' and self.peek()[1] in FLAGS:
            fl.add(self.next()[1])
        return fl

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'id' and v in PARAM_ATTRS:
                self.next()
            elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'align', 'captures', 'range',
                                     'initializes', 'byval', 'sret', 'memory', 'nofpclass', 'allocsize', 'elementtype'):
                self.next()
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()[1]
                        d += (x == '(') - (x == ')')
                elif v == 'align':
                    self.next()
            elif k == 'attr':
                self.next()
            else:
                return

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'void': t = ('void',)
            elif v == 'float': t = ('float',)
            elif v == 'double': t = ('double',)
            elif v == 'ptr': t = ('ptr',)
            elif v == 'label': t = ('label',)
            elif v == 'metadata': t = ('meta',)
            elif v == 'x86_fp80': t = ('fp80',)
            elif re.match(r'i\d+$', v): t = ('int', int(v[1:]))
            elif v == 'opaque': t = ('struct', (), False)
            else: raise Unsupported('type ' + v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type()); self.accept(',')
                self.expect('>')
                t = ('struct', tuple(fs), True)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type()); self.accept(',')
            t = ('struct', tuple(fs), False)
        elif k == 'loc':
            t = self.m.types[v]
        else:
            raise Unsupported('type token %r' % (v,))
        # function types in calls: "void (i32, ...)"
        if self.peek()[1] == '(' and t[0] != 'label':
            d = 0
            j = self.i
            while True:
                x = self.t[j][1]
                d += (x == '(') - (x == ')')
                j += 1
                if d == 0:
                    break
            if j < len(self.t) and self.t[j][0] in ('glob', 'loc'):
                self.i = j
        return t

    def value(self, t):
        """Python expression of a value of type t."""
        k, v = self.next()
        if k == 'loc':
            return reg(v)
        if k == 'glob':
            return 'GLOB(%r)' % v[1:].strip('"')
        if k == 'num':
            if t[0] in ('float', 'double', 'fp80'):
                return repr(float(v))
            if t == ('int', 1):
                return 'True' if v not in ('0',) else 'False'
            return '(%s)' % WRAP(int(v), t[1])
        if k == 'hex':
            if v[2] == 'K':
                b = int(v[3:], 16)
                sg = -1.0 if b >> 79 else 1.0
                ex = (b >> 64) & 0x7fff
                return flit(sg * math.ldexp(float(b & ((1 << 64) - 1)), ex - 16383 - 63) if b & ((1 << 79) - 1) else 0.0)
            f = struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0]
            return flit(f)
        if k == 'id':
            if v == 'true': return 'True'
            if v == 'false': return 'False'
            if v == 'null': return 'NULL'
            if v in ('undef', 'poison'):
                if t[0] == 'vec':
                    return '[%s]' % ', '.join(['UNINIT'] * t[1])
                if t[0] == 'struct':
                    return '[%s]' % ', '.join(['UNINIT'] * len(t[1]))
                return 'UNINIT'
            if v == 'zeroinitializer':
                return zero(t)
            if v == 'getelementptr':
                self.flags()
                self.expect('(')
                e = self.gep()
                self.expect(')')
                return e
            if v in ('bitcast', 'inttoptr', 'ptrtoint'):
                self.expect('(')
                ft = self.type(); x = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
                return x if v == 'bitcast' else '%s(%s)' % (v, x)
            if v == 'splat':
                self.expect('('); et = self.type(); x = self.value(et); self.expect(')')
                return '[%s]' % ', '.join([x] * t[1])
        if v == '<' or v == '[' or v == '{':
            close = {'<': '>', '[': ']', '{': '}'}[v]
            xs = []
            while not self.accept(close):
                et = self.type()
                xs.append(self.value(et))
                self.accept(',')
            return '[%s]' % ', '.join(xs)
        if k == 'str':
            return 'CSTR(%r)' % v
        raise Unsupported('IR value %r' % (v,))

    def tvalue(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)

    def gep(self):
        t = self.type()
        self.expect(',')
        self.type()
        base = self.value(('ptr',))
        const = 0
        terms = []
        cur = t
        first = True
        while self.accept(','):
            if self.peek()[0] == 'meta':
                self.i = len(self.t)
                break
            self.accept('inrange')
            it = self.type()
            iv = self.value(it)
            m = re.match(r'^\((-?\d+)\)$', iv)
            if first:
                sz = sizeof(cur); first = False
            elif cur[0] in ('arr', 'vec'):
                cur = cur[2]; sz = sizeof(cur)
            elif cur[0] == 'struct':
                j = int(m.group(1))
                const += fieldoff(cur, j)
                cur = cur[1][j]
                continue
            else:
                raise Unsupported('gep into %r' % (cur,))
            if m:
                const += int(m.group(1)) * sz
            else:
                terms.append('%s*%d' % (iv, sz) if sz != 1 else iv)
        if const or not terms:
            terms.append(str(const))
        return 'GEP(%s, %s)' % (base, ' + '.join(terms))


def flit(f):
    if f != f: return 'NAN'
    if f == math.inf: return 'INF'
    if f == -math.inf: return '(-INF)'
    return repr(f)


def zero(t):
    k = t[0]
    if k == 'int': return 'False' if t[1] == 1 else '(0)'
    if k in ('float', 'double', 'fp80'): return '0.0'
    if k == 'ptr': return 'NULL'
    if k in ('vec', 'arr'): return '[%s]' % ', '.join([zero(t[2])] * t[1])
    if k == 'struct': return '[%s]' % ', '.join(zero(f) for f in t[1])
    raise Unsupported('zero of %r' % (t,))


_regs = {}


def reg(v):
    r = _regs.get(v)
    if r is None:
        r = _regs[v] = 'r_' + re.sub(r'\W', lambda m: '_%x_' % ord(m.group()), v[1:].strip('"'))
    return r


ARITH = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
         'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint',
         'inttoptr'}


def arith_expr(op, t, a, b, fl):
    if op in ('fadd', 'fsub'):
        e = '(%s) %s (%s)' % (a, '+' if op == 'fadd' else '-', b)
        return 'F32(%s)' % e if t[0] == 'float' else e
    if op in ('fmul', 'fdiv', 'frem'):
        e = '%s(%s, %s)' % (op.upper(), a, b)
        return 'F32(%s)' % e if t[0] == 'float' else e
    n = t[1]
    if op in ('add', 'sub', 'mul'):
        if n == 1:
            return 'XOR(%s, %s, 1)' % (a, b) if op != 'mul' else 'AND(%s, %s, 1)' % (a, b)
        return 'WRAP(%s %s %s, %d)' % (a, {'add': '+', 'sub': '-', 'mul': '*'}[op], b, n)
    if op in ('sdiv', 'srem'):
        return '%s(%s, %s)' % (op.upper(), a, b)
    if op == 'or' and 'disjoint' in fl:
        return 'ORD(%s, %s, %d)' % (a, b, n)
    return '%s(%s, %s, %d)' % (op.upper(), a, b, n)


def cast_expr(op, x, ft, tt):
    if op == 'sext':
        return 'SEXT1(%s)' % x if ft[1] == 1 else 'SEXTN(%s, %d)' % (x, ft[1]) if ft[1] <= 16 else x
    if op == 'zext':
        if ft[1] == 1:
            return 'ZEXT1(%s)' % x
        return ('ZEXTN(%s, %d)' if ft[1] <= 16 else 'U(%s, %d)') % (x, ft[1])
    if op == 'trunc': return 'TRUNC(%s, %d)' % (x, tt[1])
    if op == 'fptosi': return 'FPTOSI(%s, %d)' % (x, tt[1])
    if op == 'fptoui': return 'FPTOUI(%s, %d)' % (x, tt[1])
    if op == 'sitofp': return ('F32(SITOFP(%s))' if tt[0] == 'float' else 'SITOFP(%s)') % x
    if op == 'uitofp':
        return ('F32(UITOFP(%s, %d))' if tt[0] == 'float' else 'UITOFP(%s, %d)') % (x, ft[1])
    if op == 'fpext': return x
    if op == 'fptrunc': return 'F32(%s)' % x if tt[0] == 'float' else x
    if op == 'bitcast': return 'BITCAST(%s, %r, %r)' % (x, ft, tt)
    return '%s(%s)' % (op, x)


class Module:
    """A set of translated functions from several IR files."""

    def __init__(self, externs=None, max_steps=50_000_000):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.sources = {}
        self.defs = {}        # name -> (params, body lines)
        self.ext = dict(EXT)
        if externs:
            self.ext.update(externs)
        self.steps = 0
        self.max_steps = max_steps
        self.ginit = {}
        self.allocs = []
        self.used = set()
        self.ns = None

    def load(self, path, prefix=''):
        txt = open(path).read()
        # static functions and globals are private to a file
        internal = set(re.findall(r'^define internal [^@]*@([-\w.$]+)', txt, re.M))
        internal |= set(re.findall(r'^@([-\w.$]+) = (?:internal|private)', txt, re.M))
        ren = {x: prefix + '$' + x for x in internal} if prefix else {}
        lines = txt.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r'^(%[-\w.$"]+) = type (.*)$', ln)
            if m:
                self.types[m.group(1)] = P(self, lex(m.group(2))).type()
            i += 1
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('@'):
                self._global(ln, ren)
            elif ln.startswith('define '):
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                name = re.search(r'@("[^"]+"|[-\w.$]+)\(', ln).group(1).strip('"')
                self.defs[ren.get(name, name)] = (ln, body, ren)
            i += 1

    def _global(self, ln, ren):
        m = re.match(r'^@("[^"]+"|[-\w.$]+) = (.*)$', ln)
        name = m.group(1).strip('"')
        rest = m.group(2)
        is_const = ' constant ' in ' ' + rest
        m2 = re.search(r'(?:^|\s)(?:global|constant) ', rest)
        if not m2:
            return
        p = P(self, lex(rest[m2.end():]))
        t = p.type()
        if 'external' in rest[:m2.start()].split():
            self.ginit[ren.get(name, name)] = (t, None, is_const, ren)
            return
        self.ginit[ren.get(name, name)] = (t, p, is_const, ren)

    # ---- globals
    def glob(self, name):
        if name in self.globals:
            return self.globals[name]
        if name in self.defs or name in self.ext:
            v = FnPtr(name)
        elif name in self.ginit:
            t, p, is_const, ren = self.ginit[name]
            m = Mem(sizeof(t), 'global', name)
            v = Ptr(m, 0)
            self.globals[name] = v
            if p is not None:
                p.i = 0
                p.type()
                init = p.value(t)
                val = eval(init, self._ns(ren))
                self._store(m, 0, t, val)
                if is_const:
                    m.kind = 'const'
        else:
            raise Unsupported('unknown global ' + name)
        self.globals[name] = v
        return v

    def _store(self, m, off, t, v):
        k = t[0]
        if k in ('arr', 'vec'):
            for i, x in enumerate(v):
                self._store(m, off + i * sizeof(t[2]), t[2], x)
        elif k == 'struct':
            # aggregate of mixed widths: use the pointer width when uniform, else bytes
            for i, x in enumerate(v):
                self._store(m, off + fieldoff(t, i), t[1][i], x)
        else:
            m.put(off, sizeof(t), v)

    def reset(self):
        """Forget the state of mutable globals (a new process)."""
        self.globals = {}
        self.allocs = []

    # ---- functions
    def _ns(self, ren):
        key = id(ren)
        ns = self.nss.get(key) if hasattr(self, 'nss') else None
        if ns is None:
            if not hasattr(self, 'nss'):
                self.nss = {}
            ns = dict(NS)
            ns['GLOB'] = lambda n, r=ren: self.glob(r.get(n, n))
            ns['CALL'] = lambda n, *a, r=ren: self.call(r.get(n, n), *a)
            ns['CALLP'] = self.callp
            ns['MOD'] = self
            ns['STEP'] = self.step
            self.nss[key] = ns
        return ns

    def step(self, n):
        self.steps += n
        if self.steps > self.max_steps:
            raise StepLimit('instruction limit %d' % self.max_steps)

    def callp(self, f, *a):
        if isinstance(f, FnPtr):
            return self.call(f.name, *a)
        raise MemError('call through a bad function pointer')

    def call(self, name, *a):
        f = self.fns.get(name)
        if f is None:
            if name in self.ext and name not in self.defs:
                e = self.ext[name]
                f = lambda *x: e(self, *x)
            elif name in self.defs:
                f = self.translate(name)
                self.used.add(name)
            elif name.startswith('llvm.'):
                e = intrinsic(name)
                f = lambda *x: e(self, *x)
            else:
                raise Unsupported('external function ' + name)
            self.fns[name] = f
        return f(*a)

    def translate(self, name):
        head, body, ren = self.defs[name]
        m = re.search(r'@(?:"[^"]+"|[-\w.$]+)(\(.*)$', head)
        toks = lex(re.sub(r'\s+comdat.*$|\{$', '', m.group(1)))
        p = P(self, toks)
        p.expect('(')
        params = []
        d = 0
        while not p.accept(')'):
            if p.peek()[1] == '...':
                p.next()
                continue
            p.type()
            p.attrs()
            if p.peek()[0] == 'loc':
                params.append(reg(p.next()[1]))
            p.accept(',')
        # split in blocks
        blocks = []
        cur = None
        nparam = len(params)
        first_label = None
        joined = []
        for ln in body:
            s = ln.split(' ; ')[0] if not '"' in ln else ln
            s = re.sub(r';[^"]*$', '', ln) if ';' in ln and '"' not in ln else ln
            s = s.rstrip()
            if not s.strip():
                continue
            if joined and (joined[-1].lstrip().startswith('switch') and ']' not in joined[-1]):
                joined[-1] += ' ' + s.strip()
                continue
            joined.append(s)
        for s in joined:
            m = re.match(r'^("[^"]+"|[-\w.$]+):', s)
            if m:
                cur = ('%' + m.group(1).strip('"'), [])
                blocks.append(cur)
            else:
                if cur is None:
                    cur = ('%entry!', [])
                    blocks.append(cur)
                cur[1].append(s.strip())
        if blocks[0][0] == '%entry!':
            # implicit label: number after the unnamed parameters
            num = sum(1 for x in params if re.match(r'r_\d+$', x))
            blocks[0] = ('%' + str(num), blocks[0][1])
        idx = {b[0]: i for i, b in enumerate(blocks)}
        parsed = []
        phis = {}       # block -> list of (reg, {pred: expr})
        for lbl, ins in blocks:
            out = []
            phs = []
            for s in ins:
                self._ins(s, out, phs)
            parsed.append(out)
            phis[lbl] = phs
        code = ['def f(%s):' % ', '.join(params), '  b = 0', '  while True:']

        def jump(src, dst, ind):
            ph = phis[dst]
            r = []
            if ph:
                lhs = ', '.join(x for x, _ in ph)
                rhs = ', '.join(m[src] for _, m in ph)
                if len(ph) == 1:
                    r.append('%s%s = %s' % (ind, lhs, rhs))
                else:
                    r.append('%s%s = %s' % (ind, lhs, rhs))
            r.append('%sb = %d' % (ind, idx[dst]))
            return r

        byname = dict(zip([b_[0] for b_ in blocks], parsed))

        def pure(lbl, src):
            """Statements of a block of plain arithmetic, loads and stores that falls through to one block, entered from
            src.  (Its registers are only used there and in the phis of the block it falls through to, as that block is
            also reached without it: so they can be assigned although the block has other predecessors.)"""
            out = byname[lbl]
            if out[-1][0] != 'br' or out[-1][1] == lbl:
                return None
            sts, stored = [], False
            if phis[lbl]:
                sts.append('%s, = %s,' % (', '.join(x for x, _ in phis[lbl]), ', '.join(m[src] for _, m in phis[lbl])))
            for it in out[:-1]:
                if it[0] != 'x':
                    return None
                e = it[1]
                if e.startswith('ST('):
                    stored = True
                    sts.append('w_.append(%s)' % e[2:])
                elif re.match(r'r_\w+ = ', e) and not re.search(r'\b(CALLP?|FREM|SDIV|UDIV|SREM|UREM|FPTOSI|FPTOUI|ALLOCA|Mem|GLOBFN)\(', e):
                    if stored and 'LD' in e:
                        return None
                    sts.append(e)
                else:
                    return None
            return (sts, out[-1][1]) if len(sts) <= 24 else None

        def merge(src, it):
            """Both sides of a branch on a symbolic condition in one go, when they only compute and store."""
            tb, fb = it[2], it[3]
            if tb == fb:
                return None
            t, f = pure(tb, src), pure(fb, src)
            if t and t[1] == fb:
                join, sides = fb, [(True, t, tb), (False, ([], fb), src)]
            elif f and f[1] == tb:
                join, sides = tb, [(True, ([], tb), src), (False, f, fb)]
            elif t and f and t[1] == f[1]:
                join, sides = t[1], [(True, t, tb), (False, f, fb)]
            else:
                return None
            r = ['c_ = %s' % it[1], 'if SYMBOLIC(c_):', ' try:', '  w_ = []']
            for k, (_, (sts, _), _) in enumerate(sides):
                dv = any('FDIV(' in x for x in sts)
                if dv:
                    r += ['  GUARD(%s)' % ('NOT_(c_)' if k else 'c_')]
                r += ['  ' + x for x in sts]
                if dv:
                    r += ['  UNGUARD()']
                if k == 0:
                    r += ['  w1_, w_ = w_, []']
            r += ['  m_ = MERGED(c_, w1_, w_)']
            ph = phis[join]
            if ph:
                r += ['  p_ = [%s]' % ', '.join('SELP(c_, %s, %s)' % (m[sides[0][2]], m[sides[1][2]]) for _, m in ph)]
            r += [' except NOMERGE:', '  UNGUARD()', ' else:', '  COMMIT(m_)']
            if ph:
                r += ['  %s, = p_' % ', '.join(x for x, _ in ph)]
            r += ['  b = %d' % idx[join], '  c_ = None']
            return r

        def emit(lo, hi, ind):
            if hi - lo == 1:
                lbl = blocks[lo][0]
                code.append('%sSTEP(%d)' % (ind, len(parsed[lo])))
                for it in parsed[lo]:
                    if it[0] == 'x':
                        code.append(ind + it[1])
                    elif it[0] == 'ret':
                        code.append('%sreturn %s' % (ind, it[1]))
                    elif it[0] == 'br':
                        code.extend(jump(lbl, it[1], ind))
                    elif it[0] == 'cbr':
                        mg = merge(lbl, it)
                        if mg:
                            code.extend(ind + l for l in mg)
                            ind0, ind = ind, ind + ' '
                            code.append(ind0 + 'if c_ is not None:')
                            it = ('cbr', 'c_', it[2], it[3])
                        code.append('%sif COND(%s):' % (ind, it[1]))
                        code.extend(jump(lbl, it[2], ind + ' '))
                        code.append('%selse:' % ind)
                        code.extend(jump(lbl, it[3], ind + ' '))
                    elif it[0] == 'switch':
                        code.append('%ss = COND_I(%s)' % (ind, it[1]))
                        kw = 'if'
                        for c, d2 in it[3]:
                            code.append('%s%s s == %s:' % (ind, kw, c))
                            code.extend(jump(lbl, d2, ind + ' '))
                            kw = 'elif'
                        if it[3]:
                            code.append('%selse:' % ind)
                            code.extend(jump(lbl, it[2], ind + ' '))
                        else:
                            code.extend(jump(lbl, it[2], ind))
                return
            mid = (lo + hi) // 2
            code.append('%sif b < %d:' % (ind, mid))
            emit(lo, mid, ind + ' ')
            code.append('%selse:' % ind)
            emit(mid, hi, ind + ' ')

        emit(0, len(blocks), '    ')
        src = '\n'.join(code)
        ns = self._ns(ren)
        loc = {}
        exec(compile(src, '<ir:%s>' % name, 'exec'), ns, loc)
        self.sources[name] = src
        return loc['f']

    def _ins(self, s, out, phs):
        p = P(self, lex(s))
        dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = reg(p.next()[1])
            p.next()
        fl = p.flags()
        op = p.next()[1]
        x = lambda e: out.append(('x', '%s = %s' % (dst, e)))
        if op in ARITH:
            fl |= p.flags()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            if t[0] == 'vec':
                e = arith_expr(op, t[2], 'x_', 'y_', fl)
                x('[%s for x_, y_ in zip(%s, %s)]' % (e, a, b))
            else:
                x(arith_expr(op, t, a, b, fl))
        elif op == 'fneg':
            p.flags()
            t = p.type(); a = p.value(t)
            x('[-x_ for x_ in %s]' % a if t[0] == 'vec' else 'FNEG(%s)' % a)
        elif op in ('icmp', 'fcmp'):
            p.flags()
            pred = p.next()[1]
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            if t[0] == 'vec':
                n = t[2][1] if t[2][0] == 'int' else 64
                e = 'FCMP(%r, x_, y_)' % pred if op == 'fcmp' else 'ICMP(%r, x_, y_, %d)' % (pred, n)
                x('[%s for x_, y_ in zip(%s, %s)]' % (e, a, b))
            elif op == 'fcmp':
                x('FCMP(%r, %s, %s)' % (pred, a, b))
            else:
                x('ICMP(%r, %s, %s, %d)' % (pred, a, b, t[1] if t[0] == 'int' else 64))
        elif op in CASTS:
            p.flags()
            ft = p.type(); a = p.value(ft); p.expect('to'); tt = p.type()
            if ft[0] == 'vec' and op != 'bitcast':
                x('[%s for x_ in %s]' % (cast_expr(op, 'x_', ft[2], tt[2]), a))
            else:
                x(cast_expr(op, a, ft, tt))
        elif op == 'select':
            p.flags()
            ct = p.type(); c = p.value(ct); p.expect(',')
            t1, a = p.tvalue(); p.expect(','); t2, b = p.tvalue()
            x('SEL(%s, %s, %s)' % (c, a, b))
        elif op == 'freeze':
            t, a = p.tvalue()
            x(a)
        elif op == 'phi':
            p.flags()
            t = p.type()
            m = {}
            while True:
                p.expect('[')
                v = p.value(t); p.expect(',')
                lb = p.next()[1]
                p.expect(']')
                m['%' + lb[1:].strip('"')] = v
                if not p.accept(','):
                    break
                if p.peek()[0] == 'meta':
                    break
            phs.append((dst, m))
        elif op == 'load':
            p.flags()
            t = p.type(); p.expect(','); p.type(); a = p.value(('ptr',))
            x(load_expr(t, a))
        elif op == 'store':
            p.flags()
            t, v = p.tvalue(); p.expect(','); p.type(); a = p.value(('ptr',))
            out.append(('x', store_stmt(t, a, v)))
        elif op == 'getelementptr':
            p.flags()
            x(p.gep())
        elif op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = '1'
            if p.accept(',') and p.peek()[1] != 'align' and p.peek()[0] != 'meta':
                _, n = p.tvalue()
            x('Ptr(Mem(%d*%s, "stack", %r), 0)' % (sizeof(t), n, dst))
        elif op == 'br':
            if p.peek()[1] == 'label':
                p.next()
                out.append(('br', '%' + p.next()[1][1:].strip('"')))
            else:
                t, c = p.tvalue(); p.expect(',')
                p.next(); a = '%' + p.next()[1][1:].strip('"'); p.expect(',')
                p.next(); b = '%' + p.next()[1][1:].strip('"')
                out.append(('cbr', c, a, b))
        elif op == 'switch':
            t, v = p.tvalue(); p.expect(','); p.next(); d = '%' + p.next()[1][1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.tvalue(); p.expect(','); p.next()
                cases.append((cv, '%' + p.next()[1][1:].strip('"')))
            out.append(('switch', v, d, cases))
        elif op == 'ret':
            t = p.type()
            out.append(('ret', 'None' if t[0] == 'void' else p.value(t)))
        elif op == 'unreachable':
            out.append(('x', 'raise Unsupported("unreachable")'))
        elif op == 'call':
            p.flags()
            p.attrs()
            while p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.attrs()
            t = p.type()
            k, f = p.next()
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                p.attrs()
                if at[0] == 'meta':
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        y = p.next()[1]
                        d += (y == '(') - (y == ')')
                    args.append('None')
                else:
                    args.append(p.value(at))
                p.accept(',')
            if k == 'glob':
                fn = f[1:].strip('"')
                if fn.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.va_')):
                    return
                e = 'CALL(%s)' % ', '.join([repr(fn)] + args)
            else:
                e = 'CALLP(%s)' % ', '.join([reg(f)] + args)
            out.append(('x', ('%s = %s' % (dst, e)) if dst else e))
        elif op == 'extractvalue':
            t, v = p.tvalue()
            while p.accept(','):
                if p.peek()[0] != 'num':
                    break
                v = '%s[%s]' % (v, p.next()[1])
            x(v)
        elif op == 'insertvalue':
            t, v = p.tvalue(); p.expect(','); t2, e = p.tvalue(); p.expect(','); i = p.next()[1]
            x('INSV(%s, %s, %s)' % (v, i, e))
        elif op == 'extractelement':
            t, v = p.tvalue(); p.expect(','); t2, i = p.tvalue()
            x('%s[%s]' % (v, i))
        elif op == 'insertelement':
            t, v = p.tvalue(); p.expect(','); t2, e = p.tvalue(); p.expect(','); t3, i = p.tvalue()
            x('INSV(%s, %s, %s)' % (v, i, e))
        elif op == 'shufflevector':
            t, v = p.tvalue(); p.expect(','); t2, w = p.tvalue(); p.expect(','); t3, mk = p.tvalue()
            x('SHUF(%s, %s, %s)' % (v, w, mk))
        elif op == 'fence':
            return
        elif op == 'atomicrmw':
            p.flags()
            kind = p.next()[1]
            p.type(); a = p.value(('ptr',)); p.expect(','); t, v = p.tvalue()
            x(load_expr(t, a))
            e = arith_expr(kind, t, dst, v, ()) if kind in ARITH else None
            if e is None:
                raise Unsupported('atomicrmw ' + kind)
            out.append(('x', store_stmt(t, a, e)))
        else:
            raise Unsupported('IR instruction ' + op)


def load_expr(t, a):
    k = t[0]
    if k == 'float': return 'LDF(%s, 4)' % a
    if k == 'double': return 'LDF(%s, 8)' % a
    if k == 'fp80': return 'LDF(%s, 16)' % a
    if k == 'int':
        return 'LDB(%s)' % a if t[1] == 1 else 'LDI(%s, %d)' % (a, sizeof(t))
    if k == 'ptr': return 'LDP(%s)' % a
    if k in ('vec', 'arr'):
        return '[%s]' % ', '.join(load_expr(t[2], 'GEP(%s, %d)' % (a, i * sizeof(t[2]))) for i in range(t[1]))
    if k == 'struct':
        return '[%s]' % ', '.join(load_expr(f, 'GEP(%s, %d)' % (a, fieldoff(t, i))) for i, f in enumerate(t[1]))
    raise Unsupported('load %r' % (t,))


def store_stmt(t, a, v):
    k = t[0]
    if k in ('float', 'double', 'ptr', 'fp80') or (k == 'int' and t[1] > 1):
        return 'ST(%s, %d, %s)' % (a, sizeof(t), v)
    if k == 'int':
        return 'ST(%s, 1, ZEXT1(%s))' % (a, v)
    if k in ('vec', 'arr'):
        return 'STV(%s, %d, %s)' % (a, sizeof(t[2]), v)
    if k == 'struct':
        return 'STS(%s, %r, %s)' % (a, [(fieldoff(t, i), sizeof(f)) for i, f in enumerate(t[1])], v)
    raise Unsupported('store %r' % (t,))


def STV(p, es, v):
    for i, x in enumerate(v):
        ST(GEP(p, i * es), es, x)


def STS(p, lay, v):
    for (o, n), x in zip(lay, v):
        ST(GEP(p, o), n, x)


def INSV(v, i, e):
    r = list(v)
    r[i] = e
    return r


def SHUF(v, w, m):
    s = list(v) + list(w)
    return [UNINIT if isinstance(i, Undef) else s[i] for i in m]


def COND(c):
    if c is True or c is False:
        return c
    if isinstance(c, Undef):
        raise MemError('branch on an uninitialised value')
    if isinstance(c, Node):
        return C.decide(c)
    return bool(c)


def SYMBOLIC(c):
    """A condition that both the path so far and the box of the inputs leave open."""
    if c.__class__ is not Node or C.CUR is None:
        return False
    neg = c.op == 'not'
    if (c.args[0].id if neg else c.id) in C.CUR.known:
        return False
    if interval.truth(c, C.CUR.ranges, C.CUR.memo) is not None:
        return False
    return not C.CUR.implied(c)


class NoMerge(Exception):
    pass


NOMERGE = (NoMerge, MemError, Unsupported, TypeError)


def _mrg(c, a, b):
    """ite(c, a, b) of two values of one memory cell or register."""
    if a is b or (a.__class__ is b.__class__ and a.__class__ in (int, float, bool) and a == b):
        return a
    for x in (a, b):
        if not (x.__class__ in (int, float, bool) or isinstance(x, Node)):
            raise NoMerge()
    sa = a.sort if isinstance(a, Node) else None
    sb = b.sort if isinstance(b, Node) else None
    k = sa or sb
    if k == 'R':
        if sa == 'I' or sb == 'I' or sa == 'B' or sb == 'B':
            raise NoMerge()
        for x in (a, b):
            if x.__class__ is not float and not isinstance(x, Node):
                if x == 0 and x.__class__ is int:
                    continue
                raise NoMerge()
            if x.__class__ is float and not math.isfinite(x):
                raise NoMerge()
        return T.ite(c, float(a) if a.__class__ is int else a, float(b) if b.__class__ is int else b)
    if k == 'B' or (sa and sb and sa != sb):
        if sa == sb or (a.__class__ is bool or b.__class__ is bool):
            return T.ite(c, a, b)
        raise NoMerge()
    if k == 'I':
        if a.__class__ is float or b.__class__ is float:
            raise NoMerge()
        return T.ite(c, a, b)
    if a.__class__ is not b.__class__:
        raise NoMerge()
    if a.__class__ is float and not (math.isfinite(a) and math.isfinite(b)):
        raise NoMerge()
    return T.ite(c, a, b)


def GUARD(c):
    """Divisions up to UNGUARD are only carried out where c holds."""
    C.CUR.guard = c


NOT_ = T.not_


def UNGUARD():
    C.CUR.guard = None


def SELP(c, a, b):
    # counters and indices are kept apart by forking
    for x in (a, b):
        if x.__class__ is not float and not (x.__class__ is Node and x.sort == 'R'):
            if a is not b:
                raise NoMerge()
    return _mrg(c, a, b)


def MERGED(c, wt, wf):
    """Stores of the two sides as unconditional ones: [(object, offset, size, value)]."""
    cells = {}
    order = []
    for k, ws in enumerate((wt, wf)):
        for p, n, v in ws:
            o = _deref(p)
            if p.off.__class__ is not int or o.es != n or o.log is not None:
                raise NoMerge()
            o.chk(p.off, n)
            if o.kind == 'const':
                raise NoMerge()
            key = (id(o), p.off)
            if key not in cells:
                if n != o.es or p.off % n:
                    raise NoMerge()
                old = o.get(p.off, n)
                cells[key] = [o, p.off, n, old, old]
                order.append(key)
            cells[key][3 + k] = v
    out = []
    for key in order:
        o, off, n, a, b = cells[key]
        out.append((o, off, n, _mrg(c, a, b)))
    return out


def COMMIT(ws):
    for o, off, n, v in ws:
        o.put(off, n, v)


def COND_I(v):
    if isinstance(v, Undef):
        raise MemError('switch on an uninitialised value')
    return C.concretize(v) if isinstance(v, Node) else v


def CSTR(s):
    body = s[2:-1]
    out = []
    i = 0
    while i < len(body):
        if body[i] == '\\':
            if body[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(body[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(body[i])); i += 1
    return [x - 256 if x > 127 else x for x in out]


# --------------------------------------------------------------------------------- externals
_libm = ctypes.CDLL('libm.so.6')


def _m(name, n=1, w=64):
    f = getattr(_libm, name)
    ty = ctypes.c_float if w == 32 else ctypes.c_double
    f.restype = ty
    f.argtypes = [ty] * n
    return f


def _libm_fn(name, base, n=1, w=64, sym=None):
    f = _m(name, n, w)

    def g(mod, *a):
        if all(x.__class__ is float for x in a):
            return f(*a)
        for x in a:
            _chk(x)
        if sym is None:
            return T.uf(base, *a)
        return sym(*a)
    return g


def _floor_s(x): return T.to_real(T.to_int_floor(x))
def _ceil_s(x): return T.neg(T.to_real(T.to_int_floor(T.neg(x))))
def _trunc_s(x): return T.to_real(T.to_int_trunc(x))


def _fmod_s(a, b):
    raise Unsupported('fmod of symbolic')


def _round_s(x):
    h = T.to_real(T.to_int_floor(T.add(T.absv(x), 0.5)))
    return T.ite(T.lt(x, 0), T.neg(h), h)


EXT = {}
for _b, _n, _s in [('sin', 1, None), ('cos', 1, None), ('tan', 1, None), ('exp', 1, None), ('log', 1, None),
                   ('log10', 1, None), ('atan', 1, None), ('atan2', 2, None), ('hypot', 2, None), ('tanh', 1, None),
                   ('sqrt', 1, T.sqrt), ('fabs', 1, T.absv), ('pow', 2, T.power), ('floor', 1, _floor_s),
                   ('ceil', 1, _ceil_s), ('trunc', 1, _trunc_s), ('round', 1, _round_s), ('fmod', 2, _fmod_s),
                   ('fmin', 2, T.minv), ('fmax', 2, T.maxv), ('rint', 1, _fmod_s), ('nearbyint', 1, _fmod_s),
                   ('copysign', 2, _fmod_s)]:
    EXT[_b] = _libm_fn(_b, _b, _n, 64, _s)
    EXT[_b + 'f'] = _libm_fn(_b + 'f', _b, _n, 32, _s)


def ext(name):
    def d(f):
        EXT[name] = f
        return f
    return d


def _ldexp(mod, x, e):
    e = _conc(e)
    return T.mul(x, 2.0 ** e) if isinstance(x, Node) else math.ldexp(x, e)


EXT['ldexp'] = EXT['ldexpf'] = EXT['scalbn'] = _ldexp
EXT['exp2'] = EXT['exp2f'] = lambda mod, x: 2.0 ** _conc(x)


def _conc(n):
    if isinstance(n, Undef):
        raise MemError('allocation of an uninitialised size')
    return C.concretize(n) if isinstance(n, Node) else n


@ext('malloc')
def _malloc(mod, n):
    m = Mem(U(_conc(n), 64), 'heap', 'malloc#%d' % len(mod.allocs))
    mod.allocs.append(m)
    return Ptr(m, 0)


@ext('calloc')
def _calloc(mod, a, b):
    m = Mem(U(_conc(a), 64) * U(_conc(b), 64), 'heap', 'calloc#%d' % len(mod.allocs), fill=0)
    mod.allocs.append(m)
    return Ptr(m, 0)


@ext('realloc')
def _realloc(mod, p, n):
    n = U(_conc(n), 64)
    m = Mem(n, 'heap', 'realloc#%d' % len(mod.allocs))
    mod.allocs.append(m)
    if p.o is not None:
        k = min(n, p.o.size)
        es, c = p.o.raw(0, k)
        m.setraw(0, k, es, c)
        p.o.alive = False
    return Ptr(m, 0)


@ext('free')
def _free(mod, p):
    if p.o is None:
        return
    if not p.o.alive:
        raise MemError('double free of %s' % p.o.desc())
    if p.o.kind != 'heap' or p.off != 0:
        raise MemError('free of a pointer that was not allocated (%s)' % p.o.desc())
    p.o.alive = False


def _align_malloc(mod, *a):
    return _malloc(mod, a[-1])


EXT['aligned_alloc'] = _align_malloc
EXT['memalign'] = _align_malloc


@ext('posix_memalign')
def _pma(mod, pp, al, n):
    ST(pp, 8, _malloc(mod, n))
    return 0


# FFTW by its contract: exact unnormalised DFTs over the terms, in place
def _plan(mod, *a):
    m = Mem(8, 'plan', 'fftw plan')
    p = Ptr(m, 0)
    if not hasattr(mod, 'plans'):
        mod.plans = {}
    mod.plans[id(m)] = (m, a)
    return p


EXT['fftwf_plan_dft_1d'] = lambda mod, n, i, o, sign, fl: _plan(mod, (n,), i, o, sign)
EXT['fftwf_plan_dft_2d'] = lambda mod, n, m, i, o, sign, fl: _plan(mod, (n, m), i, o, sign)
EXT['fftwf_make_planner_thread_safe'] = lambda mod: None
EXT['fftwf_init_threads'] = lambda mod: 1
EXT['fftwf_plan_with_nthreads'] = lambda mod, n: None


@ext('fftwf_execute')
def _fftw_exec(mod, p):
    if p.o is None or not p.o.alive or id(p.o) not in mod.plans:
        raise MemError('fftwf_execute of a bad plan')
    _, (dims, i, o, sign) = mod.plans[id(p.o)]
    from . import csym
    n = 1
    for d in dims:
        n *= d
    src = []
    for k in range(n):
        src.append(csym.CSym(_chk(LDF(Ptr(i.o, i.off + 8 * k), 4)), _chk(LDF(Ptr(i.o, i.off + 8 * k + 4), 4))))
    if len(dims) == 1:
        out = csym.dft1f(src, sign)
    else:
        r, c = dims
        rows = [csym.dft1f(src[x * c:(x + 1) * c], sign) for x in range(r)]
        cols = [csym.dft1f([rows[x][y] for x in range(r)], sign) for y in range(c)]
        out = [cols[y][x] for x in range(r) for y in range(c)]
    for k, v in enumerate(out):
        ST(Ptr(o.o, o.off + 8 * k), 4, F32(v.re))
        ST(Ptr(o.o, o.off + 8 * k + 4), 4, F32(v.im))


@ext('fftwf_destroy_plan')
def _fftw_destroy(mod, p):
    if p.o is None or not p.o.alive:
        raise MemError('fftwf_destroy_plan of a bad plan')
    p.o.alive = False


@ext('memcpy')
def _memcpy(mod, d, s, n, *_):
    n = _conc(n)
    if n == 0:
        return d
    es, c = _deref(s).raw(s.off, n)
    _deref(d).setraw(d.off, n, es, c)
    return d


EXT['memmove'] = _memcpy


@ext('memset')
def _memset(mod, d, v, n, *_):
    n = _conc(n)
    if n == 0:
        return d
    v = _conc(v)
    o = _deref(d)
    if v & 255 == 0:
        o.setraw(d.off, n, None, 0)
    else:
        o.chk(d.off, n)
        b = v & 255
        if isinstance(o, ArrMem):
            es = o.es
            w = int.from_bytes(bytes([b] * es), 'little')
            o.setraw(d.off, n, None, w)
        else:
            o.setraw(d.off, n, 1, [b if b < 128 else b - 256] * n)
    return d


@ext('strcmp')
def _strcmp(mod, a, b):
    i = 0
    while True:
        x = U(LDI(GEP(a, i), 1), 8)
        y = U(LDI(GEP(b, i), 1), 8)
        if x != y:
            return -1 if x < y else 1
        if x == 0:
            return 0
        i += 1


@ext('strncmp')
def _strncmp(mod, a, b, n):
    for i in range(n):
        x = U(LDI(GEP(a, i), 1), 8)
        y = U(LDI(GEP(b, i), 1), 8)
        if x != y:
            return -1 if x < y else 1
        if x == 0:
            return 0
    return 0


@ext('strlen')
def _strlen(mod, a):
    i = 0
    while LDI(GEP(a, i), 1) != 0:
        i += 1
    return i


@ext('abs')
def _abs(mod, a):
    return abs(a)


@ext('rand')
def _rand(mod):
    """Any number: fresh at every call."""
    if C.CUR is None:
        raise Unsupported('rand outside path exploration')
    C.CUR.nrand = getattr(C.CUR, 'nrand', 0) + 1
    r = T.var('rand!%d' % C.CUR.nrand, 'I')
    C.CUR.bound(r, 0, 2**31 - 1)
    return r


for _n in ('printf', 'puts', 'srand', 'fprintf', 'fflush', 'putchar', 'omp_set_num_threads', 'omp_set_dynamic', 'omp_in_parallel', 'fputs', 'fwrite', 'perror'):
    EXT[_n] = lambda mod, *a: 0
EXT['omp_get_max_threads'] = lambda mod: 1
EXT['omp_get_num_threads'] = lambda mod: 1
EXT['omp_get_thread_num'] = lambda mod: 0
EXT['__assert_fail'] = lambda mod, *a: (_ for _ in ()).throw(MemError('assertion failed'))


@ext('qsort')
def _qsort(mod, base, n, size, cmp):
    """Contract of qsort for a comparator: insertion sort driven by the program's own comparator."""
    n = _conc(n)
    if n <= 1:
        return
    o = _deref(base)
    es, cells = o.raw(base.off, n * size)
    if es != size:
        o._es(size, base.off)
        es, cells = o.raw(base.off, n * size)
    cells = list(cells)
    if any(isinstance(c, Node) for c in cells) and _ascending(mod, cmp, size, cells):
        out = sort_terms(cells)
    else:
        m1 = Mem(size, 'heap', 'cmp-a'); m2 = Mem(size, 'heap', 'cmp-b')
        out = []
        for v in cells:
            j = len(out)
            while j > 0:
                m1.put(0, size, out[j - 1]); m2.put(0, size, v)
                r = mod.callp(cmp, Ptr(m1, 0), Ptr(m2, 0))
                if COND(T.lt(0, r)):
                    j -= 1
                else:
                    break
            out.insert(j, v)
    o.setraw(base.off, n * size, size, out)


_asc = {}


def _ascending(mod, cmp, size, cells):
    """Does the comparator order by increasing value?  Decided by the solver on two fresh symbols."""
    if not isinstance(cmp, FnPtr):
        return False
    import z3
    sort = 'R' if any(T.sort_of(c) == 'R' for c in cells) else 'I'
    # an unsigned short, for example, is known to be one from the range of the values
    uns = sort == 'I' and all(_nonneg(c) for c in cells)
    key = (id(mod), cmp.name, size, sort, uns)
    if key in _asc:
        return _asc[key]
    a, b = T.var('cmp!a', sort), T.var('cmp!b', sort)
    dom = [T.le(0, a), T.le(a, (1 << 8 * size) - 1), T.le(0, b), T.le(b, (1 << 8 * size) - 1)] if uns else []
    ok = True

    def run():
        m1 = Mem(size, 'heap', 'cmp-a'); m2 = Mem(size, 'heap', 'cmp-b')
        m1.put(0, size, a); m2.put(0, size, b)
        return mod.callp(cmp, Ptr(m1, 0), Ptr(m2, 0))
    try:
        for r in C.explore(run, dom):
            if r.exc is not None:
                ok = False
                break
            s = z3.Solver()
            for c in r.pc:
                s.add(T.toz(c, 'B'))
            want = z3.And(T.toz(T.lt(0, r.value), 'B') == (T.toz(b) < T.toz(a)),
                          T.toz(T.lt(r.value, 0), 'B') == (T.toz(a) < T.toz(b)))
            s.add(z3.Not(want))
            if C.check(s) != z3.unsat:
                ok = False
                break
    except Unsupported:
        ok = False
    _asc[key] = ok
    return ok


def sort_terms(xs):
    """Sorting by a symbolic insertion network (min/max terms; no path forks)."""
    xs = list(xs)
    n = len(xs)
    if T.FORKS[0]:
        s = T.fork_sort(xs)
        if s is not None:
            return s
    if n > 6 and any(isinstance(x, Node) for x in xs):
        return [T.rank(k, xs) for k in range(n)]
    if any(isinstance(x, Node) for x in xs):
        # the order of the operands does not matter: give them a canonical one
        xs = sorted(x for x in xs if not isinstance(x, Node)) + sorted((x for x in xs if isinstance(x, Node)), key=lambda x: x.id)
    for i in range(1, n):
        for j in range(i, 0, -1):
            a, b = xs[j - 1], xs[j]
            if not isinstance(a, Node) and not isinstance(b, Node):
                if b < a:
                    xs[j - 1], xs[j] = b, a
                continue
            xs[j - 1], xs[j] = T.minv(a, b), T.maxv(a, b)
    return xs


def intrinsic(name):
    parts = name.split('.')
    k = parts[1]
    w = 32 if 'f32' in parts else 64
    sfx = 'f' if w == 32 else ''

    def vec(f):
        def g(mod, *a):
            if any(isinstance(x, list) for x in a):
                n = len(next(x for x in a if isinstance(x, list)))
                return [f(mod, *[x[i] if isinstance(x, list) else x for x in a]) for i in range(n)]
            return f(mod, *a)
        return g
    if k in ('sqrt', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'sin', 'cos', 'exp', 'log', 'pow', 'rint', 'nearbyint', 'copysign', 'log10'):
        return vec(EXT[k + sfx])
    if k in ('minnum', 'minimum'): return vec(EXT['fmin' + sfx])
    if k in ('maxnum', 'maximum'): return vec(EXT['fmax' + sfx])
    if k == 'fmuladd' or k == 'fma':
        def fma(mod, a, b, c):
            r = FMUL(a, b)
            if k == 'fmuladd' and w == 32:
                r = F32(r)
            r = r + c
            return F32(r) if w == 32 else r
        return vec(fma)
    if k in ('memcpy', 'memmove'): return EXT['memcpy']
    if k == 'memset': return EXT['memset']
    if k in ('smax', 'smin', 'umax', 'umin'):
        n = int(parts[2][1:]) if parts[2].startswith('i') else 64

        def mm(mod, a, b):
            if a.__class__ is int and b.__class__ is int:
                if k[0] == 'u':
                    return WRAP((max if 'max' in k else min)(U(a, n), U(b, n)), n)
                return max(a, b) if 'max' in k else min(a, b)
            return T.maxv(a, b) if 'max' in k else T.minv(a, b)
        return vec(mm)
    if k == 'abs':
        return vec(lambda mod, a, *_: T.absv(a))
    if k == 'powi':
        def powi(mod, a, n):
            r = 1.0
            for _ in range(abs(n)):
                r = FMUL(r, a)
            return r if n >= 0 else FDIV(1.0, r)
        return powi
    if k in ('stacksave', 'stackrestore', 'prefetch', 'trap'):
        return lambda mod, *a: NULL
    if k == 'expect':
        return lambda mod, a, *_: a
    if k in ('ctpop',):
        return lambda mod, a: bin(U(a, 64)).count('1')
    if k in ('ctlz', 'cttz'):
        n = int(parts[2][1:])
        return lambda mod, a, *_: (n - U(a, n).bit_length()) if k == 'ctlz' else ((U(a, n) & -U(a, n)).bit_length() - 1 if a else n)
    if k == 'fptosi' or (k == 'fptosi' and parts[2] == 'sat'):
        return lambda mod, a: FPTOSI(a, 32)
    if k in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub') and parts[2] == 'with':
        n = int(parts[-1][1:])

        def ov(mod, a, b):
            if k[0] == 'u':
                a, b = U(a, n), U(b, n)
            r = {'mul': a * b, 'add': a + b, 'sub': a - b}[k[1:]]
            w2 = WRAP(r, n)
            return [w2, (U(w2, n) if k[0] == 'u' else w2) != r]
        return ov
    raise Unsupported('intrinsic ' + name)


NS = {k: v for k, v in globals().items() if not k.startswith('__')}
NS.update(NAN=math.nan, INF=math.inf)
