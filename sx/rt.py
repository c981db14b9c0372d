"""Run-time helpers called by the rewritten source, and the SDict/SSet/SHash containers."""
import builtins
import re
import types

from . import core
from .core import SInt, SBool, eq, sand, sor, snot
from .seq import SBytes, SByteArray, SArr, elems, mkbytes, concrete_bytes, fits_byte
from .text import SStr, Opaque, opaque_eq, mkstr, chars, str_join
from .num import SFrac, SLog, SFlt

_SYMS = (SInt, SBool, SBytes, SStr, SFrac, SLog, SFlt)


# ------------------------------------------------------------------ hashes of symbolic values
class SHash:
    """ideal hash value: equal exactly when the hashed contents are equal"""
    __slots__ = ('key', '_i')
    _sx_hash = True

    def __init__(self, key):
        self.key = key
        self._i = None

    @property
    def __class__(self):
        return int

    def __eq__(self, o):
        if type(o) is SHash:
            return hash_key_eq(self.key, o.key)
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def _sx_int(self):
        """arithmetic on a hash: an arbitrary 61-bit signed value, the same for equal hashes"""
        if self._i is None:
            tab = core.E.tables.setdefault('hashint', [])
            for k, v in tab:
                if hash_key_eq(k, self.key):
                    self._i = v
                    break
            else:
                name = core.E.fresh('hash')
                v = core.new_int(name, -(2 ** 62), 2 ** 62)
                tab.append((self.key, v))
                self._i = v
        return self._i

    def __add__(self, o): return self._sx_int() + o
    __radd__ = __add__
    def __sub__(self, o): return self._sx_int() - o
    def __rsub__(self, o): return o - self._sx_int()
    def __mul__(self, o): return self._sx_int() * o
    __rmul__ = __mul__
    def __and__(self, o): return self._sx_int() & o
    __rand__ = __and__
    def __or__(self, o): return self._sx_int() | o
    __ror__ = __or__
    def __xor__(self, o): return self._sx_int() ^ o
    __rxor__ = __xor__
    def __mod__(self, o): return self._sx_int() % o
    def __rshift__(self, o): return self._sx_int() >> o
    def __lshift__(self, o): return self._sx_int() << o
    def __lt__(self, o): return self._sx_int() < o
    def __le__(self, o): return self._sx_int() <= o
    def __gt__(self, o): return self._sx_int() > o
    def __ge__(self, o): return self._sx_int() >= o
    def __abs__(self): return abs(self._sx_int())
    def __neg__(self): return -self._sx_int()
    def __invert__(self): return ~self._sx_int()
    def __index__(self): return self._sx_int().__index__()
    def __int__(self): return self._sx_int().__index__()
    def to_bytes(self, *a, **k): return self._sx_int().to_bytes(*a, **k)
    def __hash__(self): return self.__index__()
    def __repr__(self): return '<symhash>'


class CHash(int):
    """native hash of concrete data that remembers what was hashed"""
    def __new__(cls, src):
        r = int.__new__(cls, builtins.hash(src))
        r.src = src
        return r


def hash_key_eq(a, b):
    ka, kb = a[0], b[0]
    if ka != kb:
        return False
    if ka == 'i':
        return eq(a[1], b[1])
    if ka in ('b', 's'):
        if len(a[1]) != len(b[1]):
            return False
        r = []
        for x, y in zip(a[1], b[1]):
            if type(x) is Opaque or type(y) is Opaque:
                r.append(opaque_eq(x, y))
            else:
                q = eq(x, y)
                if q is False:
                    return False
                r.append(q)
        return sand(r)
    if ka == 't':
        if len(a[1]) != len(b[1]):
            return False
        return sand([hash_key_eq(x, y) for x, y in zip(a[1], b[1])])
    return a[1] == b[1]


def hash_key(x):
    """structural key of a value for hashing; ('n', int) for native hashes"""
    t = type(x)
    if t is SInt:
        return ('i', x)
    if t is int or t is bool:
        return ('i', int(x))
    if t is SBool:
        return ('i', x.as_int())
    if t is SBytes:
        return ('b', x.items)
    if t is bytes:
        return ('b', list(x))
    if t is SStr:
        return ('s', x.items)
    if t is str:
        return ('s', [ord(c) for c in x])
    if t is SHash:
        return x.key if x.key[0] != 'i' else ('i', x.key[1])
    if isinstance(x, tuple):
        return ('t', [hash_key(y) for y in x])
    if t is frozenset:
        return ('n', hash(x))
    if t is memoryview:
        return ('b', list(x))
    if not isinstance(t.__hash__, types.FunctionType):
        return ('n', builtins.hash(x))
    h = hash_(x)
    if type(h) is SHash:
        return h.key
    if type(h) is CHash:
        return hash_key(h.src)
    return ('i', h)


def _has_sym(x):
    t = type(x)
    if t in _SYMS or t is SHash:
        return True
    if isinstance(x, tuple):
        return any(_has_sym(y) for y in x)
    if t in (int, str, bytes, float, bool, type(None)):
        return False
    m = getattr(t, '_sx_hashed', None)
    if m is not None:
        return type(m(x)) is SStr
    m = getattr(t, '__hash__', None)
    if isinstance(m, types.FunctionType):
        # user-defined hash: it may be symbolic
        return type(hash_(x)) in (SHash, SInt)
    return False


def hash_(x):
    t = type(x)
    if t is SInt:
        return SHash(('i', x))
    if t in (SBytes, SStr, SBool):
        return SHash(hash_key(x))
    if t is SHash:
        return x
    if isinstance(x, tuple) and t.__hash__ is tuple.__hash__:
        if any(_has_sym(y) for y in x):
            return SHash(hash_key(x))
        return CHash(x)
    if t in (int, str, bytes):
        return CHash(x)
    if t in (SArr, SByteArray, SDict, SSet):
        raise TypeError("unhashable type: '%s'" % getattr(x, '__class__', t).__name__)
    m = getattr(t, '_sx_hashed', None)
    if m is not None:
        return SHash(hash_key(m(x)))
    m = t.__hash__
    if m is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if isinstance(m, types.FunctionType):
        r = m(x)
        if type(r) in (SHash, SInt, CHash):
            return r
        if not isinstance(r, int):
            raise TypeError('__hash__ method should return an integer')
        return builtins.hash(r)
    return builtins.hash(x)


def _plain(k):
    """key that the native dict may index: immutable builtin data without symbolic parts"""
    t = type(k)
    if t in (int, str, bytes, bool, float, type(None)):
        return True
    if t is tuple:
        return all(_plain(x) for x in k)
    m = t.__hash__
    return m is object.__hash__ or m is type.__hash__ or (m is not None and not isinstance(m, types.FunctionType)
                                                           and t not in _SYMS and t is not SHash and t is not tuple
                                                           and not isinstance(k, tuple))


_MISS = object()


class SDict:
    """dict with symbolic keys: entries in insertion order; plain keys have a native index"""

    def __init__(self, *a, **k):
        self._k = {}       # slot -> [keyhash, key, value]
        self._idx = {}     # plain key -> slot
        self._n = 0
        self._nsym = 0
        if a:
            self.update(a[0])
        if k:
            self.update(k)

    @property
    def __class__(self):
        return dict

    def _find(self, k):
        if _plain(k):
            s = self._idx.get(k)
            if s is not None:
                return s
            if not self._nsym:
                return None
            cands = [(i, e) for i, e in self._k.items() if e[0] is not None]
        else:
            cands = list(self._k.items())
        hk = hash_key(k)
        for i, e in cands:
            h2 = e[0] if e[0] is not None else hash_key(e[1])
            if e[1] is k:
                return i
            r = hash_key_eq(hk, h2)
            if r is False:
                continue
            if type(r) is SBool:
                if not r:
                    continue
            if k == e[1]:
                return i
        return None

    def __getitem__(self, k):
        s = self._find(k)
        if s is None:
            m = getattr(self, '_missing', None)
            if m is not None:
                return m(k)
            raise KeyError(k)
        return self._k[s][2]

    def __setitem__(self, k, v):
        if type(k) is SByteArray or type(k) is SArr or isinstance(k, (list, bytearray)) or type(k) in (SDict, SSet):
            raise TypeError("unhashable type: '%s'" % k.__class__.__name__)
        if type(k).__hash__ is None:
            raise TypeError("unhashable type: '%s'" % type(k).__name__)
        s = self._find(k)
        if s is not None:
            self._k[s][2] = v
            return
        i = self._n
        self._n += 1
        if _plain(k):
            self._idx[k] = i
            self._k[i] = [None, k, v]
        else:
            self._k[i] = [hash_key(k), k, v]
            self._nsym += 1

    def __delitem__(self, k):
        s = self._find(k)
        if s is None:
            raise KeyError(k)
        self._del(s)

    def _del(self, s):
        e = self._k.pop(s)
        if e[0] is None:
            del self._idx[e[1]]
        else:
            self._nsym -= 1

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        s = self._find(k)
        return d if s is None else self._k[s][2]

    def setdefault(self, k, d=None):
        s = self._find(k)
        if s is None:
            self[k] = d
            return d
        return self._k[s][2]

    def pop(self, k, *d):
        s = self._find(k)
        if s is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = self._k[s][2]
        self._del(s)
        return v

    def popitem(self, last=True):
        if not self._k:
            raise KeyError('popitem(): dictionary is empty')
        s = list(self._k)[-1 if last else 0]
        e = self._k[s]
        self._del(s)
        return e[1], e[2]

    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            items = self.items()
            self.clear()
            self[k] = v
            self.update(items)

    def update(self, *a, **k):
        for o in a:
            if type(o) is SDict:
                for kk, v in o.items():
                    self[kk] = v
            elif hasattr(o, 'keys'):
                for kk in o.keys():
                    self[kk] = o[kk]
            else:
                for kk, v in o:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def clear(self):
        self._k.clear()
        self._idx.clear()
        self._nsym = 0

    def copy(self):
        return SDict(self)

    def keys(self): return [e[1] for e in self._k.values()]
    def values(self): return [e[2] for e in self._k.values()]
    def items(self): return [(e[1], e[2]) for e in self._k.values()]
    def __iter__(self): return iter(self.keys())
    def __reversed__(self): return reversed(self.keys())
    def __len__(self): return len(self._k)

    def __eq__(self, o):
        if type(o) is not SDict:
            if isinstance(o, dict):
                o = SDict(o)
            else:
                return NotImplemented
        if len(o) != len(self):
            return False
        for k, v in self.items():
            s = o._find(k)
            if s is None or not (v == o._k[s][2]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        d = SDict(self)
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self
    __hash__ = None

    def __copy__(self): return SDict(self)

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % kv for kv in self.items())


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SDict.__init__(self, *a, **k)

    def _missing(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class SSet:
    def __init__(self, it=(), frozen=False):
        self._d = SDict()
        self._frozen = frozen
        for x in it:
            self._d[x] = None

    @property
    def __class__(self):
        return frozenset if self._frozen else set

    def add(self, x): self._d[x] = None
    def discard(self, x): self._d.pop(x, None)
    def remove(self, x): del self._d[x]
    def pop(self): return self._d.popitem()[0]
    def clear(self): self._d.clear()
    def copy(self): return SSet(self)

    def update(self, *os):
        for o in os:
            for x in o:
                self._d[x] = None

    def __contains__(self, x): return x in self._d
    def __iter__(self): return iter(self._d.keys())
    def __len__(self): return len(self._d)
    def union(self, *os):
        r = SSet(self)
        r.update(*os)
        return r
    def __or__(self, o): return self.union(o)
    def __ror__(self, o): return SSet(o).union(self)
    def intersection(self, o):
        o = o if type(o) is SSet else SSet(o)
        return SSet([x for x in self if x in o])
    def __and__(self, o): return self.intersection(o)
    def __rand__(self, o): return self.intersection(o)
    def difference(self, *os):
        r = list(self)
        for o in os:
            o = o if type(o) is SSet else SSet(o)
            r = [x for x in r if x not in o]
        return SSet(r)
    def __sub__(self, o): return self.difference(o)
    def __rsub__(self, o): return SSet(o).difference(self)
    def difference_update(self, *os):
        self._d = self.difference(*os)._d
    def symmetric_difference(self, o): return self.difference(o).union(SSet(o).difference(self))
    def __xor__(self, o): return self.symmetric_difference(o)
    def __ior__(self, o): self.update(o); return self
    def __isub__(self, o): self.difference_update(o); return self
    def issubset(self, o):
        o = o if type(o) is SSet else SSet(o)
        return all(x in o for x in self)
    def issuperset(self, o): return all(x in self for x in o)
    def isdisjoint(self, o): return not any(x in self for x in o)
    __le__ = issubset
    __ge__ = issuperset

    def __eq__(self, o):
        if type(o) is not SSet and not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)
    __hash__ = None
    def __repr__(self): return '{%s}' % ', '.join(map(repr, self))


# ------------------------------------------------------------------ conversions
def int_(*a, **k):
    if a and len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SInt:
            return x
        if t is SBool:
            return x.as_int()
        if t is SHash:
            return x._sx_int()
        if t in (SFrac, SLog, SFlt):
            return x.trunc()
        if t is SStr:
            return parse_int(x, 10)
        if t in (SBytes, SByteArray):
            return parse_int(x.decode('latin-1'), 10)
        f = getattr(t, '__int__', None) or getattr(t, '__index__', None)
        if isinstance(f, types.FunctionType):
            return f(x)
        return int(x)
    if a and type(a[0]) is SStr:
        base = a[1] if len(a) > 1 else k.get('base', 10)
        return parse_int(a[0], base)
    return int(*a, **k)


def parse_int(s, base):
    if len(s.items) == 1 and type(s.items[0]) is Opaque and s.items[0].kind == 'dec':
        return s.items[0].val
    it = s.strip().items if type(s.strip()) is SStr else None
    if it is None:
        return int(s.concrete(), base)
    neg = False
    if it and eq(it[0], ord('-')):
        neg = True
        it = it[1:]
    elif it and eq(it[0], ord('+')):
        it = it[1:]
    v = 0
    if base == 0:
        base = 10
        if len(it) > 1 and eq(it[0], 48):
            base = 0
            for b, low, up in ((16, 120, 88), (8, 111, 79), (2, 98, 66)):
                if core.sor([eq(it[1], low), eq(it[1], up)]):
                    base, it = b, it[2:]
                    break
            if base == 0:
                # only zeros may follow a leading zero
                for c in it:
                    if digit(c, 10) != 0:
                        raise ValueError('invalid literal for int() with base 0')
                return 0
    if not it:
        raise ValueError('invalid literal for int()')
    for c in it:
        d = digit(c, base)
        v = v * base + d
    return -v if neg else v


def digit(c, base):
    if type(c) is int:
        if c == 95:
            raise core.PathStop('underscore in a number')
        return int(chr(c), base)
    k = core.hex_origin(c)
    if k is not None and base == 16:
        return k[2]
    low = sand([core.le(48, c), core.le(c, min(57, 47 + base))])
    ok = [low]
    if base > 10:
        ok += [sand([core.le(off, c), core.le(c, off + base - 11)]) for off in (97, 65)]
    if core.sor(ok):
        if base <= 10:
            return core._refine(core.sub(c, 48), 0, min(9, base - 1))
        return core._refine(core.ite(core.le(c, 57), core.sub(c, 48), core.ite(core.le(97, c), core.sub(c, 87), core.sub(c, 55))), 0, base - 1)
    if eq(c, 95):
        raise core.PathStop('underscore in a number')
    if core.le(c, 32):
        raise core.PathStop('space in a number')
    raise ValueError('invalid literal for int() with base %d' % base)


def bool_(*a):
    if a and type(a[0]) is SBool:
        return a[0]
    if a and type(a[0]) is SInt:
        return snot(eq(a[0], 0))
    return bool(*a)


def float_(*a):
    if a:
        x = a[0]
        if type(x) is SInt:
            from .num import _small
            if _small(x):
                return SFrac(x, 1)
            return float(core.E.concretize(x, 'float'))
        if type(x) in (SFrac, SLog, SFlt):
            return x
        if type(x) is SStr:
            return float(x.concrete())
    return float(*a)


def _iter_bytes(x):
    return [fits_byte(v, ValueError, 'bytes must be in range(0, 256)') for v in x]


def bytes_(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    t = type(x)
    if t is SBytes:
        return x
    if t in (SArr, SByteArray):
        return mkbytes(elems(x))
    if t is SStr:
        if len(a) < 2 and not k:
            raise TypeError('string argument without an encoding')
        return x.encode(*a[1:], **k)
    if t is SInt:
        return bytes(core.E.concretize(x, 'bytes()'))
    if t in (int, bytes, str, bytearray):
        return bytes(*a, **k)
    f = getattr(t, '__bytes__', None)
    if isinstance(f, types.FunctionType) and f.__module__ != 'sx.seq':
        return f(x)
    if t in (list, tuple) or not hasattr(t, '__buffer__'):
        if hasattr(t, '__index__') and not hasattr(t, '__iter__'):
            return bytes(x.__index__())
        return mkbytes(_iter_bytes(x))
    e = elems(x)
    return mkbytes(e) if e is not None else bytes(*a, **k)


def bytearray_(*a, **k):
    return SByteArray(elems(bytes_(*a, **k)) if a else [])


def memoryview_(x):
    return SView(x)


class SView:
    """memoryview over a byte sequence (shared storage when the owner is mutable)"""
    _sx_seq = True

    @property
    def __class__(self):
        return memoryview

    def __init__(self, owner, start=0, stop=None):
        if type(owner) is SView:
            start, stop, owner = owner.start + start, owner.stop if stop is None else stop, owner.owner
        if elems(owner) is None:
            raise TypeError("memoryview: a bytes-like object is required, not '%s'" % type(owner).__name__)
        self.owner, self.start, self.stop = owner, start, len(owner) if stop is None else stop

    def _sx_items(self):
        return elems(self.owner)[self.start:self.stop]

    def __len__(self): return self.stop - self.start
    nbytes = property(__len__)
    def __iter__(self): return iter(self._sx_items())

    def __getitem__(self, i):
        from .seq import norm_slice, norm_index
        if isinstance(i, slice):
            a, b, s = norm_slice(i, len(self)).indices(len(self))
            if s != 1:
                return SView(mkbytes(self._sx_items()[a:b:s]))
            return SView(self.owner, self.start + a, self.start + max(a, b))
        return self._sx_items()[norm_index(i, len(self))]

    def __setitem__(self, i, v):
        self.owner[self.start + i] = v

    def __eq__(self, o):
        from .seq import seq_eq
        e = elems(o)
        return NotImplemented if e is None else seq_eq(self._sx_items(), e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def tobytes(self): return mkbytes(self._sx_items())
    def tolist(self): return list(self._sx_items())
    def hex(self): return self.tobytes().hex()
    def release(self): pass
    def cast(self, fmt): return self
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def __hash__(self): return hash(self.tobytes())
    itemsize = 1
    format = 'B'


def str_(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    t = type(x)
    if len(a) > 1 or k:
        if t in (SBytes, SByteArray, SArr):
            return mkbytes(elems(x)).decode(*a[1:], **k)
        return str(*a, **k)
    if t is SStr:
        return x
    if t is SInt:
        return mkstr([Opaque('dec', x)])
    if t is SBool:
        return 'True' if x else 'False'
    if t in (SBytes, SByteArray, SArr):
        return repr_(x)
    f = t.__str__
    if isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1:
            return str_(x.args[0])
        return str(x)
    if f is object.__str__:
        return repr_(x)
    if t in (list, tuple, dict, SDict):
        return repr_(x)
    return str(x)


def repr_(x):
    t = type(x)
    if t is SInt:
        return mkstr([Opaque('dec', x)])
    if t is SStr:
        return mkstr([39] + x.items + [39])
    if t is SBool:
        return 'True' if x else 'False'
    if t in (SBytes, SByteArray, SArr, SFrac, SLog, SFlt):
        it = getattr(x, 'items', None)
        if t is SArr:
            if not it:
                return repr(x)
            out = [ord(c) for c in "array('%s', [" % x.typecode]
            for i, v in enumerate(it):
                out += ([44, 32] if i else []) + [Opaque('dec', v)]
            return mkstr(out + [93, 41])
        if it is not None and all(type(v) is int for v in it):
            return repr(bytes(it)) if t is SBytes else 'bytearray(%r)' % bytes(it)
        return mkstr([Opaque('repr', (t.__name__, list(it)) if it is not None else x)])
    if t in (list, tuple):
        o, c = ('[', ']') if t is list else ('(', ',)' if len(x) == 1 else ')')
        return str_join('', [o, str_join(', ', [repr_(y) for y in x]), c])
    if t in (dict, SDict):
        return str_join('', ['{', str_join(', ', [str_join(': ', [repr_(a), repr_(b)]) for a, b in x.items()]), '}'])
    f = t.__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    return repr(x)


def format_(x, spec=''):
    t = type(x)
    if type(spec) is SStr:
        spec = spec.concrete()
    if t is SStr:
        if not spec:
            return x
        return x.concrete().__format__(spec)
    if t is SBool:
        x = x.as_int() if spec else x
        return str_(x) if not spec else format_(x, spec)
    if t is SInt:
        if not spec or spec == 'd':
            return mkstr([Opaque('dec', x)])
        m = re.fullmatch(r'(0?)(\d*)([xX])', spec)
        if m and x.lo >= 0:
            w = int(m.group(2) or 0)
            if x.hi < (1 << (4 * w)) and (m.group(1) or w == 0) and w:
                from .seq import hexchars
                nb = (w + 1) // 2
                cs = hexchars(elems(x.to_bytes(nb, 'big')))[2 * nb - w:]
                r = mkstr(cs)
                return r.upper() if m.group(3) == 'X' else r
        return mkstr([Opaque('fmt' + spec, x)])
    if t in (SBytes, SByteArray, SArr, SFrac, SLog, SFlt):
        return repr_(x)
    f = t.__format__
    if isinstance(f, types.FunctionType):
        return f(x, spec)
    if not spec:
        return str_(x)
    return format(x, spec)


def fstr_(*parts):
    """parts: str or (value, conversion, spec)"""
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 'r':
                v = repr_(v)
            elif conv == 's':
                v = str_(v)
            elif conv == 'a':
                v = ascii(v)
            p = format_(v, spec)
        out.append(p)
    return str_join('', out)


def mod_(l, r):
    if type(l) is str:
        return percent(l, r)
    if type(l) is SStr:
        return percent(l.concrete(), r)
    return l % r


def imod_(l, r):
    if type(l) in (str, SStr):
        return mod_(l, r)
    l %= r
    return l


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([hlL]?)([diouxXeEfFgGcrsa%])')


def percent(fmt, arg):
    args = list(arg) if isinstance(arg, tuple) else [arg]
    ismap = type(arg) in (dict, SDict)
    out, pos, n = [], 0, 0
    for m in _PCT.finditer(fmt):
        if fmt.count('%', pos, m.start()):
            return fmt % arg
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, w, prec, _, c = m.groups()
        if c == '%':
            out.append('%')
            continue
        if name is not None:
            v = arg[name]
            n = len(args)
        else:
            if w == '*' or prec == '*':
                return fmt % arg
            if n >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[n]
            n += 1
        if c in 'di':
            if type(v) is SInt:
                out.append(mkstr([Opaque('dec', v)]))
            else:
                out.append(('%' + flags + (w or '') + ('.' + prec if prec else '') + c) % (v,))
        elif c in 'xX' and type(v) is SInt:
            out.append(format_(v, ('0' if '0' in flags else '') + (w or '') + c))
        elif c in 's':
            s = str_(v)
            out.append(s if not w else ('%' + flags + w + 's') % s if type(s) is str else s)
        elif c in 'ra':
            out.append(repr_(v))
        else:
            if type(v) in _SYMS:
                out.append(mkstr([Opaque('fmt' + c, v)]))
            else:
                out.append(('%' + flags + (w or '') + ('.' + prec if prec else '') + c) % (v,))
    if n < len(args) and not ismap:
        raise TypeError('not all arguments converted during string formatting')
    out.append(fmt[pos:])
    return str_join('', out)


def in_(x, c):
    t = type(c)
    if t is str and type(x) is SStr:
        return mkstr_force(c).find(x) >= 0
    if t is bytes and (type(x) in (SInt, SBytes)):
        r = SBytes.__new__(SBytes)
        r.items = list(c)
        return r.__contains__(x)
    if t in (set, frozenset, dict) or t.__name__ in ('dict_keys', 'mappingproxy'):
        if _has_sym(x):
            for k in c:
                h = hash_key_eq(hash_key(x), hash_key(k))
                if h and x == k:
                    return True
            return False
    if t is range and type(x) is SInt:
        if c.step == 1:
            return sand([core.le(c.start, x), core.lt(x, c.stop)])
        return sor([eq(x, v) for v in c])
    return x in c


def notin_(x, c):
    return snot(in_(x, c))


def mkstr_force(s):
    r = SStr.__new__(SStr)
    r.items = [ord(c) for c in s]
    return r


def type_(*a, **k):
    if len(a) == 1 and not k:
        t = type(a[0])
        if t in (SInt, SBool, SBytes, SByteArray, SStr, SFrac, SLog, SFlt, SDict, SSet, SView, SHash):
            return a[0].__class__
        return t
    return type(*a, **k)


def list_(*a):
    return list(*a)


def set_(*a):
    return SSet(*a)


def frozenset_(*a):
    return SSet(*a, frozen=True)


def dict_(*a, **k):
    return SDict(*a, **k)


def print_(*a, **k):
    if core.E is not None and 'printed' in core.E.tables:
        core.E.tables['printed'].append(a)


def chr_(x):
    if type(x) is SInt:
        if core.lt(x, 0) or core.lt(0x10FFFF, x):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr([core._refine(x, max(0, x.lo), min(0x10FFFF, x.hi))])
    return chr(x)


def ord_(x):
    t = type(x)
    if t is SStr:
        it = x._fl()
        if len(it) != 1:
            raise TypeError('ord() expected a character')
        return it[0]
    if t in (SBytes, SByteArray):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return x.items[0]
    return ord(x)


def hex_(x):
    return mkstr([Opaque('hex', x)]) if type(x) is SInt else hex(x)


def min_(*a, **k):
    if k or len(a) < 2 and not any(type(v) is SInt for v in (a[0] if isinstance(a[0], (list, tuple)) else ())):
        return min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(type(v) is SInt for v in xs) or not all(type(v) in (int, SInt) for v in xs):
        return min(*a)
    r = xs[0]
    for v in xs[1:]:
        r = core.ite(core.lt(v, r), v, r)
    return r


def max_(*a, **k):
    if k or len(a) < 2 and not any(type(v) is SInt for v in (a[0] if isinstance(a[0], (list, tuple)) else ())):
        return max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(type(v) is SInt for v in xs) or not all(type(v) in (int, SInt) for v in xs):
        return max(*a)
    r = xs[0]
    for v in xs[1:]:
        r = core.ite(core.lt(r, v), v, r)
    return r


def round_(number, ndigits=None):
    a = () if ndigits is None else (ndigits,)
    if type(number) in (SInt, SFrac, SLog, SFlt):
        return number.__round__(*a)
    return round(number, *a)


def pow_(*a):
    if len(a) == 3 and any(type(v) is SInt for v in a):
        return pow(*[core.E.concretize(v) if type(v) is SInt else v for v in a])
    return pow(*a)


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def isinstance_(x, c):
    return isinstance(x, c)


# class-level methods
def int_from_bytes(b, byteorder='big', *, signed=False):
    e = elems(b)
    if e is None:
        e = [fits_byte(v, ValueError, 'bytes must be in range(0, 256)') for v in b]
    if byteorder == 'little':
        e = e[::-1]
    elif byteorder != 'big':
        raise ValueError("byteorder must be either 'little' or 'big'")
    v = core.concat_bytes(e)
    if signed and e:
        v = core.ite(core.lt((1 << (8 * len(e) - 1)) - 1, v), v - (1 << (8 * len(e))), v)
    return v


def bytes_fromhex(s):
    if type(s) is SStr:
        it = [c for c in s._fl() if not (type(c) is int and chr(c).isspace())]
        if len(it) % 2:
            raise ValueError('non-hexadecimal number found in fromhex()')
        out = []
        for i in range(0, len(it), 2):
            a, b = core.hex_origin(it[i]), core.hex_origin(it[i + 1])
            if a is not None and b is not None and a[0] is b[0] and a[1] == 0 and b[1] == 1:
                out.append(a[0])
                continue
            out.append(core.bor(core.shl(digit(it[i], 16), 4), digit(it[i + 1], 16)))
        return mkbytes(out)
    return bytes.fromhex(s)


def from_bytes_cls(b):
    return None


CALLS = {'int': int_, 'bool': bool_, 'float': float_, 'bytes': bytes_, 'bytearray': bytearray_,
         'memoryview': memoryview_, 'str': str_, 'repr': repr_, 'format': format_, 'hash': hash_, 'type': type_,
         'set': set_, 'frozenset': frozenset_, 'dict': dict_, 'print': print_, 'chr': chr_, 'ord': ord_,
         'hex': hex_, 'min': min_, 'max': max_, 'round': round_, 'pow': pow_}

_CLSMETH = {(int, 'from_bytes'): int_from_bytes, (bytes, 'fromhex'): bytes_fromhex,
            (bytearray, 'fromhex'): lambda s: SByteArray(elems(bytes_fromhex(s))),
            (dict, 'fromkeys'): lambda ks, v=None: SDict([(k, v) for k in ks])}

_SYMARG = (SBytes, SByteArray, SStr, SInt, SArr, SView)


def _sym_in(args):
    for a in args:
        if type(a) in _SYMARG:
            return True
    return False


def method_(obj, name, *args, **kw):
    t = type(obj)
    if t is type:
        f = _CLSMETH.get((obj, name))
        if f is not None:
            return f(*args, **kw)
        if args and type(args[0]) in _SYMARG and obj in (str, bytes):
            return getattr(args[0], name)(*args[1:], **kw)
    elif t is str:
        if name == 'join':
            return str_join(obj, args[0])
        if name == 'format' and (_sym_in(args) or _sym_in(kw.values())):
            return str_format(obj, args, kw)
        if _sym_in(args):
            return getattr(mkstr_force(obj), name)(*args, **kw)
    elif t is bytes:
        if name == 'join':
            r = SBytes.__new__(SBytes)
            r.items = list(obj)
            return r.join(args[0])
        if _sym_in(args):
            r = SBytes.__new__(SBytes)
            r.items = list(obj)
            return getattr(r, name)(*args, **kw)
    elif t is int and name == 'to_bytes' and _sym_in(args):
        return obj.to_bytes(*[core.E.concretize(a) if type(a) is SInt else a for a in args], **kw)
    return getattr(obj, name)(*args, **kw)


def str_format(fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            v, _ = string.Formatter().get_field(field, args, kw)
        if conv == 'r':
            v = repr_(v)
        elif conv == 's':
            v = str_(v)
        out.append(format_(v, spec or ''))
    return str_join('', out)


METHODS = {'join', 'format', 'from_bytes', 'fromhex', 'fromkeys', 'startswith', 'endswith', 'find', 'rfind', 'index',
           'count', 'split', 'rsplit', 'partition', 'replace', 'strip', 'lstrip', 'rstrip', 'to_bytes', 'encode',
           'decode', 'hex', 'removeprefix', 'removesuffix', 'zfill', 'rjust', 'ljust', 'lower', 'upper'}
