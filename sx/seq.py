"""Symbolic byte sequences: concrete length, elements int or SInt in 0..255."""
from . import core
from .core import SInt, SBool, sand, snot, eq, lt, concat_bytes, ite, add, sub

_REAL_BYTES = bytes
_REAL_BA = bytearray


def elems(x):
    """list of ints for any bytes-like, or None"""
    t = type(x)
    if t is bytes or t is bytearray:
        return list(x)
    if t is SBytes or t is SByteArray or t is SArr:
        if t is SArr and x.typecode != 'B':
            return elems(x.tobytes())
        return x.items
    if t is memoryview:
        return list(x.tobytes())
    if hasattr(x, '_sx_items'):
        return x._sx_items()
    import array as real_array
    if isinstance(x, real_array.array):
        return list(x.tobytes())
    return None


def mkbytes(items):
    if all(type(x) is int for x in items):
        return bytes(items)
    r = SBytes.__new__(SBytes)
    r.items = list(items)
    return r


def fits_byte(x, exc, msg):
    """check 0<=x<=255 with python's error otherwise"""
    t = type(x)
    if t is int:
        if x < 0 or x > 255:
            raise exc(msg)
        return x
    c = core._coerce(x)
    if c is None:
        if hasattr(x, '__index__') and not isinstance(x, float):
            return fits_byte(x.__index__(), exc, msg)
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    if type(c) is int:
        return fits_byte(c, exc, msg)
    if c.lo >= 0 and c.hi <= 255:
        return c
    if c.lo < 0 and lt(c, 0):
        raise exc(msg)
    if c.hi > 255 and lt(255, c):
        raise exc(msg)
    return core._refine(c, max(0, c.lo), min(255, c.hi))


def norm_index(i, n, what='index'):
    if type(i) is SInt:
        if lt(i, -n) or core.le(n, i):
            raise IndexError(what + ' out of range')
        i = core.E.concretize(i, 'subscript')
    elif type(i) is not int:
        i = i.__index__()
    if i < 0:
        i += n
    if i < 0 or i >= n:
        raise IndexError(what + ' out of range')
    return i


def norm_slice(s, n):
    def clamp(v):
        if type(v) is SInt:
            # clamp before concretising: python clamps anyway
            if v.hi > n:
                if lt(n, v):
                    return n
            if v.lo < -n:
                if lt(v, -n):
                    return -n
            return core.E.concretize(v, 'slice')
        return v
    return slice(clamp(s.start), clamp(s.stop), core.E.concretize(s.step) if type(s.step) is SInt else s.step)


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        r = eq(x, y)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return sand(out)


def seq_lt(a, b, orequal):
    """lexicographic"""
    for x, y in zip(a, b):
        r = eq(x, y)
        if r is True:
            continue
        if r is False or not r:
            return lt(x, y)
    return len(a) <= len(b) if orequal else len(a) < len(b)


def hexchars(items, sep=None):
    out = []
    for i, b in enumerate(items):
        if sep is not None and i:
            out.append(ord(sep))
        if type(b) is int:
            out.extend(map(ord, '%02x' % b))
        else:
            for k, nib in enumerate((core.shr(b, 4), core.band(b, 15))):
                if type(nib) is int:
                    out.append(ord('%x' % nib))
                else:
                    out.append(core.hex_char(ite(lt(nib, 10), add(nib, 48), add(nib, 87)), b, k, nib))
    return out


class _Seq:
    __slots__ = ()
    _sx_seq = True

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        i = 0
        while i < len(self.items):
            yield self.items[i]
            i += 1

    def __reversed__(self):
        return iter(self.items[::-1])

    def _getslice(self, s):
        return self.items[norm_slice(s, len(self.items))]

    def __contains__(self, x):
        if type(x) in (int, SInt, bool):
            return core.sor([eq(x, y) for y in self.items])
        e = elems(x)
        if e is None:
            c = core._coerce(x)
            if c is None:
                raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
            return core.sor([eq(c, y) for y in self.items])
        return self.find(x) >= 0

    def count(self, x):
        n = 0
        for y in self.items:
            n = n + core.SBool.as_int(r) if type(r := eq(x, y)) is SBool else n + int(r)
        return n

    def hex(self, sep=None, bytes_per_sep=1):
        from .text import mkstr
        return mkstr(hexchars(self.items, sep))

    def __rmul__(self, k):
        return self.__mul__(k)


class _BytesLike(_Seq):
    __slots__ = ()

    def __eq__(self, o):
        e = elems(o) if not isinstance(o, SArr) else None
        if type(o) is SArr:
            # bytes == array compares through the buffer protocol for bytearray only
            return False if type(self) is SBytes else seq_eq(self.items, elems(o))
        if e is None:
            return NotImplemented
        return seq_eq(self.items, e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _cmp(self, o, oe, swap):
        e = elems(o)
        if e is None:
            return NotImplemented
        return seq_lt(e, self.items, oe) if swap else seq_lt(self.items, e, oe)

    def __lt__(self, o): return self._cmp(o, False, False)
    def __le__(self, o): return self._cmp(o, True, False)
    def __gt__(self, o): return self._cmp(o, False, True)
    def __ge__(self, o): return self._cmp(o, True, True)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self._getslice(i))
        return self.items[norm_index(i, len(self.items))]

    def __add__(self, o):
        e = elems(o)
        if e is None:
            return NotImplemented
        return self._mk(self.items + e)

    def __radd__(self, o):
        e = elems(o)
        if e is None:
            return NotImplemented
        if type(o) is bytes:
            return mkbytes(e + self.items)
        return type(self)._mk(self, e + self.items)

    def __mul__(self, k):
        if type(k) is SInt:
            k = core.E.concretize(k)
        return self._mk(self.items * k)

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return core.sor([self.startswith(q, *a) for q in p])
        it = self.items[slice(*a)] if a else self.items
        e = elems(p)
        return seq_eq(it[:len(e)], e)

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return core.sor([self.endswith(q, *a) for q in p])
        it = self.items[slice(*a)] if a else self.items
        e = elems(p)
        return True if not e else (False if len(e) > len(it) else seq_eq(it[-len(e):], e))

    def find(self, p, start=0, end=None):
        e = [p] if core._coerce(p) is not None else elems(p)
        n = len(self.items) if end is None else min(end, len(self.items))
        for i in range(start, n - len(e) + 1):
            if seq_eq(self.items[i:i + len(e)], e):
                return i
        return -1

    def index(self, p, *a):
        r = self.find(p, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rfind(self, p):
        e = [p] if core._coerce(p) is not None else elems(p)
        for i in range(len(self.items) - len(e), -1, -1):
            if seq_eq(self.items[i:i + len(e)], e):
                return i
        return -1

    def split(self, sep, maxsplit=-1):
        e = elems(sep)
        out, cur, i = [], [], 0
        while i < len(self.items):
            if maxsplit != 0 and i + len(e) <= len(self.items) and seq_eq(self.items[i:i + len(e)], e):
                out.append(self._mk(cur))
                cur = []
                i += len(e)
                maxsplit -= 1
            else:
                cur.append(self.items[i])
                i += 1
        out.append(self._mk(cur))
        return out

    def join(self, xs):
        out = []
        first = True
        for x in xs:
            if not first:
                out += self.items
            first = False
            e = elems(x)
            if e is None:
                raise TypeError('sequence item: expected a bytes-like object')
            out += e
        return self._mk(out)

    def _strip(self, chars, l, r):
        cs = elems(chars) if chars is not None else [9, 10, 11, 12, 13, 32]
        it = list(self.items)
        while l and it and core.sor([eq(it[0], c) for c in cs]):
            it.pop(0)
        while r and it and core.sor([eq(it[-1], c) for c in cs]):
            it.pop()
        return self._mk(it)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def rjust(self, n, fill=b' '):
        return self._mk([fill[0]] * (n - len(self.items)) + self.items)

    def ljust(self, n, fill=b' '):
        return self._mk(self.items + [fill[0]] * (n - len(self.items)))

    def replace(self, a, b, count=-1):
        return self._mk(elems(mkbytes(elems(b)) if False else _join(elems(b), [elems(x) for x in self.split(a)])))

    def decode(self, encoding='utf-8', errors='strict'):
        from .text import decode
        return decode(self.items, encoding, errors)

    def tobytes(self):
        return mkbytes(self.items)


def _join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out += sep
        out += p
    return out


class SBytes(_BytesLike):
    __slots__ = ('items',)

    @property
    def __class__(self):
        return bytes

    def _mk(self, items):
        return mkbytes(items)

    def __hash__(self):
        return hash(concrete_bytes(self))

    def __bytes__(self):
        return concrete_bytes(self)

    def __repr__(self):
        return '<symbytes %d>' % len(self.items)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def concrete_bytes(x):
    e = elems(x)
    return bytes(core.E.concretize(v, 'bytes') if type(v) is SInt else v for v in e)


class SByteArray(_BytesLike):
    """stands for bytearray (always used, also when concrete)"""
    __slots__ = ('items',)

    @property
    def __class__(self):
        return bytearray

    def __init__(self, items=()):
        self.items = list(items)

    def _mk(self, items):
        return SByteArray(items)

    def __radd__(self, o):
        return mkbytes(elems(o) + self.items) if type(o) in (bytes, SBytes) else NotImplemented

    def __iadd__(self, o):
        self.extend(o)
        return self

    def append(self, x):
        self.items.append(fits_byte(x, ValueError, 'byte must be in range(0, 256)'))

    def extend(self, o):
        e = elems(o)
        if e is not None:
            self.items.extend(e)
        else:
            for x in o:
                self.append(x)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            e = elems(v)
            self.items[norm_slice(i, len(self.items))] = e if e is not None else [
                fits_byte(x, ValueError, 'byte must be in range(0, 256)') for x in v]
        else:
            self.items[norm_index(i, len(self.items))] = fits_byte(v, ValueError, 'byte must be in range(0, 256)')

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self.items[norm_slice(i, len(self.items))]
        else:
            del self.items[norm_index(i, len(self.items))]

    def pop(self, i=-1): return self.items.pop(i)
    def insert(self, i, v): self.items.insert(i, fits_byte(v, ValueError, 'byte must be in range(0, 256)'))
    def reverse(self): self.items.reverse()
    def clear(self): self.items.clear()
    def copy(self): return SByteArray(self.items)
    __hash__ = None

    def __bytes__(self):
        return concrete_bytes(self)

    def __repr__(self):
        return '<symbytearray %d>' % len(self.items)

    def __copy__(self): return SByteArray(self.items)
    def __deepcopy__(self, memo): return SByteArray(self.items)


_RANGE = {'b': (-128, 127, 1), 'B': (0, 255, 1), 'h': (-2 ** 15, 2 ** 15 - 1, 2), 'H': (0, 2 ** 16 - 1, 2),
          'i': (-2 ** 31, 2 ** 31 - 1, 4), 'I': (0, 2 ** 32 - 1, 4), 'l': (-2 ** 63, 2 ** 63 - 1, 8),
          'L': (0, 2 ** 64 - 1, 8), 'q': (-2 ** 63, 2 ** 63 - 1, 8), 'Q': (0, 2 ** 64 - 1, 8)}


class SArr(_Seq):
    """the fake array.array"""
    __slots__ = ('typecode', 'items', '__weakref__')

    def __new__(cls, typecode, init=()):
        self = object.__new__(cls)
        if not isinstance(typecode, str) or len(typecode) != 1:
            raise TypeError('array() argument 1 must be a unicode character')
        if typecode not in _RANGE:
            raise ValueError('bad typecode (must be b, B, u, h, H, i, I, l, L, q, Q, f or d)')
        self.typecode = typecode
        self.items = []
        if type(init) is str or getattr(init, '_sx_str', False):
            raise TypeError("cannot use a str to initialize an array with typecode '%s'" % typecode)
        if type(init) in (bytes, bytearray, SBytes, SByteArray):
            self.frombytes(init)
        elif type(init) is SArr:
            if typecode == init.typecode:
                self.items = list(init.items)
            else:
                for x in init.items:
                    self.append(x)
        else:
            self._ext(init)
        return self

    def _ext(self, it):
        if self.typecode == 'B':
            ap = self.items.append
            for x in it:
                if type(x) is int and 0 <= x <= 255:
                    ap(x)
                else:
                    ap(self._fit(x))
        else:
            for x in it:
                self.append(x)

    def _fit(self, x):
        lo, hi, _ = _RANGE[self.typecode]
        if type(x) is int:
            if x < lo:
                raise OverflowError('unsigned byte integer is less than minimum')
            if x > hi:
                raise OverflowError('unsigned byte integer is greater than maximum')
            return x
        c = core._coerce(x)
        if c is None:
            if isinstance(x, float) or not hasattr(x, '__index__'):
                raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
            return self._fit(x.__index__())
        if type(c) is int:
            return self._fit(c)
        if c.lo < lo and lt(c, lo):
            raise OverflowError('unsigned byte integer is less than minimum')
        if c.hi > hi and lt(hi, c):
            raise OverflowError('unsigned byte integer is greater than maximum')
        return core._refine(c, max(lo, c.lo), min(hi, c.hi))

    @property
    def itemsize(self):
        return _RANGE[self.typecode][2]

    def append(self, x):
        self.items.append(self._fit(x))

    def extend(self, o):
        if type(o) is SArr:
            if o.typecode != self.typecode:
                raise TypeError('can only extend with array of same kind')
            self.items.extend(list(o.items))
        else:
            self._ext(o)

    def fromlist(self, o):
        if not isinstance(o, list):
            raise TypeError('arg must be list')
        new = [self._fit(x) for x in o]
        self.items.extend(new)

    def frombytes(self, b):
        e = elems(b)
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
        n = self.itemsize
        if n == 1 and self.typecode == 'B':
            self.items.extend(e)
            return
        if len(e) % n:
            raise ValueError('bytes length not a multiple of item size')
        for i in range(0, len(e), n):
            v = concat_bytes(e[i:i + n][::-1])
            lo, hi, _ = _RANGE[self.typecode]
            if lo < 0:
                v = ite(lt(hi, v), sub(v, 1 << (8 * n)), v)
            self.items.append(v)

    def tobytes(self):
        if self.typecode == 'B':
            return mkbytes(self.items)
        out = []
        for v in self.items:
            u = v if self.typecode.isupper() else core.band(v, (1 << (8 * self.itemsize)) - 1)
            out += elems(u.to_bytes(self.itemsize, 'little'))
        return mkbytes(out)

    def __bytes__(self):
        return concrete_bytes(self)

    def tolist(self):
        return list(self.items)

    def byteswap(self):
        if self.itemsize != 1:
            b = elems(self.tobytes())
            n = self.itemsize
            self.items = []
            self.frombytes(mkbytes(_join([], [b[i:i + n][::-1] for i in range(0, len(b), n)])))

    def buffer_info(self):
        return (id(self), len(self.items))

    def tofile(self, f):
        f.write(self.tobytes())

    def fromfile(self, f, n):
        b = f.read(n * self.itemsize)
        self.frombytes(b)
        if len(b) < n * self.itemsize:
            raise EOFError('read() didn\'t return enough bytes')

    def insert(self, i, v): self.items.insert(i, self._fit(v))
    def pop(self, i=-1): return self.items.pop(norm_index(i, len(self.items), 'pop index'))
    def reverse(self): self.items.reverse()
    def clear(self): self.items.clear()

    def remove(self, v):
        self.items.pop(self.index(v))

    def index(self, v, *a):
        for i, x in enumerate(self.items):
            if eq(x, v):
                return i
        raise ValueError('array.index(x): x not in array')

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = object.__new__(SArr)
            r.typecode = self.typecode
            r.items = self._getslice(i)
            return r
        return self.items[norm_index(i, len(self.items), 'array index')]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if type(v) is not SArr:
                raise TypeError('can only assign array (not "%s") to array slice' % type(v).__name__)
            self.items[norm_slice(i, len(self.items))] = list(v.items)
        else:
            self.items[norm_index(i, len(self.items), 'array assignment index')] = self._fit(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self.items[norm_slice(i, len(self.items))]
        else:
            del self.items[norm_index(i, len(self.items), 'array assignment index')]

    def __eq__(self, o):
        if type(o) is not SArr:
            if type(o) is SByteArray:
                return seq_eq(elems(self), elems(o))
            return NotImplemented
        if len(o.items) != len(self.items):
            return False
        return seq_eq(self.items, o.items)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o): return seq_lt(self.items, o.items, False) if type(o) is SArr else NotImplemented
    def __le__(self, o): return seq_lt(self.items, o.items, True) if type(o) is SArr else NotImplemented
    def __gt__(self, o): return seq_lt(o.items, self.items, False) if type(o) is SArr else NotImplemented
    def __ge__(self, o): return seq_lt(o.items, self.items, True) if type(o) is SArr else NotImplemented

    __hash__ = None

    def _new(self, items):
        r = object.__new__(SArr)
        r.typecode = self.typecode
        r.items = items
        return r

    def __add__(self, o):
        if type(o) is not SArr:
            raise TypeError('can only append array (not "%s") to array' % getattr(o, '__class__', type(o)).__name__)
        if o.typecode != self.typecode:
            raise TypeError('bad argument type for built-in operation')
        return self._new(self.items + o.items)

    def __radd__(self, o):
        # bytes + array yields bytes through the buffer protocol
        if type(o) in (bytes, SBytes):
            return mkbytes(elems(o) + elems(self))
        if type(o) is bytearray:
            return SByteArray(elems(o) + elems(self))
        return NotImplemented

    def __iadd__(self, o):
        if type(o) is not SArr:
            raise TypeError('can only extend with array (not "%s")' % getattr(o, '__class__', type(o)).__name__)
        self.items.extend(list(o.items))
        return self

    def __mul__(self, k):
        if type(k) is SInt:
            k = core.E.concretize(k)
        return self._new(self.items * k)

    def __copy__(self): return self._new(list(self.items))
    def __deepcopy__(self, memo): return self._new(list(self.items))

    def __repr__(self):
        if all(type(x) is int for x in self.items):
            return "array('%s', %r)" % (self.typecode, self.items) if self.items else "array('%s')" % self.typecode
        return "array('%s', <sym %d>)" % (self.typecode, len(self.items))


SArr.__name__ = SArr.__qualname__ = 'array'
SArr.__module__ = 'array'
