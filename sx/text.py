"""Symbolic strings.  items: int/SInt code points, or Opaque pieces (formatted values only compared
structurally)."""
from . import core
from .core import SInt, SBool, eq, lt, sand, sor, snot, ite, add
from .seq import elems, mkbytes, norm_index, norm_slice


class Opaque:
    """text whose characters are not modelled (decimal form of a symbolic int, repr of an object)"""
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val):
        self.kind, self.val = kind, val


def opaque_eq(x, y):
    """equality of two opaque pieces (False when they are of different make)"""
    if x is y:
        return True
    if type(x) is not Opaque or type(y) is not Opaque or x.kind != y.kind:
        return False
    if x.kind == 'dec':
        return eq(x.val, y.val)
    if x.kind == 'lazy':
        return mkstr(decode_now(*x.val)) == mkstr(decode_now(*y.val))
    if x.kind == 'repr' and type(x.val) is tuple and type(y.val) is tuple:
        a, b = x.val[1], y.val[1]
        if x.val[0] != y.val[0] or len(a) != len(b):
            return False
        return sand([eq(u, v) for u, v in zip(a, b)])
    return False


def mkstr(items):
    if all(type(x) is int for x in items):
        return ''.join(map(chr, items))
    r = SStr.__new__(SStr)
    r.items = list(items)
    return r


def chars(x):
    if type(x) is SStr:
        return x.items
    if isinstance(x, str):
        return [ord(c) for c in x]
    return None


def _flat(items):
    """replace opaque decimal pieces by concrete digits (concretises)"""
    if not any(type(x) is Opaque for x in items):
        return items
    out = []
    for x in items:
        if type(x) is Opaque:
            if x.kind == 'dec':
                out.extend(map(ord, str(core.E.concretize(x.val, 'str(int)') if type(x.val) is SInt else x.val)))
            elif x.kind == 'lazy':
                out.extend(decode_now(*x.val))
            else:
                core.E.stats.note('opaque text inspected')
                out.extend(map(ord, '<%s>' % x.kind))
        else:
            out.append(x)
    return out


class SStr:
    __slots__ = ('items',)
    _sx_str = True

    @property
    def __class__(self):
        return str

    def _fl(self):
        self.items = _flat(self.items)
        return self.items

    def __len__(self):
        return len(self._fl())

    def __iter__(self):
        for c in list(self._fl()):
            yield mkstr([c])

    def __getitem__(self, i):
        it = self._fl()
        if isinstance(i, slice):
            return mkstr(it[norm_slice(i, len(it))])
        return mkstr([it[norm_index(i, len(it), 'string index')]])

    def __eq__(self, o):
        c = chars(o)
        if c is None:
            return NotImplemented
        a = self.items
        if any(type(x) is Opaque for x in a) or any(type(x) is Opaque for x in c):
            if len(a) == len(c) and all((type(x) is Opaque) == (type(y) is Opaque) for x, y in zip(a, c)):
                # aligned pieces: decimal texts are delimited by equal fixed text, compare piecewise
                out = []
                for x, y in zip(a, c):
                    if type(x) is Opaque:
                        out.append(opaque_eq(x, y))
                    else:
                        out.append(eq(x, y))
                return sand(out)
            a, c = _flat(a), _flat(c)
        if len(a) != len(c):
            return False
        return sand([eq(x, y) for x, y in zip(a, c)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        from .seq import seq_lt
        return seq_lt(self._fl(), _flat(chars(o)), False)

    def __le__(self, o):
        from .seq import seq_lt
        return seq_lt(self._fl(), _flat(chars(o)), True)

    def __gt__(self, o):
        from .seq import seq_lt
        return seq_lt(_flat(chars(o)), self._fl(), False)

    def __ge__(self, o):
        from .seq import seq_lt
        return seq_lt(_flat(chars(o)), self._fl(), True)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        it = self._fl()
        return ''.join(chr(core.E.concretize(x, 'str') if type(x) is SInt else x) for x in it)

    def __add__(self, o):
        c = chars(o)
        if c is None:
            raise TypeError('can only concatenate str')
        return mkstr(self.items + c)

    def __radd__(self, o):
        c = chars(o)
        if c is None:
            return NotImplemented
        return mkstr(c + self.items)

    def __mul__(self, k):
        return mkstr(self.items * int(k))

    def __repr__(self):
        return '<symstr>'

    def __str__(self):
        return '<symstr>'

    def __format__(self, spec):
        return '<symstr>'

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def encode(self, encoding='utf-8', errors='strict'):
        out = []
        enc = encoding.lower().replace('_', '-')
        for c in self._fl():
            if type(c) is int:
                out += list(chr(c).encode(encoding, errors))
            elif c.hi < 128 or lt(c, 128):
                out.append(core._refine(c, c.lo, min(c.hi, 127)))
            elif enc in ('latin-1', 'iso-8859-1', 'latin1'):
                if lt(255, c):
                    raise UnicodeEncodeError('latin-1', '?', 0, 1, 'ordinal not in range(256)')
                out.append(core._refine(c, 128, 255))
            elif enc in ('utf-8', 'utf8'):
                if lt(c, 0x800):
                    c = core._refine(c, 128, 0x7ff)
                    out += [core.bor(0xC0, core.shr(c, 6)), core.bor(0x80, core.band(c, 63))]
                elif lt(c, 0x10000):
                    if sand([core.le(0xD800, c), core.le(c, 0xDFFF)]):
                        raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
                    c = core._refine(c, 0x800, 0xffff)
                    out += [core.bor(0xE0, core.shr(c, 12)), core.bor(0x80, core.band(core.shr(c, 6), 63)),
                            core.bor(0x80, core.band(c, 63))]
                else:
                    out += list(chr(core.E.concretize(c, 'encode')).encode('utf-8'))
            else:
                raise UnicodeEncodeError(encoding, '?', 0, 1, 'ordinal not in range')
        return mkbytes(out)

    def __contains__(self, x):
        return self.find(x) >= 0

    def find(self, p, start=0, end=None):
        e = _flat(chars(p))
        it = self._fl()
        n = len(it) if end is None else min(end, len(it))
        for i in range(start, n - len(e) + 1):
            if sand([eq(a, b) for a, b in zip(it[i:i + len(e)], e)]):
                return i
        return -1

    def rfind(self, p):
        e = _flat(chars(p))
        it = self._fl()
        for i in range(len(it) - len(e), -1, -1):
            if sand([eq(a, b) for a, b in zip(it[i:i + len(e)], e)]):
                return i
        return -1

    def index(self, p, *a):
        r = self.find(p, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return sor([self.startswith(q, *a) for q in p])
        it = self.items
        e = chars(p)
        if a or any(type(x) is Opaque for x in it[:len(e)]):
            it = self._fl()
            it = it[slice(*(list(a) + [None] * (2 - len(a))))] if a else it
        return False if len(it) < len(e) else sand([eq(x, y) for x, y in zip(it, e)])

    def endswith(self, p):
        if isinstance(p, tuple):
            return sor([self.endswith(q) for q in p])
        it = self._fl()
        e = chars(p)
        return True if not e else (False if len(it) < len(e) else sand([eq(x, y) for x, y in zip(it[-len(e):], e)]))

    def split(self, sep=None, maxsplit=-1):
        it = self._fl()
        if sep is None:
            ws = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32]
            out, cur = [], []
            for c in it:
                if sor([eq(c, w) for w in ws]):
                    if cur:
                        out.append(mkstr(cur))
                    cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(mkstr(cur))
            return out
        e = chars(sep)
        out, cur, i = [], [], 0
        while i < len(it):
            if maxsplit != 0 and i + len(e) <= len(it) and sand([eq(a, b) for a, b in zip(it[i:i + len(e)], e)]):
                out.append(mkstr(cur))
                cur = []
                i += len(e)
                maxsplit -= 1
            else:
                cur.append(it[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        parts = self.split(sep)
        if maxsplit >= 0 and len(parts) > maxsplit + 1:
            k = len(parts) - maxsplit
            head = parts[0]
            for p in parts[1:k]:
                head = head + sep + p
            parts = [head] + parts[k:]
        return parts

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, '', '')

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else ('', '', self)

    def join(self, xs):
        return str_join(self, xs)

    def replace(self, a, b, count=-1):
        return str_join(b, self.split(a, count))

    def _strip(self, cs, l, r):
        cs = chars(cs) if cs is not None else [9, 10, 11, 12, 13, 28, 29, 30, 31, 32]
        it = list(self._fl())
        while l and it and sor([eq(it[0], c) for c in cs]):
            it.pop(0)
        while r and it and sor([eq(it[-1], c) for c in cs]):
            it.pop()
        return mkstr(it)

    def strip(self, cs=None): return self._strip(cs, True, True)
    def lstrip(self, cs=None): return self._strip(cs, True, False)
    def rstrip(self, cs=None): return self._strip(cs, False, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def _map(self, lo, hi, d):
        out = []
        for c in self._fl():
            if type(c) is int:
                out.append(ord(chr(c).lower() if d > 0 else chr(c).upper()))
            else:
                out.append(ite(sand([core.le(lo, c), core.le(c, hi)]), add(c, d), c))
        return mkstr(out)

    def lower(self): return self._map(65, 90, 32)
    def casefold(self): return self.lower()
    def upper(self): return self._map(97, 122, -32)

    def isdigit(self):
        it = self._fl()
        return bool(it) and sand([sand([core.le(48, c), core.le(c, 57)]) if type(c) is SInt else chr(c).isdigit() for c in it])
    isdecimal = isnumeric = isdigit

    def isascii(self):
        return sand([lt(c, 128) for c in self._fl()])

    def zfill(self, n):
        it = self._fl()
        return mkstr([48] * (n - len(it)) + it)

    def rjust(self, n, f=' '):
        it = self._fl()
        return mkstr([ord(f)] * (n - len(it)) + it)

    def ljust(self, n, f=' '):
        it = self._fl()
        return mkstr(it + [ord(f)] * (n - len(it)))

    def format(self, *a, **k):
        return self.concrete().format(*a, **k)

    def splitlines(self, keepends=False):
        return self.concrete().splitlines(keepends)

    def count(self, p):
        return len(self.split(p)) - 1

    def __getattr__(self, name):
        # anything else: fall back to the concrete text
        return getattr(self.concrete(), name)


def str_join(sep, xs):
    s = chars(sep)
    out = []
    first = True
    for x in xs:
        if not first:
            out += s
        first = False
        c = chars(x)
        if c is None:
            raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
        out += c
    return mkstr(out)


def decode(items, encoding='utf-8', errors='strict'):
    enc = encoding.lower().replace('_', '-')
    if all(type(x) is int for x in items):
        return bytes(items).decode(encoding, errors)
    if enc in ('latin-1', 'iso-8859-1', 'latin1'):
        return mkstr(items)
    if errors != 'strict':
        if enc in ('utf-8', 'utf8', 'ascii', 'us-ascii') and errors in ('ignore', 'replace', 'backslashreplace', 'surrogateescape'):
            # never fails, so what it gives is worked out only when somebody looks at it
            return mkstr([Opaque('lazy', (list(items), enc, errors))])
        from .seq import concrete_bytes
        return concrete_bytes(mkbytes(items)).decode(encoding, errors)
    if enc in ('ascii', 'us-ascii'):
        if not sand([lt(x, 128) for x in items]):
            raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)')
        return mkstr([core._refine(x, 0, min(127, x.hi)) if type(x) is SInt else x for x in items])
    if enc not in ('utf-8', 'utf8'):
        from .seq import concrete_bytes
        return concrete_bytes(mkbytes(items)).decode(encoding, errors)
    return mkstr(decode_now(items, enc, errors))


class _Bad(Exception):
    pass


def decode_now(items, enc, errors):
    """UTF-8 (or ASCII) decoding by forking on the class of each octet; malformed stretches are the maximal ones CPython reports"""
    out, i, n = [], 0, len(items)
    seen = [0]

    def hexdigit(v):
        return add(v, ite(lt(v, 10), 48, 87))

    def bad():
        raise _Bad()

    def cont(j, lo=0x80, hi=0xBF):
        if j >= n:
            bad()
        b = items[j]
        if not sand([core.le(lo, b), core.le(b, hi)]):
            bad()
        seen[0] = j + 1
        return core.band(b, 0x3F)

    while i < n:
        b = items[i]
        if lt(b, 0x80):
            out.append(core._refine(b, b.lo, min(b.hi, 127)) if type(b) is SInt else b)
            i += 1
            continue
        seen[0] = i + 1
        try:
            if enc in ('ascii', 'us-ascii') or lt(b, 0xC2):
                bad()
            elif lt(b, 0xE0):
                out.append(core.bor(core.shl(core.band(b, 0x1F), 6), cont(i + 1)))
            elif lt(b, 0xF0):
                if eq(b, 0xE0):
                    c1 = cont(i + 1, 0xA0, 0xBF)
                elif eq(b, 0xED):
                    c1 = cont(i + 1, 0x80, 0x9F)
                else:
                    c1 = cont(i + 1)
                out.append(core.bor(core.bor(core.shl(core.band(b, 0xF), 12), core.shl(c1, 6)), cont(i + 2)))
            elif lt(b, 0xF5):
                if eq(b, 0xF0):
                    c1 = cont(i + 1, 0x90, 0xBF)
                elif eq(b, 0xF4):
                    c1 = cont(i + 1, 0x80, 0x8F)
                else:
                    c1 = cont(i + 1)
                c2 = cont(i + 2)
                out.append(core.bor(core.bor(core.shl(core.band(b, 7), 18), core.shl(c1, 12)),
                                    core.bor(core.shl(c2, 6), cont(i + 3))))
            else:
                bad()
            i = seen[0]
        except _Bad:
            if errors == 'strict':
                raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'invalid utf-8') from None
            if errors == 'replace':
                out.append(0xFFFD)
            for x in items[i:seen[0]]:
                if errors == 'surrogateescape':
                    out.append(add(0xDC00, x))
                elif errors == 'backslashreplace':
                    out += [92, 120, hexdigit(core.shr(x, 4)), hexdigit(core.band(x, 15))]
            i = seen[0]
    return out
