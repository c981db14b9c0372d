"""Exact model of int/int true division as used by the code under test (ceil/floor/int/compare), and of
float values derived from symbolic integers.

SFrac(num, den): the float nearest to num/den.  For |num| < 2**52 the results of int(), floor(), ceil() and
comparison with an integer are those of the exact quotient (1/den is larger than half an ulp), so they are
computed on integers.  Anything else concretises."""
import math as _math
import z3
from . import core
from .core import SInt, SBool, sand, sor, lt, le, eq, sub, neg, ite, mul, add, divmod_, snot, _coerce


class SFrac:
    __slots__ = ('num', 'den')
    _sx_num = True

    @property
    def __class__(self):
        return float

    def __init__(self, num, den):
        self.num, self.den = num, den

    def conc(self):
        n = core.E.concretize(self.num, 'float') if type(self.num) is SInt else self.num
        return n / self.den

    def floor(self):
        return divmod_(self.num, self.den)[0]

    def ceil(self):
        return neg(divmod_(neg(self.num), self.den)[0])

    def trunc(self):
        if type(self.num) is int or self.num.lo >= 0:
            return self.floor()
        if lt(self.num, 0):
            return self.ceil()
        return self.floor()

    def __round__(self, nd=None):
        if nd is None:
            q, r = divmod_(self.num, self.den)
            t = mul(r, 2)
            if lt(t, self.den):
                return q
            if lt(self.den, t):
                return add(q, 1)
            return add(q, core.band(q, 1))
        if type(nd) is int and 0 < nd < 10:
            # round() is correctly rounded: exact unless the quotient is a tie (then the float may lie on either side)
            s = 10 ** nd
            lo, hi = core._lohi(self.num)
            if max(abs(lo), abs(hi)) * (2 * s // _math.gcd(2 * s, self.den)) < 2 ** 53:
                g = _math.gcd(s, self.den)
                d = self.den // g
                if d == 1:
                    return SFrac(mul(self.num, s // g), s)
                q, r = divmod_(mul(self.num, s // g), d)
                t = mul(r, 2)
                if lt(t, d):
                    return SFrac(q, s)
                if lt(d, t):
                    return SFrac(add(q, 1), s)
        return round(self.conc(), nd)

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __float__(self):
        return self.conc()

    def __bool__(self):
        return bool(snot(eq(self.num, 0)))

    def _cmp(self, o, f):
        c = _coerce(o)
        if c is not None:
            return f(self.num, mul(c, self.den))
        if type(o) is SFrac:
            return f(mul(self.num, o.den), mul(o.num, self.den))
        if type(o) is float:
            if o == _math.inf:
                return f(0, 1)
            if o == -_math.inf:
                return f(1, 0)
            if o != o:
                return False
            n, d = o.as_integer_ratio()
            return f(mul(self.num, d), n * self.den)
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lt)
    def __le__(self, o): return self._cmp(o, le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        return self._cmp(o, eq)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(self.conc())

    def __neg__(self): return SFrac(neg(self.num), self.den)
    def __pos__(self): return self
    def __abs__(self): return SFrac(abs(self.num), self.den)

    def is_integer(self):
        return eq(divmod_(self.num, self.den)[1], 0)

    def _ar(self, o, f):
        """exact only when the quotient and the result are integers below 2**52"""
        c = _coerce(o)
        if c is not None and (self.den == 1):
            r = f(self.num, c)
            if _small(r):
                return SFrac(r, 1)
        if c is not None and type(c) is int and self.den & (self.den - 1) == 0:
            return None
        return None

    def __add__(self, o):
        c = _coerce(o)
        if c is not None:
            # n/d + c: exact for dyadic d, otherwise rounding cannot cross an integer for small values
            r = add(self.num, mul(c, self.den))
            if _small(r):
                return SFrac(r, self.den)
        if type(o) is SFrac:
            d = self.den * o.den // _math.gcd(self.den, o.den)
            r = add(mul(self.num, d // self.den), mul(o.num, d // o.den))
            if _small(r) and d <= 10 ** 7:
                return SFrac(r, d)
        if type(o) is float and self.den <= 10 ** 6:
            r = addfloat(self, o)
            if r is not None:
                return r
        return self.conc() + (core.E.concretize(o) if type(o) is SInt else o)
    __radd__ = __add__

    def __sub__(self, o):
        c = _coerce(o)
        if c is not None:
            r = sub(self.num, mul(c, self.den))
            if _small(r):
                return SFrac(r, self.den)
        if type(o) is SFrac:
            return self + SFrac(neg(o.num), o.den)
        if type(o) is float and self.den <= 10 ** 6 and addfloat(self, -o) is not None:
            return addfloat(self, -o)
        return self.conc() - (core.E.concretize(o) if type(o) is SInt else float(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        c = _coerce(o)
        if c is not None and self.den & (self.den - 1) == 0:
            r = mul(self.num, c)
            if _small(r):
                return SFrac(r, self.den)
        if c is None and type(o) is float and o == o and abs(o) < 2 ** 52 and o == int(o):
            c = int(o)
        if type(c) is int and c and _small(self.num):
            g = _math.gcd(c, self.den)
            if _small(mul(self.num, c // g)):
                return SFlt(mul(self.num, c // g), self.den // g, self.num, lambda v, d=self.den: v / d * c)
        return self.conc() * (core.E.concretize(o) if type(o) is SInt else float(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        c = _coerce(o)
        if type(c) is int and c > 0 and self.den & (self.den - 1) == 0 and _small(self.num):
            return SFrac(self.num, self.den * c)
        return self.conc() / (core.E.concretize(o) if type(o) is SInt else float(o))

    def __rtruediv__(self, o):
        return o / self.conc()

    def __floordiv__(self, o):
        q = self / o
        return SFrac(q.floor(), 1) if type(q) is SFrac else q // 1

    def __mod__(self, o):
        return self.conc() % o

    def __pow__(self, o):
        return self.conc() ** o

    def __repr__(self):
        return '<symfloat>'

    def __format__(self, spec):
        return '<symfloat>'


class SFlt(SFrac):
    """float obtained from num/den by one more rounding; src is the integer it was computed from and f the real
    float computation.  round() is exact as long as the error stays below the distance to a tie; floor, ceil and
    trunc are exact except at inputs where the rounding crosses an integer: some of those are looked for and
    followed separately, the path where none is met is marked incomplete."""
    __slots__ = ('src', 'f')

    def __init__(self, num, den, src, f):
        SFrac.__init__(self, num, den)
        self.src, self.f = src, f

    def conc(self):
        return self.f(core.E.concretize(self.src, 'float') if type(self.src) is SInt else self.src)

    def _deviant(self, g, exact):
        import random
        lo, hi = core._lohi(self.src)
        rnd = random.Random(7)
        out = []
        for i in range(30000):
            v = lo + i if i < 3000 else rnd.randint(lo, hi)
            if v <= hi and g(self.f(v)) != exact(v):
                out.append(v)
                if len(out) == 4:
                    break
        for v in out:
            if bool(eq(self.src, v)):
                return g(self.f(v))
        core.E.stats.note('float rounding at an integer boundary')
        return None

    def _ex(self, how):
        from fractions import Fraction
        a = self.f(1 << 20)
        k = Fraction(a / (1 << 20)).limit_denominator(10 ** 7)
        if how == 'floor':
            return lambda v: _math.floor(k * v)
        if how == 'ceil':
            return lambda v: _math.ceil(k * v)
        return lambda v: _math.trunc(k * v)

    def floor(self):
        r = self._deviant(_math.floor, self._ex('floor'))
        return SFrac.floor(self) if r is None else r

    def ceil(self):
        r = self._deviant(_math.ceil, self._ex('ceil'))
        return SFrac.ceil(self) if r is None else r

    def trunc(self):
        r = self._deviant(int, self._ex('trunc'))
        return SFrac.trunc(self) if r is None else r

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __round__(self, nd=None):
        q, r = divmod_(self.num, self.den) if self.den != 1 else (self.num, 0)
        if nd is None and (type(r) is int and r == 0 or bool(eq(r, 0))):
            lo, hi = core._lohi(q)
            if max(abs(lo), abs(hi)) < 2 ** 50:
                return q
        return round(self.conc(), nd)

    def __add__(self, o): return self.conc() + o
    __radd__ = __add__
    def __sub__(self, o): return self.conc() - o
    def __rsub__(self, o): return o - self.conc()
    def __mul__(self, o): return self.conc() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self.conc() / o
    def _cmp(self, o, f):
        v = self.conc()
        return {lt: v < o, le: v <= o, eq: v == o}.get(f, v > o if f(1, 0) else v >= o)

    def is_integer(self): return self.conc().is_integer()


def addfloat(x, o):
    """x + o for a float constant that is the nearest to a short decimal or dyadic fraction; one more rounding"""
    from fractions import Fraction
    if o != o or abs(o) >= 2 ** 40:
        return None
    q = Fraction(o).limit_denominator(10 ** 6)
    if float(q) != o:
        return None
    n, d = (x.num, x.den) if type(x) is SFrac else (x, 1)
    e = d * q.denominator // _math.gcd(d, q.denominator)
    r = add(mul(n, e // d), q.numerator * (e // q.denominator))
    if not _small(r) or e > 10 ** 7:
        return None
    if e == 1:
        return SFrac(r, 1)
    if e & (e - 1) == 0:
        return SFrac(r, e)
    return SFlt(r, e, n, lambda v: v / d + o)


def _small(x):
    lo, hi = core._lohi(x)
    return -2 ** 52 < lo and hi < 2 ** 52


def _round53(x):
    """the float nearest to a symbolic natural number below 2**68, as an integer (ties to even)"""
    lo, hi = core._lohi(x)
    if lo < 0 or hi >= 2 ** 68:
        return None
    if lt(x, 2 ** 53):
        return x
    for k in range(1, 16):
        if k == 15 or lt(x, 2 ** (53 + k)):
            q, r = divmod_(x, 2 ** k)
            h = 2 ** (k - 1)
            up = sor([lt(h, r), sand([eq(r, h), eq(core.band(q, 1), 1)])])
            return mul(add(q, ite(up, 1, 0)), 2 ** k)


def truediv(a, b):
    b0 = b
    if type(a) is SFrac:
        return a.__truediv__(b)
    ca, cb = _coerce(a), _coerce(b)
    if cb is None and type(b) is float and b == int(b):
        cb = int(b)
    if ca is None and type(a) is float:
        ca = None
    if ca is None or cb is None:
        x = core.E.concretize(a, 'float') if type(a) is SInt else a
        y = core.E.concretize(b, 'float') if type(b) is SInt else b
        return x / y
    if type(cb) is SInt:
        cb = core.E.concretize(cb, 'divisor')
    if cb == 0:
        raise ZeroDivisionError('division by zero')
    if type(ca) is int:
        return ca / cb
    if cb < 0:
        ca, cb = neg(ca), -cb
    if not _small(ca):
        r = _round53(ca) if cb & (cb - 1) == 0 else None
        return core.E.concretize(ca, 'float division') / cb if r is None else SFrac(r, cb)
    if type(ca) is int:
        return ca / cb
    return SFrac(ca, cb)


class _FloatNote:
    pass


def log_sym(x, base=None):
    """math.log of a symbolic int: the integer range is cut where ceil/floor of the real float function
    changes; the result is a piecewise table evaluated lazily"""
    return SLog(x, base)


class SLog:
    """float value f(x) for a real, weakly increasing float function f of a symbolic int"""
    __slots__ = ('x', 'f')
    _sx_num = True

    def __init__(self, x, base=None, f=None):
        self.x = x
        if f is not None:
            self.f = f
        elif base is None:
            self.f = _math.log
        else:
            self.f = lambda v: _math.log(v, base)

    @property
    def __class__(self):
        return float

    def _step(self, g):
        """SInt for g(f(x)), g a weakly increasing int-valued function: cut the range by bisection"""
        lo, hi = core._lohi(self.x)
        if lo <= 0:
            if core.lt(self.x, 1):
                self.f(min(0, lo))      # raises like the real function
            lo = 1
        cur = lo
        val = g(self.f(cur))
        out = [(lo, val)]
        last = g(self.f(hi))
        while val < last:
            a, b = cur, hi          # g(f(a))==val, g(f(b))>val
            while b - a > 1:
                m = (a + b) // 2
                if g(self.f(m)) > val:
                    b = m
                else:
                    a = m
            cur = b
            val = g(self.f(cur))
            out.append((cur, val))
        r = out[0][1]
        for start, v in out[1:]:
            r = ite(core.le(start, self.x), v, r)
        return r

    def ceil(self): return self._step(_math.ceil)
    def floor(self): return self._step(_math.floor)
    def trunc(self): return self._step(int)
    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __round__(self, nd=None):
        if nd is not None:
            return round(self.conc(), nd)
        return self._step(round)

    def conc(self):
        return self.f(core.E.concretize(self.x, 'log'))

    def __float__(self): return self.conc()

    def _shift(self, g):
        f = self.f
        return SLog(self.x, f=lambda v: g(f(v)))

    def __add__(self, o):
        return self._shift(lambda v: v + o) if type(o) in (int, float) else self.conc() + o
    __radd__ = __add__
    def __sub__(self, o):
        return self._shift(lambda v: v - o) if type(o) in (int, float) else self.conc() - o
    def __rsub__(self, o): return o - self.conc()
    def __mul__(self, o):
        return self._shift(lambda v: v * o) if type(o) in (int, float) and o > 0 else self.conc() * o
    __rmul__ = __mul__
    def __truediv__(self, o):
        return self._shift(lambda v: v / o) if type(o) in (int, float) and o > 0 else self.conc() / float(o)
    def __rtruediv__(self, o): return o / self.conc()
    def __lt__(self, o): return self.conc() < o
    def __le__(self, o): return self.conc() <= o
    def __gt__(self, o): return self.conc() > o
    def __ge__(self, o): return self.conc() >= o
    def __eq__(self, o): return self.conc() == o
    def __ne__(self, o): return self.conc() != o
    def __hash__(self): return hash(self.conc())
    def __bool__(self): return bool(self.conc())
    def __repr__(self): return '<symfloat>'
