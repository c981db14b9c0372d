"""Symbolic values and the path controller.

SInt models an unbounded Python int exactly: a z3 bit-vector whose width is derived from a tracked
interval, so no operation can wrap.  SBool forks the current path when Python asks for its truth value.
"""
import math as _math
import time as _time

import z3

_T = z3.BoolVal(True)


class Ctl(BaseException):
    """Engine control flow: never caught by the code under test."""


class PathAbort(Ctl):
    """The path condition became unsatisfiable, or an assumption failed."""


class PathStop(Ctl):
    """The path was cut (limit, unsupported operation): it is counted as unexplored."""


class PathViolation(Ctl):
    """The path ends because a property check failed on it."""


E = None   # the current Engine


def set_engine(e):
    global E
    E = e


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.stopped = 0
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.forks = 0
        self.checks = 0
        self.discharged = 0
        self.unknown = 0
        self.incomplete = []

    def note(self, why):
        if len(self.incomplete) < 50 and why not in self.incomplete:
            self.incomplete.append(why)


class Engine:
    VALUE_CAP = 300

    def __init__(self, query_ms=10000, max_paths=100000, deadline=None, max_depth=20000):
        self.stats = Stats()
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_depth = max_depth
        self.frontier = [([], None)]
        self.reached = {}
        self.cex = []
        self.on_path_start = []

    # ---- path life cycle -------------------------------------------------
    def start(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.log = []
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', self.query_ms)
        self.model = None
        self.start_model = model
        self.known = {}
        self.pc_keep = []
        self.inputs = {}      # name -> (kind, exprs)
        self.counters = {}
        self.tables = {}      # crypto tables etc, per path
        self.defs = []        # [(fresh constant, its definition)]: a model found before the definition lacks it
        self.path_reached = set()
        self.trace = []
        if not prefix:
            self.model = self._model0()
        for f in self.on_path_start:
            f(self)

    def _model0(self):
        self.solver.check()
        return self.solver.model()

    def fresh(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    # ---- solver ----------------------------------------------------------
    def _check(self, *assumps):
        t = _time.time()
        self.stats.queries += 1
        self.alt = None
        self.solver.set('timeout', min(self.query_ms, 4000))
        r = self.solver.check(*assumps)
        if r == z3.unknown:
            # the incremental solver does little preprocessing: try the full tactic on the whole problem
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'solve-eqs', 'bit-blast', 'sat').solver()
            s2.set('timeout', self.query_ms)
            s2.add(*self.solver.assertions())
            s2.add(*assumps)
            try:
                r = s2.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                self.alt = s2
        dt = _time.time() - t
        self.stats.solver_s += dt
        if self.deadline is not None and _time.time() > self.deadline:
            self.stats.note('time limit')
            raise PathStop('time limit')
        return r

    def _smodel(self):
        return (self.alt or self.solver).model()

    def _enter_frontier(self):
        """called at the first decision after the prefix has been replayed"""
        if self.model is None:
            self.model = self.start_model
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                if r != z3.sat:
                    self.stats.unknown += 1
                    self.stats.note('solver unknown')
                    raise PathStop('unknown')
                self.model = self._smodel()

    def add(self, cond):
        self.solver.add(cond)

    def cur_model(self):
        if self.model is None:
            if self.pos >= len(self.prefix):
                self._enter_frontier()
            else:
                return None
        return self.model

    def _mval(self, e):
        return z3.is_true(self.meval(self.model, e))

    def meval(self, m, e):
        for d in reversed(self.defs):
            e = z3.substitute(e, d)
        return m.eval(e, model_completion=True)

    def define(self, name, ex):
        """a fresh constant equal to ex"""
        c = z3.BitVec(self.fresh(name), ex.size())
        self.defs.append((c, ex))
        self.solver.add(c == ex)
        return c

    def branch(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = self.known.get(e.get_id())
        if k is not None:
            return k
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
            self.pos += 1
            self.log.append((val, forced))
            if not forced:
                self.add(e if val else z3.Not(e))
            self._know(e, val)
            return val
        self._enter_frontier()
        if len(self.log) > self.max_depth:
            self.stats.note('depth limit')
            raise PathStop('depth')
        val = self._mval(e)
        other = z3.Not(e) if val else e
        r = self._check(other)
        if r == z3.unsat:
            self.log.append((val, True))
        else:
            m = None
            if r == z3.sat:
                m = self._smodel()
            else:
                self.stats.unknown += 1
            self.frontier.append((self.log + [(not val, False)], m))
            self.stats.forks += 1
            self.log.append((val, False))
            self.add(e if val else z3.Not(e))
        self._know(e, val)
        return val

    def _know(self, e, val):
        self.known[e.get_id()] = val
        self.pc_keep.append(e)

    def must(self, e):
        """True when e holds on every model of the path (no fork)."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = self.known.get(e.get_id())
        if k is not None:
            return k
        return self._check(z3.Not(e)) == z3.unsat

    def choose(self, n):
        """fork n ways with no solver involvement"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            val, _ = self.prefix[self.pos]
            self.pos += 1
            self.log.append((val, False))
            return val
        self._enter_frontier()
        for i in range(n - 1, 0, -1):
            self.frontier.append((self.log + [(i, False)], self.model))
        self.stats.forks += n - 1
        self.log.append((0, False))
        return 0

    def concretize(self, x, why='index'):
        """fork over every feasible value of x"""
        if not isinstance_sint(x):
            return int(x)
        e = z3.simplify(x.e)
        signed = x.lo < 0
        if z3.is_bv_value(e):
            return e.as_signed_long() if signed else e.as_long()
        ck = ('v', e.get_id())
        if ck in self.known:
            return self.known[ck]
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
            self.pos += 1
            self.log.append((val, forced))
            self.add(e == z3.BitVecVal(val, e.size()))
            self.known[ck] = val
            self.pc_keep.append(e)
            return val
        self._enter_frontier()
        conv = (lambda m: self.meval(m, e).as_signed_long()) if signed else \
            (lambda m: self.meval(m, e).as_long())
        vals = [(conv(self.model), self.model)]
        self.solver.push()
        self.solver.add(e != z3.BitVecVal(vals[0][0], e.size()))
        cap = self.VALUE_CAP
        complete = False
        while len(vals) < cap:
            r = self._check()
            if r != z3.sat:
                complete = (r == z3.unsat)
                break
            m = self._smodel()
            v = conv(m)
            vals.append((v, m))
            self.solver.add(e != z3.BitVecVal(v, e.size()))
        self.solver.pop()
        if not complete:
            self.stats.note('concretisation cap (%s)' % why)
            # keep a handful of values: the path set is no longer complete
            vals = vals[:4]
        for v, m in vals[:0:-1]:
            self.frontier.append((self.log + [(v, False)], m))
        self.stats.forks += len(vals) - 1
        v, m = vals[0]
        self.log.append((v, len(vals) == 1 and complete))
        self.add(e == z3.BitVecVal(v, e.size()))
        self.known[ck] = v
        self.pc_keep.append(e)
        return v

    # ---- harness facing --------------------------------------------------
    def assume(self, c):
        if isinstance(c, SBool):
            if self.branch_assume(c.e):
                return
            raise PathAbort()
        if not c:
            raise PathAbort()

    def branch_assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            self.add(e)
            self._know(e, True)
            return True
        self._enter_frontier()
        if not self._mval(e):
            r = self._check(e)
            if r == z3.unsat:
                return False
            if r != z3.sat:
                self.stats.unknown += 1
                self.stats.note('solver unknown in assume')
                raise PathStop('unknown')
            self.model = self._smodel()
            self.add(e)
        else:
            self.add(e)
        self._know(e, True)
        return True

    def check(self, c, msg):
        if self.pos < len(self.prefix):
            # this obligation was decided on the path that forked
            if isinstance(c, SBool):
                return
            if not c:
                raise PathViolation(msg)
            return
        self.stats.checks += 1
        if isinstance(c, SBool):
            e = z3.simplify(c.e)
            if z3.is_true(e):
                self.stats.discharged += 1
                return
            self._enter_frontier()
            if not z3.is_false(e) and self._mval(e):
                r = self._check(z3.Not(e))
                if r == z3.unsat:
                    self.stats.discharged += 1
                    return
                if r != z3.sat:
                    self.stats.unknown += 1
                    self.stats.note('solver unknown in check: %s' % msg)
                    return
                m = self._smodel()
            else:
                m = self.model
            self.add_cex(msg, m)
            # carry on with the inputs on which the obligation holds, if any
            self.stats.note_violation = True
            if self._check(e) != z3.sat:
                raise PathViolation(msg)
            self.model = self._smodel()
            self.add(e)
            return
        if c:
            self.stats.discharged += 1
            return
        self._enter_frontier()
        self.add_cex(msg, self.model)
        raise PathViolation(msg)

    def add_cex(self, msg, model):
        self.cex.append((msg, self.dump(model)))

    def dump(self, model):
        out = {}
        for name, (kind, v) in self.inputs.items():
            out[name] = _dump_val(kind, v, model)
        return out

    # ---- exploration -----------------------------------------------------
    def explore(self, fn):
        """fn() runs one path. yields (status, info) per path"""
        while self.frontier:
            if self.stats.paths >= self.max_paths:
                self.stats.note('path limit')
                break
            if self.deadline is not None and _time.time() > self.deadline:
                self.stats.note('time limit')
                break
            prefix, model = self.frontier.pop()
            self.start(prefix, model)
            self.stats.paths += 1
            status, info = 'ok', None
            try:
                fn()
                if self.pos < len(self.prefix):
                    self.stats.note('replay divergence')
                    status = 'stop'
            except PathAbort:
                status = 'abort'
                self.stats.aborted += 1
            except PathStop as x:
                status, info = 'stop', str(x)
                self.stats.stopped += 1
                self.stats.note('path cut: %s' % x)
            except PathViolation as x:
                status, info = 'violation', str(x)
            except RecursionError as x:
                status, info = 'stop', 'recursion'
                self.stats.stopped += 1
                self.stats.note('recursion limit')
            yield status, info


def _dump_val(kind, v, model):
    def ev(x):
        if isinstance_sint(x):
            r = model.eval(x.e, model_completion=True)
            return r.as_signed_long() if x.lo < 0 else r.as_long()
        return x
    if kind == 'int':
        return ev(v)
    if kind == 'bool':
        if type(v) is bool:
            return v
        return z3.is_true(model.eval(v.e, model_completion=True))
    if kind == 'bytes':
        return bytes(ev(x) for x in v).hex()
    if kind == 'str':
        return ''.join(chr(ev(x)) for x in v)
    if kind == 'choice':
        return v
    raise ValueError(kind)


# ------------------------------------------------------------------------------------------------
def isinstance_sint(x):
    return type(x) is SInt


def _uw(hi):
    return max(1, hi.bit_length())


def _sw(lo, hi):
    return max(((-lo) - 1).bit_length() if lo < 0 else 0, hi.bit_length() if hi >= 0 else 0) + 1


def width(lo, hi):
    return _uw(hi) if lo >= 0 else _sw(lo, hi)


def conv(x, W):
    """expression of width W congruent to x modulo 2**W"""
    if type(x) is SInt:
        w = x.e.size()
        if w == W:
            return x.e
        if w > W:
            return z3.Extract(W - 1, 0, x.e)
        if x.lo >= 0:
            return z3.ZeroExt(W - w, x.e)
        return z3.SignExt(W - w, x.e)
    return z3.BitVecVal(x, W)


def mk(e, lo, hi):
    """e has width(lo,hi)"""
    if lo == hi:
        return lo
    r = SInt.__new__(SInt)
    r.e = z3.simplify(e)
    r.lo = lo
    r.hi = hi
    if z3.is_bv_value(r.e):
        return r.e.as_long() if lo >= 0 else r.e.as_signed_long()
    return r


def _coerce(o):
    """int-like -> int or SInt, else None"""
    t = type(o)
    if t is int or t is SInt:
        return o
    if t is bool:
        return int(o)
    if t is SBool:
        return o.as_int()
    if isinstance(o, int):
        return int(o)
    if hasattr(o, '_sx_int'):
        return o._sx_int()
    return None


def _lohi(x):
    return (x.lo, x.hi) if type(x) is SInt else (x, x)


def ite(c, a, b):
    """c SBool/bool; a, b ints"""
    if type(c) is bool:
        return a if c else b
    al, ah = _lohi(a)
    bl, bh = _lohi(b)
    lo, hi = min(al, bl), max(ah, bh)
    W = width(lo, hi)
    return mk(z3.If(c.e, conv(a, W), conv(b, W)), lo, hi)


def add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    al, ah = _lohi(a)
    bl, bh = _lohi(b)
    lo, hi = al + bl, ah + bh
    r = _poly(a, b, 1, lo, hi)
    if r is None:
        W = width(lo, hi)
        r = mk(conv(a, W) + conv(b, W), lo, hi)
    if type(r) is SInt:
        l = getattr(a, 'lin', None)
        o, ol, oh = b, bl, bh
        if l is None:
            l = getattr(b, 'lin', None)
            o, ol, oh = a, al, ah
        if l is not None and ol >= 0:
            u = _lohi(l[2])[1]
            if u + oh < l[1]:
                r.lin = (l[0], l[1], add(l[2], o))
    return r


def sub(a, b):
    al, ah = _lohi(a)
    bl, bh = _lohi(b)
    lo, hi = al - bh, ah - bl
    r = _poly(a, b, -1, lo, hi)
    if r is None:
        W = width(lo, hi)
        r = mk(conv(a, W) - conv(b, W), lo, hi)
    return r


def _terms(x, tab):
    if type(x) is int:
        return {}, x
    k = _known_sum(x.e, tab)
    if k is not None:
        return k[0], k[1]
    return {x.e.get_id(): (x, 1)}, 0


def _known_sum(e, tab):
    while True:
        k = tab.get(e.get_id())
        if k is not None:
            return k
        if e.num_args() == 0:
            return None
        d = e.decl().kind()
        if d == z3.Z3_OP_ZERO_EXT:
            e = e.arg(0)
        elif d == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
            e = e.arg(1)
        else:
            return None


def _poly(a, b, sign, lo, hi):
    """a + sign*b as a sum in a canonical order, so that sums built in different orders are the same expression"""
    if E is None:
        return None
    tab = E.tables.setdefault('poly', {})
    ta, ca = _terms(a, tab)
    tb, cb = _terms(b, tab)
    if len(ta) + len(tb) > 24:
        return None
    t = dict(ta)
    for k, (x, c) in tb.items():
        c = sign * c + (t[k][1] if k in t else 0)
        if c:
            t[k] = (x, c)
        else:
            del t[k]
    const = ca + sign * cb
    if not t:
        return const
    W = width(lo, hi)
    e = None
    for k in sorted(t):
        x, c = t[k]
        v = conv(x, W)
        if c != 1:
            v = v * z3.BitVecVal(c, W)
        e = v if e is None else e + v
    if const:
        e = e + z3.BitVecVal(const, W)
    r = mk(e, lo, hi)
    if type(r) is SInt and (len(t) > 1 or const):
        k = tab.get(('sum', r.e.get_id()))
        if k is None:
            # named, so that taking its octets apart and putting them together again gives the same expression
            k = tab[('sum', r.e.get_id())] = (r.e, mk(E.define('sum', r.e), lo, hi))
        r = k[1]
    if type(r) is SInt:
        if len(t) == 1 and const == 0:
            for x, c in t.values():
                if c == 1:
                    return x if lo <= x.lo and x.hi <= hi else r
        tab[r.e.get_id()] = (t, const, r)
    return r


def mul(a, b):
    al, ah = _lohi(a)
    bl, bh = _lohi(b)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    lo, hi = min(c), max(c)
    W = width(lo, hi)
    if type(b) is int and b == 1:
        return a
    r = mk(conv(a, W) * conv(b, W), lo, hi)
    if type(b) is int and b > 1 and type(r) is SInt and type(a) is SInt and al >= 0:
        r.lin = (a, b, 0)
    return r


def neg(a):
    return sub(0, a)


def band(a, b):
    al, ah = _lohi(a)
    bl, bh = _lohi(b)
    if al >= 0 and bl >= 0:
        hi = min(ah, bh, (1 << min(ah.bit_length(), bh.bit_length())) - 1)
        W = width(0, hi)
        return mk(conv(a, W) & conv(b, W), 0, hi)
    if al >= 0 or bl >= 0:
        hi = ah if al >= 0 else bh
        W = width(0, hi)
        return mk(conv(a, W) & conv(b, W), 0, hi)
    W = max(_sw(al, ah), _sw(bl, bh))
    return mk(conv(a, W) & conv(b, W), -(1 << (W - 1)), (1 << (W - 1)) - 1)


def _bitop(a, b, f):
    al, ah = _lohi(a)
    bl, bh = _lohi(b)
    if al >= 0 and bl >= 0:
        n = max(ah.bit_length(), bh.bit_length())
        W = max(1, n)
        return mk(f(conv(a, W), conv(b, W)), 0, (1 << n) - 1)
    W = max(_sw(al, ah), _sw(bl, bh))
    return mk(f(conv(a, W), conv(b, W)), -(1 << (W - 1)), (1 << (W - 1)) - 1)


def bor(a, b):
    return _bitop(a, b, lambda x, y: x | y)


def bxor(a, b):
    return _bitop(a, b, lambda x, y: x ^ y)


def shl(a, k):
    if type(k) is SInt:
        k = E.concretize(k, 'shift')
    if k < 0:
        raise ValueError('negative shift count')
    if type(a) is int:
        return a << k
    if k == 0:
        return a
    lo, hi = a.lo << k, a.hi << k
    W = width(lo, hi)
    return mk(conv(a, W) << k if a.lo < 0 else z3.Concat(conv(a, W - k), z3.BitVecVal(0, k)), lo, hi)


def shr(a, k):
    if type(k) is SInt:
        k = E.concretize(k, 'shift')
    if k < 0:
        raise ValueError('negative shift count')
    if type(a) is int:
        return a >> k
    if k == 0:
        return a
    lo, hi = a.lo >> k, a.hi >> k
    if lo == hi:
        return lo
    w = a.e.size()
    W = width(lo, hi)
    e = a.e
    if k + W > w:                     # every result bit is a sign bit
        e = z3.SignExt(k + W - w, e) if a.lo < 0 else z3.ZeroExt(k + W - w, e)
        w = k + W
    if a.lo >= 0:
        return mk(z3.Extract(k + W - 1, k, e), lo, hi)
    x = z3.Extract(w - 1, k, e)     # signed, width w-k
    if w - k > W:
        x = z3.Extract(W - 1, 0, x)
    elif w - k < W:
        x = z3.SignExt(W - (w - k), x)
    return mk(x, lo, hi)


def divmod_(a, b):
    """floor division"""
    if type(b) is int and b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if type(b) is SInt and b.lo <= 0 <= b.hi:
        if eq(b, 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if b.lo == 0:
            b = _refine(b, 1, b.hi)
    if type(a) is int and type(b) is int:
        return a // b, a % b
    al, ah = _lohi(a)
    bl, bh = _lohi(b)
    if type(b) is int and b > 0 and b & (b - 1) == 0:
        k = b.bit_length() - 1
        return shr(a, k), band(a, b - 1)
    if type(b) is int and b > 1 and type(a) is SInt and E is not None:
        t, c = _terms(a, E.tables.setdefault('poly', {}))
        if any(k % b == 0 for x, k in t.values()) and len(t) > 1 or len(t) == 1 and c and all(k % b == 0 for x, k in t.values()):
            q, r = c // b, c % b
            for x, k in t.values():
                if k % b == 0:
                    q = add(q, mul(x, k // b))
                else:
                    r = add(r, mul(x, k))
            if type(r) is int:
                return add(q, r // b), r % b
            lo, hi = _lohi(r)
            if 0 <= lo and hi < b:
                return q, r
            if hi - lo < ah - al:
                q2, r2 = divmod_(r, b)
                return add(q, q2), r2
    if al >= 0 and bl > 0:
        W = max(width(al, ah), width(bl, bh))
        lin = getattr(a, 'lin', None)
        if lin is not None and type(b) is int and lin[1] % b == 0:
            # a == x*c + r with 0 <= r < c and b divides c
            x, c, r = lin
            if c == b:
                return x, r
            q2, r2 = divmod_(r, b)
            return add(mul(x, c // b), q2), r2
        ea, eb = conv(a, W), conv(b, W)
        qlo, qhi = al // bh, ah // bl
        rhi = min(ah, bh - 1)
        q = mk(_fit(z3.UDiv(ea, eb), qlo, qhi), qlo, qhi)
        if type(b) is int and al // b == ah // b:
            r = sub(a, mul(q, b))
        else:
            r = mk(_fit(z3.URem(ea, eb), 0, rhi), 0, rhi)
        return q, r
    # general case: signed with floor adjustment
    W = max(_sw(al, ah), _sw(bl, bh)) + 1
    ea, eb = conv(a, W), conv(b, W)
    q = ea / eb
    r = z3.SRem(ea, eb)
    adj = z3.And(r != 0, (r < 0) != (eb < 0))
    q = z3.If(adj, q - 1, q)
    r = z3.If(adj, r + eb, r)
    m = max(abs(al), abs(ah))
    n = max(abs(bl), abs(bh))
    return (mk(_fit(q, -m - 1, m), -m - 1, m), mk(_fit(r, -n, n), -n, n))


def _fit(e, lo, hi):
    W = width(lo, hi)
    w = e.size()
    if w == W:
        return e
    if w > W:
        return z3.Extract(W - 1, 0, e)
    return z3.ZeroExt(W - w, e) if lo >= 0 else z3.SignExt(W - w, e)


def hex_char(c, b, k, nib):
    """c is the k-th hexadecimal digit of the octet b, with value nib"""
    if type(c) is SInt:
        E.tables.setdefault('hex', {})[id(c)] = (c, b, k, nib)
    return c


def hex_origin(c):
    """(octet, position, value) of a character made by hex_char"""
    r = E.tables.get('hex', {}).get(id(c)) if type(c) is SInt else None
    return None if r is None else r[1:]


def _refine(x, lo, hi):
    """x is known (by the path condition) to be in [lo,hi]"""
    if type(x) is int:
        return x
    return mk(conv(x, width(lo, hi)), lo, hi)


def eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if a is b:
        return True
    al, ah = _lohi(a)
    bl, bh = _lohi(b)
    if ah < bl or bh < al:
        return False
    W = max(width(al, ah), width(bl, bh)) + (1 if (al < 0) != (bl < 0) else 0)
    ea, eb = conv(a, W), conv(b, W)
    if ea.eq(eb):
        return True
    return sbool(ea == eb)


def lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    al, ah = _lohi(a)
    bl, bh = _lohi(b)
    if ah < bl:
        return True
    if al >= bh:
        return False
    if al >= 0 and bl >= 0:
        W = max(width(al, ah), width(bl, bh))
        return sbool(z3.ULT(conv(a, W), conv(b, W)))
    W = max(_sw(al, ah), _sw(bl, bh))
    return sbool(conv(a, W) < conv(b, W))


def le(a, b):
    r = lt(b, a)
    return (not r) if type(r) is bool else r.neg()


def sbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def sand(xs):
    es = []
    for x in xs:
        if type(x) is SBool:
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return sbool(es[0]) if len(es) == 1 else sbool(z3.And(es))


def sor(xs):
    es = []
    for x in xs:
        if type(x) is SBool:
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return sbool(z3.Or(es))


def snot(x):
    return x.neg() if type(x) is SBool else (not x)


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.branch(self.e)

    def neg(self):
        return SBool(z3.Not(self.e))

    def as_int(self):
        return mk(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)

    _sx_int = as_int

    def _o(self, o):
        if type(o) is SBool:
            return o.e
        if isinstance(o, bool):
            return z3.BoolVal(o)
        return None

    def __and__(self, o):
        x = self._o(o)
        return sbool(z3.And(self.e, x)) if x is not None else self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        x = self._o(o)
        return sbool(z3.Or(self.e, x)) if x is not None else self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        x = self._o(o)
        return sbool(z3.Xor(self.e, x)) if x is not None else self.as_int() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        x = self._o(o)
        if x is not None:
            return sbool(self.e == x)
        c = _coerce(o)
        return eq(_coerce(self), c) if c is not None else False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return 1 if self.__bool__() else 0
    __int__ = __index__

    def __repr__(self):
        return '<symbool>'

    def __add__(self, o): return self.as_int() + o
    def __radd__(self, o): return o + self.as_int()
    def __sub__(self, o): return self.as_int() - o
    def __rsub__(self, o): return o - self.as_int()
    def __mul__(self, o): return self.as_int() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self.as_int() < o
    def __le__(self, o): return self.as_int() <= o
    def __gt__(self, o): return self.as_int() > o
    def __ge__(self, o): return self.as_int() >= o


def _bin(f, g=None):
    def op(self, o):
        c = _coerce(o)
        if c is None:
            if g is not None and type(o) is float:
                return g(_frac(self), o)
            return NotImplemented
        return f(self, c)

    def rop(self, o):
        c = _coerce(o)
        if c is None:
            if g is not None and type(o) is float:
                return g(o, _frac(self))
            return NotImplemented
        return f(c, self)
    return op, rop


def _frac(x):
    from .num import SFrac, _small
    return SFrac(x, 1) if _small(x) else float(E.concretize(x, 'float'))


class SInt:
    __slots__ = ('e', 'lo', 'hi', 'lin')

    @property
    def __class__(self):
        return int

    def __init__(self, *a):
        raise TypeError

    __add__, __radd__ = _bin(add, lambda a, b: a + b)
    __sub__, __rsub__ = _bin(sub, lambda a, b: a - b)
    __and__, __rand__ = _bin(band)
    __or__, __ror__ = _bin(bor)
    __xor__, __rxor__ = _bin(bxor)
    __lshift__, __rlshift__ = _bin(shl)
    __rshift__, __rrshift__ = _bin(shr)

    def __mul__(self, o):
        c = _coerce(o)
        if c is None:
            if isinstance(o, (list, tuple, str, bytes)) or hasattr(o, '_sx_seq'):
                return o * E.concretize(self, 'repeat')
            if type(o) is float:
                return _frac(self) * o
            return NotImplemented
        return mul(self, c)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else divmod_(self, c)[0]

    def __rfloordiv__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else divmod_(c, self)[0]

    def __mod__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else divmod_(self, c)[1]

    def __rmod__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else divmod_(c, self)[1]

    def __divmod__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else divmod_(self, c)

    def __rdivmod__(self, o):
        c = _coerce(o)
        return NotImplemented if c is None else divmod_(c, self)

    def __truediv__(self, o):
        from .num import truediv
        return truediv(self, o)

    def __rtruediv__(self, o):
        from .num import truediv
        return truediv(o, self)

    def __pow__(self, o, mod=None):
        c = _coerce(o)
        if c is None or mod is not None:
            return NotImplemented
        if type(c) is SInt:
            c = E.concretize(c, 'pow')
        if c < 0:
            return 1 / self.__pow__(-c)
        r = 1
        for _ in range(c):
            r = r * self
        return r

    def __rpow__(self, o):
        k = E.concretize(self, 'pow')
        return o ** k

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __invert__(self):
        return sub(-1, self)

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(lt(self, 0), _absn(self), _absp(self))

    def __eq__(self, o):
        c = _coerce(o)
        if c is None:
            if isinstance(o, float):
                return eq(self, int(o)) if o == o and abs(o) != float('inf') and int(o) == o else False
            return NotImplemented if hasattr(o, '_sx_num') else False
        return eq(self, c)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        c = _coerce(o)
        if c is None:
            return self._fcmp(o, lambda f: lt(self, _math.ceil(f)), True, False)
        return lt(self, c)

    def __le__(self, o):
        c = _coerce(o)
        if c is None:
            return self._fcmp(o, lambda f: le(self, _math.floor(f)), True, False)
        return le(self, c)

    def __gt__(self, o):
        c = _coerce(o)
        if c is None:
            return self._fcmp(o, lambda f: lt(_math.floor(f), self), False, True)
        return lt(c, self)

    def __ge__(self, o):
        c = _coerce(o)
        if c is None:
            return self._fcmp(o, lambda f: le(_math.ceil(f), self), False, True)
        return le(c, self)

    def _fcmp(self, o, f, posinf, neginf):
        if isinstance(o, float) and type(o) is float:
            if o != o:
                return False
            if o == float('inf'):
                return posinf
            if o == float('-inf'):
                return neginf
            return f(o)
        return NotImplemented

    def __bool__(self):
        r = eq(self, 0)
        if type(r) is bool:
            return not r
        return not E.branch(r.e)

    def __index__(self):
        return E.concretize(self, 'index')

    def __int__(self):
        return E.concretize(self, 'int()')

    def __float__(self):
        return float(E.concretize(self, 'float()'))

    def __hash__(self):
        return hash(E.concretize(self, 'hash'))

    def __round__(self, nd=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __trunc__
    __ceil__ = __trunc__

    def __repr__(self):
        return '<sym>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # int API
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def conjugate(self): return self
    def is_integer(self): return True

    def as_integer_ratio(self):
        return (self, 1)

    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        # nested from small to large: smallest k with a < 2**k
        r = a.hi.bit_length()
        for k in range(a.hi.bit_length() - 1, a.lo.bit_length() - 1, -1):
            r = ite(lt(a, 1 << k), k, r)
        return r

    def bit_count(self):
        a = abs(self)
        r = 0
        for k in range(a.hi.bit_length()):
            r = r + ((a >> k) & 1)
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .seq import mkbytes
        if type(length) is SInt:
            length = E.concretize(length, 'to_bytes length')
        if length < 0:
            raise ValueError('length argument must be non-negative')
        x = self
        if signed:
            lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if length else (0, 0)
        else:
            if lt(x, 0):
                raise OverflowError("can't convert negative int to unsigned")
            lo, hi = 0, (1 << (8 * length)) - 1
        if lt(hi, x):
            raise OverflowError('int too big to convert')
        if signed and lt(x, lo):
            raise OverflowError('int too big to convert')
        if length == 0:
            return b''
        e = conv(x, 8 * length)
        out = [mk(z3.Extract(8 * i + 7, 8 * i, e), 0, 255) for i in range(length)]
        if byteorder == 'big':
            out.reverse()
        elif byteorder != 'little':
            raise ValueError("byteorder must be either 'little' or 'big'")
        return mkbytes(out)


def _absn(x):
    return mk(conv(neg(x), width(0, max(0, -x.lo))), 0, max(0, -x.lo)) if x.lo < 0 else x


def _absp(x):
    hi = max(0, x.hi)
    return mk(conv(x, width(0, hi)), 0, hi)


def new_int(name, lo, hi):
    """fresh symbolic int in [lo,hi]"""
    if lo == hi:
        return lo
    W = width(lo, hi)
    v = z3.BitVec(name, W)
    r = SInt.__new__(SInt)
    r.e, r.lo, r.hi = v, lo, hi
    if lo >= 0:
        if lo > 0:
            E.branch_assume(z3.UGE(v, z3.BitVecVal(lo, W)))
        if hi != (1 << W) - 1:
            E.branch_assume(z3.ULE(v, z3.BitVecVal(hi, W)))
    else:
        if lo != -(1 << (W - 1)):
            E.branch_assume(v >= z3.BitVecVal(lo, W))
        if hi != (1 << (W - 1)) - 1:
            E.branch_assume(v <= z3.BitVecVal(hi, W))
    return r


def concat_bytes(items):
    """big-endian integer from a list of byte values"""
    n = len(items)
    if n == 0:
        return 0
    if all(type(x) is int for x in items):
        return int.from_bytes(bytes(items), 'big')
    # strip leading concrete zeros
    i = 0
    while type(items[i]) is int and items[i] == 0:
        i += 1
    items = items[i:]
    n = len(items)
    e = z3.Concat(*[conv(x, 8) for x in items]) if n > 1 else conv(items[0], 8)
    lo = hi = 0
    for x in items:
        l, h = _lohi(x)
        lo = lo << 8 | l
        hi = hi << 8 | h
    r = mk(_fit(e, lo, hi), lo, hi)
    if E is not None and type(r) is SInt:
        k = _known_sum(r.e, E.tables.get('poly', {}))
        if k is not None and lo <= k[2].lo and k[2].hi <= hi:
            return k[2]
    return r
