"""The interface harnesses are written against.  The same harness code runs symbolically (SymCtx, over the
rewritten sources) and concretely (ConcCtx, over the unmodified ones) when a counterexample is replayed."""
import os


def new_bytes(name, n):
    """n fresh symbolic bytes registered as one input"""
    from . import core
    items = []
    if n:
        import z3
        if n <= 4096:
            for i in range(n):
                r = core.SInt.__new__(core.SInt)
                r.e, r.lo, r.hi = z3.BitVec('%s[%d]' % (name, i), 8), 0, 255
                items.append(r)
    core.E.inputs[name] = ('bytes', items)
    return items


class SymCtx:
    symbolic = True

    def __init__(self, engine, case=None):
        self.e = engine
        self.case = case

    def _name(self, name):
        return self.e.fresh('in.' + name)

    def int(self, name, lo, hi):
        from . import core
        n = self._name(name)
        v = core.new_int(n, lo, hi)
        self.e.inputs[n] = ('int', v)
        return v

    def bool(self, name):
        import z3
        from . import core
        n = self._name(name)
        v = core.SBool(z3.Bool(n))
        self.e.inputs[n] = ('bool', v)
        return v

    def bytes(self, name, n, fill=None, sym=None):
        """n bytes; with `sym` only those positions are symbolic and the others follow a fixed pattern"""
        from .seq import mkbytes
        nm = self._name(name)
        n = int(n)
        if sym is None:
            return mkbytes(new_bytes(nm, n))
        import z3
        from . import core
        items = list(fill_pattern(n, fill))
        for i in sorted({p if p >= 0 else n + p for p in sym}):
            if 0 <= i < n:
                r = core.SInt.__new__(core.SInt)
                r.e, r.lo, r.hi = z3.BitVec('%s[%d]' % (nm, i), 8), 0, 255
                items[i] = r
        self.e.inputs[nm] = ('bytes', items)
        return mkbytes(items)

    def array(self, name, n, **k):
        from .seq import SArr
        return SArr('B', self.bytes(name, n, **k))

    def str(self, name, n, lo=32, hi=126):
        from . import core
        from .text import mkstr
        nm = self._name(name)
        items = [core.new_int('%s[%d]' % (nm, i), lo, hi) for i in range(n)]
        self.e.inputs[nm] = ('str', items)
        return mkstr(items)

    def choose(self, name, options):
        options = list(options)
        nm = self._name(name)
        i = self.e.choose(len(options))
        self.e.inputs[nm] = ('choice', i)
        return options[i]

    def concrete(self, x):
        """fork over the values of a small integer"""
        return int(x)

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, msg):
        self.e.check(c, msg)

    def reach(self, tag='end'):
        self.e.path_reached.add(tag)

    def fail(self, msg):
        self.e.check(False, msg)

    def tmpdir(self, name='d'):
        from .fakes import vfs
        p = '/sxvfs/' + name
        vfs().dirs.add(p)
        return p

    def printed(self, f):
        """f() -> the lines it prints to standard output (one text per call of print), and its result or exception"""
        from . import core, rt
        old = core.E.tables.get('printed')
        core.E.tables['printed'] = got = []
        try:
            r = f()
        finally:
            if old is None:
                del core.E.tables['printed']
            else:
                core.E.tables['printed'] = old
        return [rt.str_(x) for a in got for x in a], r

    def logged(self, f):
        """f() with every logger at level DEBUG -> the messages (an exception where one cannot be composed), and its result or exception"""
        from . import core
        t = core.E.tables
        old = t.get('levels'), t.get('logged')
        t['levels'], t['logged'] = {'root': 10}, []
        try:
            r = f()
            return t['logged'], r
        finally:
            for k, v in zip(('levels', 'logged'), old):
                if v is None:
                    del t[k]
                else:
                    t[k] = v

    def known(self, fid, c):
        """inputs of a recorded known finding: outside the explored domain"""
        from . import core
        self.e.assume(c.neg() if isinstance(c, core.SBool) else not c)

    def note(self, k, v):
        pass

    def draws(self):
        """random octet strings drawn so far by the code"""
        from .seq import mkbytes
        out = []
        while 'urandom#%d' % len(out) in self.e.inputs:
            out.append(mkbytes(self.e.inputs['urandom#%d' % len(out)][1]))
        return out

    def listdir(self, p):
        from .fakes import fs_listdir
        return fs_listdir(p)

    def added(self, p, before):
        """names in directory p that are not in an earlier listing"""
        return self.listdir(p)[len(before):]

    def readfile(self, p):
        from .fakes import fs_open
        return fs_open(p, 'rb').read()

    def writefile(self, p, b):
        from .fakes import fs_open
        fs_open(p, 'wb').write(b)

    def remove(self, p):
        from .fakes import fs_remove
        fs_remove(p)

    def mkdir(self, p):
        from .fakes import fs_makedirs
        fs_makedirs(p, exist_ok=True)

    def exists(self, p):
        from .fakes import fs_exists
        return fs_exists(p)


def fill_pattern(n, fill=None):
    if fill is not None:
        return (bytes(fill) * (n // len(fill) + 1))[:n]
    return bytes((i * 7 + (i >> 8) * 13 + 5) & 0xFF for i in range(n))


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    pass


class ConcCtx:
    symbolic = False

    def __init__(self, inputs, case=None):
        self.inp = inputs
        self.case = case
        self.cnt = {}
        self.failures = []
        self.reached = set()
        self._dirs = []
        self.missing = 0
        self.drawn = []

    def _get(self, name, default):
        n = 'in.' + name
        k = self.cnt.get(n, 0)
        self.cnt[n] = k + 1
        nm = n if k == 0 else '%s#%d' % (n, k)
        if nm in self.inp:
            return self.inp[nm]
        self.missing += 1
        return default

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def bool(self, name):
        return self._get(name, False)

    def bytes(self, name, n, fill=None, sym=None):
        n = int(n)
        v = self._get(name, None)
        return bytes.fromhex(v) if v is not None else (bytes(n) if sym is None else fill_pattern(n, fill))

    def array(self, name, n, **k):
        import array
        return array.array('B', self.bytes(name, n, **k))

    def str(self, name, n, lo=32, hi=126):
        v = self._get(name, None)
        return v if v is not None else chr(lo) * n

    def choose(self, name, options):
        options = list(options)
        return options[self._get(name, 0) % len(options)]

    def concrete(self, x):
        return x

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def known(self, fid, c):
        if c and self.inp.get('__known') != fid:
            raise AssumeFailed()

    def check(self, c, msg):
        if not c:
            self.failures.append(msg)
            raise CheckFailed(msg)

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, tag='end'):
        self.reached.add(tag)

    def note(self, k, v):
        pass

    def draws(self):
        return list(self.drawn)

    def tmpdir(self, name='d'):
        import tempfile
        d = tempfile.mkdtemp(prefix='sxreplay')
        self._dirs.append(d)
        return d

    def cleanup(self):
        import shutil
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)

    def printed(self, f):
        import builtins
        got = []
        old = builtins.print
        builtins.print = lambda *a, **k: got.extend(a)
        try:
            r = f()
        finally:
            builtins.print = old
        return [str(x) for x in got], r

    def logged(self, f):
        import logging
        got = []

        class H(logging.Handler):
            def handle(self, record):
                try:
                    got.append(record.getMessage())
                except Exception as e:
                    got.append(e)
        h, root = H(), logging.getLogger()
        old, was = root.level, {n: x.level for n, x in logging.Logger.manager.loggerDict.items() if isinstance(x, logging.Logger)}
        root.addHandler(h)
        root.setLevel(10)
        try:
            return got, f()
        finally:
            root.removeHandler(h)
            root.setLevel(old)
            for n, l in was.items():
                logging.getLogger(n).setLevel(l)

    def listdir(self, p):
        return os.listdir(p)

    def added(self, p, before):
        return sorted(set(os.listdir(p)) - set(before))

    def readfile(self, p):
        with open(p, 'rb') as f:
            return f.read()

    def writefile(self, p, b):
        with open(p, 'wb') as f:
            f.write(bytes(b))

    def remove(self, p):
        os.remove(p)

    def mkdir(self, p):
        os.makedirs(p, exist_ok=True)

    def exists(self, p):
        return os.path.exists(p)
