"""Replay server: runs harnesses concretely on the unmodified code of SX_REPO."""
import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')


def setup():
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(VERIF, 'sx')]
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import ccnpy
    f = getattr(ccnpy, '__file__', None) or list(ccnpy.__path__)[0]
    assert os.path.abspath(f).startswith(os.path.abspath(REPO) + '/'), f


def preload():
    """import the library once, so that the forked replays do not each do it"""
    import pkgutil
    import ccnpy
    for m in list(pkgutil.walk_packages(ccnpy.__path__, 'ccnpy.', onerror=lambda n: None)):
        if 'test' in m.name.lower() or m.name.split('.')[-1] == '__main__':
            continue
        try:
            importlib.import_module(m.name)
        except BaseException:
            sys.modules.pop(m.name, None)


def run_one(h, ci, inputs):
    from sx.ctx import ConcCtx, AssumeFailed, CheckFailed
    rnd = []
    i = 0
    while 'urandom#%d' % i in inputs:
        rnd.append(bytes.fromhex(inputs['urandom#%d' % i]))
        i += 1
    real = os.urandom
    q = list(rnd)

    def urandom(n):
        b = q.pop(0) if q and len(q[0]) == n else real(n)
        c.drawn.append(b)
        return b
    case = h.cases[ci]
    c = ConcCtx(inputs, case)
    os.urandom = urandom
    try:
        h.fn(c) if case is None else h.fn(c, case)
        return {'status': 'ok', 'reached': sorted(c.reached), 'missing': c.missing}
    except CheckFailed as x:
        return {'status': 'fail', 'msg': str(x), 'reached': sorted(c.reached)}
    except AssumeFailed:
        return {'status': 'assume', 'reached': sorted(c.reached)}
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)
        return {'status': 'fail', 'msg': 'unexpected %s: %s (%s:%s)' % (type(x).__name__, str(x)[:300], tb[-1].filename,
                                                                   tb[-1].lineno), 'reached': sorted(c.reached)}
    finally:
        os.urandom = real
        c.cleanup()


def serve(modules):
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('SX_TB'):
        os.dup2(devnull, 2)
    setup()
    for m in modules:
        importlib.import_module('harness.' + m)
    from harness import api
    preload()
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                signal.alarm(int(req.get('timeout', 60)))
                res = run_one(api.REG[req['hi']], req['ci'], req['inputs'])
            except BaseException as x:
                res = {'status': 'error', 'msg': '%s: %s' % (type(x).__name__, x)}
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.write((data or json.dumps({'status': 'fail', 'msg': 'does not terminate (time limit) or crashed', 'reached': []})) + '\n')
        out.flush()


if __name__ == '__main__':
    serve(sys.argv[1:])
