"""Runs the harnesses of one property symbolically, replays counterexamples on the unmodified code, writes the
evidence file."""
import importlib
import json
import multiprocessing
import os
import resource
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')


def load(modules):
    from . import loader
    loader.install()
    for m in modules:
        importlib.import_module('harness.' + m)
    from harness import api
    return api.REG


_SNAP = None
_FUNCS = set()


def _monitor():
    mon = sys.monitoring
    mon.use_tool_id(3, 'sx')

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO + '/ccnpy/'):
            _FUNCS.add(f[len(REPO) + 1:] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def run_task(arg):
    hi, ci, deadline, max_paths, query_ms, nval = arg
    from . import core, loader, ctx as ctxm
    from harness import api
    h = api.REG[hi]
    case = h.cases[ci]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    snap = loader.Snapshot()
    e = core.Engine(query_ms=query_ms, max_paths=max_paths, deadline=time.time() + deadline)
    core.set_engine(e)
    try:
        _monitor()
    except ValueError:
        pass
    out = {'h': h.name, 'hi': hi, 'ci': ci, 'case': repr(case), 'reached': {}, 'samples': [], 'cex': [], 'errors': []}

    def one():
        snap.restore()
        c = ctxm.SymCtx(e, case)
        try:
            h.fn(c) if case is None else h.fn(c, case)
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''
            msg = 'unexpected %s at %s: %s' % (type(x).__name__, where, _safe(x))
            if os.environ.get('SX_TB'):
                traceback.print_exc()
            if e.pos < len(e.prefix):
                e.stats.note('replay divergence (exception)')
                raise core.PathStop('divergence')
            e._enter_frontier()
            e.add_cex(msg, e.model)
            raise core.PathViolation(msg)

    okpaths = 0
    stride = 1
    try:
        for status, info in e.explore(one):
            for r in e.path_reached:
                out['reached'][r] = out['reached'].get(r, 0) + 1
            if status == 'ok':
                okpaths += 1
                if okpaths % stride == 0:
                    try:
                        m = e.cur_model()
                        if m is not None:
                            out['samples'].append((e.dump(m), sorted(e.path_reached)))
                    except BaseException as x:   # time-out while sampling
                        e.stats.note('sample: %s' % x)
                    if len(out['samples']) >= 2 * nval:
                        out['samples'] = out['samples'][::2]
                        stride *= 2
            if len(e.cex) >= 12:
                e.stats.note('stopped after %d candidate counterexamples' % len(e.cex))
                break
    except MemoryError:
        e.stats.note('memory limit')
    except Exception as x:
        out['errors'].append('engine error: %s' % traceback.format_exc()[-1500:])
    out['cex'] = e.cex
    s = e.stats
    out['stats'] = {k: getattr(s, k) for k in ('paths', 'aborted', 'stopped', 'queries', 'solver_s', 'branches', 'forks',
                                               'checks', 'discharged', 'unknown')}
    out['incomplete'] = s.incomplete
    out['funcs'] = sorted(_FUNCS)
    out['okpaths'] = okpaths
    out['wall'] = time.time() - t0
    return out


def _safe(x):
    try:
        return ' '.join(str(a)[:200] for a in x.args)
    except BaseException:
        return '?'


class Replayer:
    """a server process over the unmodified code; every replay runs in a fork of it"""
    def __init__(self, modules):
        env = dict(os.environ)
        env['SX_REPO'] = REPO
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'sx', 'replay.py')] + list(modules),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=VERIF)

    def run(self, name, ci, inputs, timeout=60):
        self.p.stdin.write(json.dumps({'h': name[0], 'hi': name[1], 'ci': ci, 'inputs': inputs, 'timeout': timeout}) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {'status': 'error', 'msg': 'replay server died'}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()


def main(prop, tier, modules, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replayer = Replayer(modules)
    try:
        reg = load(modules)
    except Exception:
        traceback.print_exc()
        # the rewritten tree could not be loaded: is the plain one loadable?
        print('ERROR: could not load the sources')
        return 2
    from . import core   # noqa
    tasks = []
    quick = tier == 'quick'
    budget = float(os.environ.get('SX_BUDGET', '300' if quick else '3000'))
    for hi, h in enumerate(reg):
        if h.prop != prop or (quick and h.tier != 'quick'):
            continue
        if only and only not in h.name:
            continue
        for ci in range(len(h.cases)):
            b = h.budget or (120 if quick else 900)
            tasks.append((hi, ci, min(b, budget), 20000 if quick else 400000, 20000 if quick else 120000,
                          30 if quick else 200))
    if not tasks:
        print('no harness for', prop)
        return 2
    mp = multiprocessing.get_context('fork')
    nproc = int(os.environ.get('SX_PROCS', '8'))
    results = []
    viol = []
    unconfirmed = []
    validated = 0
    mismatches = []
    hard_deadline = time.time() + (780 if quick else 6 * 3600)
    seen_msgs = set()
    with mp.Pool(nproc, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(run_task, tasks)
        left = len(tasks)
        while left:
            try:
                r = it.next(timeout=max(1, hard_deadline - time.time()))
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
            left -= 1
            results.append(r)
            h = reg[r['hi']]
            if verbose:
                print('%-40s %-30s paths=%d ok=%d chk=%d/%d q=%d solver=%.1fs wall=%.1fs cex=%d %s' % (
                    r['h'], r['case'][:30], r['stats']['paths'], r['okpaths'], r['stats']['discharged'],
                    r['stats']['checks'], r['stats']['queries'], r['stats']['solver_s'], r['wall'], len(r['cex']),
                    r['incomplete'] or ''))
                for x in r['errors']:
                    print(x)
            confirmed_here = False
            for msg, inputs in r['cex']:
                key = (r['h'], msg)
                if confirmed_here and key in seen_msgs:
                    continue
                if time.time() > hard_deadline:
                    break
                rr = replayer.run((r['h'], r['hi']), r['ci'], inputs)
                if rr['status'] == 'fail':
                    confirmed_here = True
                    seen_msgs.add(key)
                    viol.append({'harness': r['h'], 'hi': r['hi'], 'ci': r['ci'], 'case': r['case'],
                                 'inputs': inputs, 'message': rr['msg'], 'symbolic_message': msg,
                                 'modules': list(modules), 'property': prop})
                else:
                    unconfirmed.append({'harness': r['h'], 'case': r['case'], 'inputs': inputs, 'message': msg,
                                        'replay': rr})
            nv = 30 if quick else 200
            for inputs, tags in r['samples'][:nv]:
                if time.time() > hard_deadline or (confirmed_here and quick):
                    break
                rr = replayer.run((r['h'], r['hi']), r['ci'], inputs)
                if rr['status'] == 'ok':
                    if sorted(rr['reached']) == tags:
                        validated += 1
                    else:
                        mismatches.append({'harness': r['h'], 'case': r['case'], 'inputs': inputs,
                                           'symbolic': tags, 'concrete': rr['reached']})
                elif rr['status'] == 'fail':
                    viol.append({'harness': r['h'], 'hi': r['hi'], 'ci': r['ci'], 'case': r['case'],
                                 'inputs': inputs, 'message': rr['msg'], 'symbolic_message': '(path replay)',
                                 'modules': list(modules), 'property': prop})
                    confirmed_here = True
                else:
                    mismatches.append({'harness': r['h'], 'case': r['case'], 'inputs': inputs, 'replay': rr})
    # known findings: confirm each of them on the real code
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    kf_lines = []
    byname = {h.name: i for i, h in enumerate(reg)}
    for k in known.get('findings', []):
        if k['property'] != prop:
            continue
        hn = k['harness']
        at = next(((i, [repr(c) for c in h.cases].index(k['case'])) for i, h in enumerate(reg)
                   if h.name == hn and k['case'] in [repr(c) for c in h.cases]), None)
        if at is None:
            continue
        rr = replayer.run((hn, at[0]), at[1], dict(k.get('inputs', {}), __known=k['id']))
        if rr['status'] == 'fail':
            kf_lines.append('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what']))
        else:
            kf_lines.append('note: known finding %s no longer fails (%s)' % (k['id'], rr['status']))
    replayer.close()
    vac = []
    for hname in sorted({r['h'] for r in results}):
        rs = [r for r in results if r['h'] == hname]
        if not any(r['reached'] for r in rs):
            vac.append(hname)
    tot = {k: sum(r['stats'][k] for r in results) for k in results[0]['stats']} if results else {}
    incomplete = sorted({'%s[%s]: %s' % (r['h'], r['case'][:40], n) for r in results for n in r['incomplete']})
    errors = [x for r in results for x in r['errors']]
    if len(results) < len(tasks):
        incomplete.append('hard time limit: %d of %d tasks finished' % (len(results), len(tasks)))
    for k in sorted(set(kf_lines)):
        print(k)
    nreplay = 0
    for v in viol:
        if nreplay >= 5:
            break
        p = os.path.join(evdir, 'replay-%s-%d.json' % (prop, nreplay))
        with open(p, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s [%s] %s' % (v['harness'], v['case'], v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        nreplay += 1
    for x in incomplete:
        print('INCOMPLETE', x)
    for u in unconfirmed[:10]:
        print('INCONCLUSIVE (did not reproduce on the real code)', u['harness'], u['case'], u['message'],
              json.dumps(u['inputs'])[:400], u['replay'].get('status'))
    for u in mismatches[:10]:
        print('MISMATCH', json.dumps(u)[:700])
    for x in vac:
        print('VACUOUS', x)
    for x in errors[:5]:
        print('ENGINE', x)
    funcs = sorted({f for r in results for f in r['funcs']})
    bounds = sorted({'%s: %s' % (reg[r['hi']].name, reg[r['hi']].bounds) for r in results})
    samples = [{'harness': r['h'], 'case': r['case'], 'model': _trunc(r['samples'][0][0])} for r in results if r['samples']][:12]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0), 'transitions': tot.get('branches', 0),
            'traces_validated_against_impl': validated, 'samples': samples,
            'obligations_checked': tot.get('checks', 0), 'obligations_discharged': tot.get('discharged', 0),
            'queries': tot.get('queries', 0), 'solver_s': round(tot.get('solver_s', 0), 2),
            'solver': 'z3 (bit-vectors)', 'functions_encoded': funcs, 'bounds': bounds,
            'tasks': len(results), 'paths_infeasible_or_assumed_away': tot.get('aborted', 0),
            'paths_cut': tot.get('stopped', 0), 'solver_unknown': tot.get('unknown', 0),
            'complete_within_bounds': not incomplete and not unconfirmed and not mismatches and not errors,
            'incomplete': incomplete, 'unconfirmed_counterexamples': len(unconfirmed),
            'model_mismatches': len(mismatches),
            'witnesses': {r['h'] + '[' + r['case'][:40] + ']': r['reached'] for r in results},
            'explanation': 'states = symbolic paths explored over the rewritten /repo sources; transitions = '
                           'branch decisions taken to the solver or its path cache; traces_validated = path models '
                           'replayed on the unmodified code with the same outcome',
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d tasks, %d paths, %d/%d obligations discharged, %d queries, %.1f s solver, %d path models replayed, %.1f s'
          % (prop, tier, len(results), tot.get('paths', 0), tot.get('discharged', 0), tot.get('checks', 0),
             tot.get('queries', 0), tot.get('solver_s', 0), validated, time.time() - t0))
    if viol:
        return 1
    if errors and not any(r['okpaths'] for r in results):
        return 2
    if vac and len(vac) == len({r['h'] for r in results}):
        return 2
    return 0


ASSUMPTIONS = [
    'SHA-2 digests of different inputs differ; authenticated encryption, RSA signatures and OAEP are ideal '
    '(only what was produced with the same key and inputs is accepted); HKDF is an ideal PRF',
    'os.urandom returns arbitrary bytes; the clock is fixed unless a harness says otherwise',
    'the file system is an in-memory one without faults',
    'CPython built-ins (int, bytes, array, struct, list, dict) are modelled by /verif/sx; path models are replayed '
    'on the unmodified code to validate the model',
]


def _trunc(d):
    return {k: (v if not isinstance(v, str) or len(v) < 120 else v[:100] + '...') for k, v in d.items()}
