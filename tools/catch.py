"""Runs the quick check of each planted bug's property against a scratch copy with the bug: python3 tools/catch.py [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
for i in ids:
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    t = tempfile.mkdtemp(prefix='catch-', dir='/tmp')
    try:
        tree = os.path.join(t, 'repo')
        shutil.copytree('/repo', tree, symlinks=True)
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=tree, capture_output=True, text=True)
        if r.returncode:
            print(i, 'patch does not apply', r.stderr[:200], flush=True)
            continue
        t0 = time.time()
        r = subprocess.run([sys.executable, 'check.py', prop], cwd=V, env=dict(os.environ, SX_REPO=tree), capture_output=True, text=True)
        hit = r.returncode == 1 and 'VIOLATION property=%s ' % prop in r.stdout
        print('%-24s %s %s %.0f s  %s' % (i, prop, 'caught' if hit else 'MISSED exit %d' % r.returncode, time.time() - t0, '; '.join(l[:160] for l in r.stdout.splitlines() if 'VIOL' in l or 'viol' in l)[:300]), flush=True)
    finally:
        shutil.rmtree(t)
