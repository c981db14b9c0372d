"""Makes planted bugs from a spec file and confirms them in a scratch copy: python3 tools/seed.py SPEC.py [ID ...] [--check]

SPEC.py calls bug(id, prop, [(file, old, new)...], demo, needs, breaks); demo is Python source run with cwd = the tree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append((id, prop, edits, demo, needs, breaks))


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1')
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **kw)


DEMO_SH = '''#!/bin/bash
# run in the tree under test; exits 0 when the property holds
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def one(b, check):
    id, prop, edits, demo, needs, breaks = b
    d = os.path.join(VERIF, 'seeded', id)
    t = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        tree = os.path.join(t, 'repo')
        shutil.copytree('/repo', tree, symlinks=True)
        os.makedirs(os.path.join(t, 'demo'))
        open(os.path.join(t, 'demo', 'demo.py'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(t, 'demo', 'demo.sh'), 'w').write(DEMO_SH)
        dm = os.path.join(t, 'demo', 'demo.sh')
        r = sh(['bash', dm], tree, timeout=280)
        if r.returncode != 0:
            return id, 'demo fails on the clean tree: ' + (r.stderr or r.stdout)[-500:]
        for f, old, new in edits:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                return id, 'edit of %s matches %d times' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], tree).stdout
        r = sh(['bash', dm], tree, timeout=280)
        if r.returncode == 0:
            return id, 'demo does not fail with the change'
        why = (r.stderr or r.stdout).strip().splitlines()[-1:]
        x = os.path.join(t, 'junit.xml')
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-x', '-o', 'junit_family=xunit2',
                '--junitxml=' + x, 'tests'], tree, timeout=600)
        tail = r.stdout.strip().splitlines()[-1:]
        if r.returncode != 0:
            return id, 'tests fail: %s' % [l for l in r.stdout.splitlines() if l.startswith('FAILED')][:3]
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        res = 'ok (%s; %s)' % (why, tail)
        if check:
            env = dict(os.environ, SX_REPO=tree)
            r = subprocess.run([sys.executable, 'check.py', prop], cwd=VERIF, env=env, capture_output=True, text=True, timeout=1800)
            res += '\n    check exit %d: %s' % (r.returncode, '; '.join([l[:220] for l in r.stdout.splitlines() if not l.startswith('INC')][:2]))
        return id, res
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    exec(open(a[0]).read())
    for b in BUGS:
        if len(a) > 1 and b[0] not in a[1:]:
            continue
        print('%s: %s' % one(b, '--check' in sys.argv), flush=True)
