#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.executable) != os.path.realpath('/opt/venv/bin/python') or not sys.prefix.startswith('/opt/venv'):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

if __name__ == '__main__':
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    prop = None
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--only':
            only = args.pop(0)
        elif a == '--replay':
            import json
            from sx import run
            v = json.load(open(args.pop(0)))
            r = run.Replayer(v['modules'])
            print(r.run((v['harness'], v['hi']), v['ci'], v['inputs']))
            r.close()
            sys.exit(0)
        elif a == '-v':
            verbose = True
        else:
            prop = a
    from harness_map import MODULES
    from sx import run
    sys.exit(run.main(prop, tier, MODULES[prop], only, verbose))
