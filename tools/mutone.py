#!/usr/bin/env python3
"""mutone.py CHECKS CASES: run the generated cases of these checks in one process; prints what fails first (for tools/mutate.py)"""
import os, sys
if os.path.exists('/opt/venv/bin/python') and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:])
import importlib, json, random
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
try:
    from vmon import core
    checks = [importlib.import_module('vmon.checks.' + c.lower()).CHECK() for c in sys.argv[1].split(',')]
except Exception as e:
    print(json.dumps(['import', repr(e)[:300]]))
    sys.exit(1)
n = int(sys.argv[2])
lo = 0
for hi in (10, 40, n):
    for c in checks:
        c.cpu_seconds = 10
        scale = 0.25 if c.id in ('C13', 'C18', 'C10', 'C17') else 1
        for i in range(int(lo * scale), int(hi * scale)):
            case = json.loads(json.dumps(c.gen(random.Random('7/%s/%d' % (c.id, i)), i, 'quick')))
            try:
                bad = c.run_one(case, core.Obs())
            except core.HarnessError as e:
                bad = ('harness', str(e)[-300:])
            if bad:
                print(json.dumps([c.id, bad[0], bad[1][:200], i]))
                sys.exit(1)
    lo = hi
