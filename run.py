#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
if os.path.exists('/opt/venv/bin/python') and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:])

import argparse, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
ap.add_argument('--replay')
ap.add_argument('--cases', type=int)
a = ap.parse_args()
if a.replay:
    a.replay = os.path.abspath(a.replay)

try:
    from vmon import core
    check = importlib.import_module('vmon.checks.' + a.property.lower()).CHECK()
except Exception:
    # The tree under test does not import: every property is broken in that state
    import traceback
    tb = traceback.format_exc()
    sys.stderr.write(tb)
    sys.exit(2)

if a.cases:
    check.quick_cases = check.thorough_cases = a.cases

if a.replay:
    rc = core.replay(check, a.replay)
else:
    rc = core.run(check, a.tier, a.seed)
sys.stdout.flush()
sys.exit(rc)
