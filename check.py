#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property; see DESIGN.md"""
import sys, os, argparse, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
import util

ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
a = ap.parse_args()
rep = util.Report(a.id, a.tier)
try:
    importlib.import_module(a.id).run(rep, a.tier)
except util.CheckError as e:
    # violations seen before the machinery itself failed still count
    print('check error: %s' % e, file=sys.stderr)
    sys.exit(rep.finish() if rep.viol else 2)
except Exception:
    traceback.print_exc()
    sys.exit(rep.finish() if rep.viol else 2)
sys.exit(rep.finish())
