#!/usr/bin/env python3
"""run.py setup | run.py check <property> | run.py replay <file> | run.py lint"""
import os, sys, json, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common
from common import *

def main():
    cmd = sys.argv[1]
    if cmd == 'setup':
        try:
            build_harness()
        except Unbuildable as e:
            print('harness does not build:', str(e)[-1000:])
        return 0
    if cmd == 'check':
        pid = sys.argv[2]
        import checks
        chk = Check(pid)
        try:
            try:
                binary, secs = build_harness()
            except Unbuildable as e:
                chk.violation('programs that use the documented interface no longer compile: ' + str(e)[-1500:], {'build': str(e)[-4000:]})
                return chk.finish()
            chk.cov['seconds_build'] = round(secs, 1)
            checks.CHECKS[pid](chk, binary)
            return chk.finish()
        except ToolError as e:
            traceback.print_exc()
            # a violation already established stands
            if chk.violations: return chk.finish()
            print('%s: no answer: %s' % (pid, e))
            return 2
    if cmd == 'replay':
        with open(sys.argv[2]) as f: x = json.load(f)
        print(x['property'], x['what'])
        sc = x['replay'].get('scenario')
        if sc:
            binary, _ = build_harness()
            sc['id'] = 0
            for op, o in zip(sc['ops'], run_scenarios(binary, [sc])[0].get('out', [])): print(json.dumps(op)[:600], '\n   ->', json.dumps(o)[:1500])
        else: print(json.dumps(x['replay'], indent=1))
        return 0
    print(__doc__)
    return 2

sys.exit(main())
