#!/usr/bin/env python3
"""python3 run.py <property id> [quick|thorough]  -- decide one property on /repo's working tree"""
import sys, os, importlib, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import core
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module(pid.lower())
    chk = core.Check(pid, tier, seed, getattr(mod, 'LEVEL', 'exploration'))
    try:
        mod.run(chk)
    except core.HarnessError as e:
        print('HARNESS-ERROR property=%s %s' % (pid, e)); 
        if chk.viol:      # what was observed before the harness failed still counts
            return chk.finish()
        return 2
    except Exception:
        traceback.print_exc(); return 2
    return chk.finish()
sys.exit(main())
