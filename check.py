#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree. See DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import run, tlc
def main():
    prop = sys.argv[1]
    sys.setrecursionlimit(20000)
    if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
    if prop[0] == 'C': import cin as mod
    else: import hot as mod
    ck = run.Check(prop)
    try: return getattr(mod, prop)(ck)
    except tlc.ToolError as e:
        print(f'TOOL ERROR: {e}'); return 2
    except Exception:
        traceback.print_exc(); return 2
sys.exit(main())
