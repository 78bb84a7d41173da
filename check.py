#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property from /repo's current source."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sv.prog import AnalysisBroken
from sv import report, driver


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = report.Ctx(pid, tier)
    try:
        prog = driver.program()
        mod.run(ctx, prog)
    except AnalysisBroken as e:
        # what was already found stands; otherwise the run gives no answer
        kn = set((r, c) for q, r, c, _ in report.known() if q == pid)
        if any((r, c.replace(' ', '_')) not in kn for r, c, _, _ in ctx.bad):
            ctx.note('broken', str(e))
            sys.exit(report.finish(ctx, prog))
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        sys.exit(2)
    sys.exit(report.finish(ctx, prog))


if __name__ == '__main__':
    main()
