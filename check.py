#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/engine', HERE + '/props', HERE]
sys.setrecursionlimit(20000)


def main():
    import front
    import report
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    m = importlib.import_module(pid.lower())
    R = report.Report(pid, tier)
    try:
        P = front.Program(front.all_units())
        R.units = len(front.all_units())
        m.check(R, P)
        for u, why in P.unparsed:
            R.undecided(u, 'the unit cannot be parsed: ' + why.strip().split('\n')[0][:200])
    except front.AnchorLost as e:
        R.lose(str(e))
    except front.FrontError:
        raise
    except Exception as e:  # a shape of code the analysis has no words for
        traceback.print_exc()
        if os.environ.get('VERIF_STRICT'):
            raise
        R.undecided(pid, 'the analysis stopped: %r' % e)
    rc = R.finish(getattr(m, 'ASSUMPTIONS', ()))
    sys.exit(rc)


main()
