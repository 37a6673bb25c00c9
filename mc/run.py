"""usage: run.py ID [--tier quick|thorough] | run.py --replay FILE"""

import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import core, engine  # noqa: E402


def main():
    args = sys.argv[1:]
    if args[0] == '--replay':
        rec = json.load(open(args[1]))
        mod = importlib.import_module(f'mc.checks.{rec["property"].lower()}')
        out = engine.Out()
        mod.replay(rec['case'], out)
        for v in out.viol:
            print(v['what'])
            print(json.dumps(v['case'], indent=1))
        print('reproduced' if out.viol else 'not reproduced')
        return 1 if out.viol else 0
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    mod = importlib.import_module(f'mc.checks.{pid.lower()}')
    return engine.run(mod, pid, tier, seed)


if __name__ == '__main__':
    assert core  # virtual clock is installed before fides is imported
    sys.exit(main())
