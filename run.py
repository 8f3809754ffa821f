#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] -- decide one property of the code in
/repo (or $VERIF_REPO) from its source; exit 0 held, 1 violated."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa.report import Report            # noqa: E402
from sa.registry import REGISTRY        # noqa: E402


def main():
    rc = 0
    for prop in sys.argv[1].split(','):
        rc = max(rc, one(prop))
    return rc


def one(prop):
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    modname, fname, rule = REGISTRY[prop]
    mod = importlib.import_module('sa.checks.' + modname)
    seed = os.environ.get('VERIF_SEED', '1')
    rep = Report(prop, rule, tier, int(seed) if seed.isdigit() else 1)
    try:
        getattr(mod, fname)(rep, tier)
    except Exception:
        traceback.print_exc()
        if rep.bad:
            return rep.finish()
        print('property=%s: the analysis could not be completed' % prop)
        return 3
    return rep.finish()


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
