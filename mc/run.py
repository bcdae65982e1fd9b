"""Run one check:  run.py C01 [--tier quick|thorough]   or   run.py replay FILE"""
import os
import sys
import tempfile

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "mc-no-pycache-%d" % os.getpid())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))

# a local time zone that is not UTC and has a summer time: nothing may depend on it
os.environ["TZ"] = "AAA-5:45BBB,M3.2.0,M11.1.0"

import time  # noqa: E402

time.tzset()

import importlib  # noqa: E402
import json  # noqa: E402
import logging  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402


def main(argv):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i:i + 2]
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import explore

    if argv[0] == "replay":
        r = json.load(open(argv[1], encoding="utf-8"))
        mod = importlib.import_module("checks." + r["property"].lower())
        explore.MOD, explore.TIER = mod, r["tier"]
        explore._init()
        msg = explore.run_case(mod, r["case"], explore.Ctx())
        if msg is None and r.get("group") is not None:
            print("the case alone passes; replaying its part of the space")
            res = explore._task((r["group"], r["shard"], r["nshards"]))
            msg = res["violation"] and res["violation"][1]
        print(msg or "holds")
        return 1 if msg else 0
    prop = argv[0]
    try:
        mod = importlib.import_module("checks." + prop.lower())
    except Exception:  # the library cannot even be imported or lacks a public type
        msg = traceback.format_exc()
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, explore.write_replay(prop, {"import": True}, msg)))
        return 1
    return explore.explore(mod, prop, tier, seed)


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
