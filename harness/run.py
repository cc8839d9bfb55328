"""Entry point: run.py <property id> [quick|thorough]"""
from __future__ import annotations

import importlib
import os
import resource
import sys
import traceback

os.environ["TZ"] = "UTC"
import time  # noqa: E402

time.tzset()
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import common  # noqa: E402

sys.path.insert(0, common.REPO_SRC)


# runaway allocation in the code under test ends in a MemoryError (TLC lifts this)
resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def main() -> int:
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = common.Check(prop, tier, seed, "model_checking")
    try:
        mod = importlib.import_module(f"checks.{prop}")
        mod.run(c)
    except common.Hang:
        c.violation("hang", "a call into the library did not return")
    except Exception as e:
        tb = traceback.format_exc()
        if common.from_library(e):
            c.violation("unexpected exception from the library", tb[-3000:])
        else:
            # whatever was already shown to be wrong still counts
            sys.stderr.write(tb)
            if not c.violations:
                return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
