"""Entry point of every check: check.py <property> [quick|thorough]"""

import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

# property -> module with a function run_<property>(chk)
WHERE = {
    "p_checks_wire": "C01 C02".split(),
    "p_checks_objects": "C20".split(),
    "p_checks_history": "C21".split(),
    "p_checks_shell": "C23".split(),
    "p_checks_numbers": "C24".split(),
    "p_checks_messages": "C09 C13 C19".split(),
    "p_checks_clixml": "C14 C15 C16 C17 C18 C22".split(),
    "p_checks_session": "C03 C04 C05 C06 C07 C08 C10 C11 C12".split(),
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import common

    chk = common.Check(pid, tier, seed)
    try:
        mod = next(m for m, ids in WHERE.items() if pid in ids)
        getattr(importlib.import_module(mod), "run_" + pid)(chk)
    except common.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        return 2
    except Exception:
        # the library behaved in a way the harness could not even read
        tb = traceback.format_exc()
        chk.violation("unexpected failure while driving the library: " + tb[-1500:])
    return chk.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
