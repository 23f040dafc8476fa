#!/usr/bin/env python3
"""check.py <property id>: decides one property (VERIF_TIER quick|thorough, VERIF_SEED)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core          # noqa: E402
from vf import pump  # noqa: E402
from vf.registry import CHECKS, PUMP  # noqa: E402


def main():
    pid = sys.argv[1]
    module, func = CHECKS[pid]
    mod = importlib.import_module("vf." + module)
    check = core.Check(pid, "model_checking")
    try:
        getattr(mod, func)(check)
        for family in PUMP.get(pid, []):
            pump.pump(check, family, {pid})
    except core.Rejected as e:
        check.violation("a use of the public interface no longer compiles", {"what": str(e)})
        return check.finish()
    except core.CheckError as e:
        if check.violations:   # the code under test was caught before the check broke down
            print(f"note: {e}", file=sys.stderr)
            return check.finish()
        print(f"CHECK ERROR: {e}", file=sys.stderr)
        return 2
    except Exception:          # noqa: BLE001
        traceback.print_exc()
        return check.finish() if check.violations else 2
    return check.finish()


if __name__ == "__main__":
    sys.exit(main())
