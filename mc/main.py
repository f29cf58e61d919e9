from __future__ import annotations

import importlib
import logging
import os
import sys
import warnings

from mc import core


def main() -> int:
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    try:
        mod = importlib.import_module(f"checks.{pid.lower()}")
    except Exception as e:  # a public name the check needs is gone or the module does not import
        import traceback

        tail = "".join(traceback.format_exception(e))[-2500:]
        if core._from_impl(e.__traceback__) or (isinstance(e, ImportError) and "modssc" in str(e)):
            return core.report_violation(pid, {"case": "import", "msg": tail, "key": "import"})
        raise
    if "--replay" in sys.argv:
        return core.replay(mod, sys.argv[sys.argv.index("--replay") + 1], tier, seed)
    return core.drive(mod, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
