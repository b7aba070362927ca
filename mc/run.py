"""run.py <property id> [--replay FILE]   decides one property; tier from VERIF_TIER / --tier."""

import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from mc import core

    if os.environ.get("PYTHONHASHSEED") != "0":  # hash order must not be a source of nondeterminism
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, *sys.argv])
    module = importlib.import_module(f"mc.checks.{pid.lower()}")
    if "--replay" in sys.argv:
        return core.replay(module, sys.argv[sys.argv.index("--replay") + 1])
    return core.explore(module, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
