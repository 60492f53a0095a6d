"""check.py <property> [--replay FILE]: runs one property's check."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa: E402

sys.path.insert(0, core.REPO)
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = importlib.import_module(prop.lower())
    chk = mod.make(tier, seed)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return chk.replay_file(sys.argv[3])
    return chk.execute()


if __name__ == "__main__":
    sys.exit(main())
