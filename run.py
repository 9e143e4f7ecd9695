"""Command line of the checks: python3 run.py C01 [--tier quick|thorough]."""

import importlib
import os
import pathlib
import sys
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True


def main():
    from hsa import report
    from hsa.project import AnalysisBroken

    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = importlib.import_module(f"hsa.checks.{prop.lower()}")
    try:
        return report.run(prop, module, tier, seed)
    except AnalysisBroken as e:
        print(f"{prop}: analysis broken: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    status = main()
    sys.stdout.flush()
    sys.exit(status)
