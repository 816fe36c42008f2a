"""
Entry point of the checks: check.py PROPERTY TIER
"""

import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

# which module decides which property
MODULES = {
    "M01": "chk_mesher", "M02": "chk_mesher", "M03": "chk_mesher",
    "M04": "chk_mesher", "M05": "chk_mesher", "M06": "chk_mesher",
    "M07": "chk_import", "M08": "chk_import", "M09": "chk_import",
    "S01": "chk_solver", "S04": "chk_solver", "S05": "chk_solver",
    "S06": "chk_sym", "S07": "chk_sym", "S08": "chk_sym", "S12": "chk_sym",
    "S02": "chk_sweep", "S03": "chk_converge",
    "S09": "chk_runs",
    "W01": "chk_files",
    "W02": "chk_formats",
    "W03": "chk_plots", "W04": "chk_plots",
    "W05": "chk_tools", "W06": "chk_tools", "W07": "chk_tools", "W08": "chk_boards",
    "S10": "chk_solver", "S11": "chk_solver", "S13": "chk_solver",
}


def main():
    (pid, tier) = sys.argv[1:3]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import common
    check = common.Check(pid, tier, seed)
    try:
        importlib.import_module(MODULES[pid]).run(check)
        code = check.finish()
    except Exception:
        traceback.print_exc()
        print("check %s: internal error (no verdict)" % pid)
        code = 2
    finally:
        check.scratch.close()
    return code


if __name__ == "__main__":
    sys.exit(main())
