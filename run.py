#!/opt/venv/bin/python
"""run.py <property id> [--replay FILE]: decides one property against /repo's working tree."""

import os
import shutil
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent


def main() -> int:
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.stdout.reconfigure(errors="backslashreplace")
    scratch = Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
    try:
        # byte code, grammar cache and files of the cases stay in the scratch directory
        sys.dont_write_bytecode = True
        sys.pycache_prefix = str(scratch / "pyc")
        tmp = scratch / "tmp"
        tmp.mkdir()
        os.environ["TMPDIR"] = str(tmp)
        tempfile.tempdir = str(tmp)
        os.environ["VERIF_SCRATCH"] = str(scratch)
        sys.path.insert(0, str(HERE))
        import importlib
        import logging

        logging.disable(logging.CRITICAL)
        from vlib.engine import replay_case, run_check

        check = importlib.import_module(f"checks.{prop.lower()}").CHECK
        if "--replay" in sys.argv:
            return replay_case(check, sys.argv[sys.argv.index("--replay") + 1])
        return run_check(check, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
