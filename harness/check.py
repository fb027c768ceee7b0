#!/opt/venv/bin/python
"""Entry point of every check: check.py <property id>."""
from __future__ import annotations

import importlib
import os
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

import acv_core as core  # noqa: E402


def main() -> int:
    prop = sys.argv[1]
    os.environ.update(core.ENV)
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = sys.argv[2]
    chk = core.Check(prop)
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        import acv_run
        try:
            acv_run.load_acetone()
        except Exception as e:  # noqa: BLE001
            chk.violation(f"the package cannot be imported: {e}", traceback.format_exc()[-2000:])
            return chk.finish()
        mod.run(chk)
        return chk.finish()
    except core.MachineryError as e:
        print(f"MACHINERY ERROR {prop}: {e}", file=sys.stderr)
        return 3
    finally:
        core.cleanup()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
