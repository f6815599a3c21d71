#!/opt/venv/bin/python
"""Entry point of every check: run.py <property> [--tier quick|thorough], or run.py --self-test"""

from __future__ import annotations

import argparse
import os
import subprocess
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True


def self_test() -> int:
    """Parses every specification."""
    spec = Path(__file__).resolve().parent / "spec"
    for f in sorted(spec.glob("*.tla")):
        r = subprocess.run(
            ["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", f.name],
            cwd=spec, capture_output=True, text=True, check=False)
        if r.returncode != 0:
            print(r.stdout, r.stderr)
            return 1
        print("parsed", f.name)
    return 0


def in_code_under_test(e: BaseException) -> bool:
    if isinstance(e, (ImportError, SyntaxError)) and ("conda_recipe_manager" in str(e) or "conda_recipe_manager" in str(getattr(e, "filename", ""))):
        return True
    x: BaseException | None = e
    while x is not None:
        if any("/repo/conda_recipe_manager/" in (fr.filename or "") for fr in traceback.extract_tb(x.__traceback__)):
            return True
        # Exceptions of other processes come as text.
        if type(x).__name__ in ("RemoteTraceback", "_RemoteTraceback") and "/repo/conda_recipe_manager/" in str(x):
            return True
        x = x.__cause__ or x.__context__
    return False


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--self-test", action="store_true")
    a = ap.parse_args()
    if a.self_test:
        return self_test()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from harness import common

    common.setup_import_path()
    from harness import registry

    ctx = common.Ctx(a.prop, a.tier, seed)
    os.environ["VERIF_TIER_NOW"] = a.tier
    if a.tier == "quick":
        common.budget(800)
    try:
        registry.run(ctx)
    except (Exception, common.Hang) as e:  # pylint: disable=broad-exception-caught
        traceback.print_exc()
        if in_code_under_test(e):
            ctx.fail(f"the code raised {type(e).__name__}: {e}", {"traceback": traceback.format_exc()})
            return ctx.finish()
        # What the code returned is not what its callers rely on, so that it can not be processed any further.
        if isinstance(e, (common.NotAnAnswer, AttributeError, TypeError, KeyError, IndexError, ValueError)):
            ctx.fail(f"the answer of the code can not be processed, {type(e).__name__}: {str(e)[-1500:]}", {"traceback": traceback.format_exc()})
            return ctx.finish()
        import shutil

        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 3
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
