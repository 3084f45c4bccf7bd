"""check.py <property> <tier>: run one check.  Exit 0: it held; 1: a violation; 2: the check failed."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import behave      # noqa: E402
import common      # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import checks
    chk = common.Check(prop, tier)
    try:
        kw = getattr(checks, prop)(chk) or {}
        code = chk.finish(**kw)
    except Exception:
        traceback.print_exc()
        if chk.violations:
            code = chk.finish()
        else:
            code = 2
    sys.stdout.flush()
    behave.close()
    sys.exit(code)


main()
