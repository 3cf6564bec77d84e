"""entry point:  check.py P01   (tier and seed from VERIF_TIER / VERIF_SEED)"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    ctx = vf.Ctx(prop, tier)
    try:
        vf.load()
    except vf.Broken:
        raise
    except Exception as e:
        ctx.violation("the library cannot be imported: " + vf.short(e))
        rc = ctx.finish()
        ctx.close()
        return rc
    try:
        mod = importlib.import_module("props." + prop.lower())
        mod.run(ctx)
        rc = ctx.finish()
    except vf.Broken as e:
        if ctx.violations:
            rc = ctx.finish()
        else:
            print("MACHINERY FAILURE: %s" % e)
            rc = 3
    except Exception:
        # e.g. no usable record because the library failed everywhere: already reported
        if ctx.violations:
            rc = ctx.finish()
        else:
            traceback.print_exc()
            rc = 3
    finally:
        ctx.close()
    return rc


if __name__ == "__main__":
    sys.exit(main())
