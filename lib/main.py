import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Ctx, MachineryError


def main():
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    ctx = Ctx(prop)
    try:
        mod.run(ctx)
        rc = ctx.finish()
    except MachineryError as e:
        print(f'MACHINERY ERROR in {prop}: {e}', flush=True)
        rc = 2
        if ctx.viol or ctx.odd:
            rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
        if ctx.viol or ctx.odd:
            rc = ctx.finish()
    finally:
        ctx.cleanup()
    sys.exit(rc)


main()
