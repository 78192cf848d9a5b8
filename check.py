import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse
from rvc import check, build
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from rvc import props
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
    import catalogue
    ctx = check.Ctx(a.id, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    e = [p for p in catalogue.P if p["id"] == a.id]
    if e: ctx.level = e[0].get("level", "proof"); ctx.extra["explanation"] = e[0]["note"]
    try: props.PROPS[a.id](ctx)
    except build.BuildError as e:
        if not ctx.viol: print("no answer: the harness does not build against this tree: %s" % str(e)[-600:]); return 2
    except Exception as e:                       # an engine failure is not an acceptance
        import traceback; traceback.print_exc()
        if not ctx.viol: ctx.violation("the checker stopped: %s: %s" % (type(e).__name__, str(e)[:300]), {"traceback": traceback.format_exc()[-3000:]}, False)
    return check.finish(ctx)
if __name__ == "__main__": sys.exit(main())
