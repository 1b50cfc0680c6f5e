#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

usage: check.py Cxx [quick|thorough]      (VERIF_SEED, VERIF_TIER are honoured)
exit 0: nothing unlisted observed   1: VIOLATION lines printed   2: no answer
"""
import os, signal, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import drive, props


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in props.PROPS:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = drive.Ctx(pid, tier, seed)

    def stop(*_):
        for g in list(ctx.groups):
            try:
                os.killpg(g, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os._exit(2)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        props.PROPS[pid](ctx)
    except drive.NoAnswer as e:
        if ctx.violations:
            # part of the monitors gave no answer, others saw what they saw
            print(f"incomplete: {e}")
            return ctx.finish()
        print(f"NO-ANSWER property={pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"NO-ANSWER property={pid}: check failed")
        return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
