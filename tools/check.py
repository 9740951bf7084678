"""check.py ID: decides one property; exit 0 held, 1 violated (with a VIOLATION line)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf


def main():
    prop = sys.argv[1]
    import core_checks
    mods = [core_checks]
    for m in ("net_checks", "local_checks", "sched_checks"):
        try:
            mods.append(__import__(m))
        except ImportError as e:
            if m not in str(e):
                raise
    c = vf.Check(prop)
    fs = [getattr(m, prop) for m in mods if hasattr(m, prop)]
    if not fs:
        print("no check for", prop)
        return 2
    try:
        for f in fs:
            f(c)
    except vf.CheckError as e:
        if not c.violations:
            print("ERROR:", e)
            c.finish()
            return 2
        print("error after a violation:", str(e)[:300])
    return c.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
