"""python -m vmon.main <ID>: one check."""

import importlib
import os
import sys
import traceback


def main(argv):
    pid = argv[1]
    if len(argv) > 2 and argv[2]:
        os.environ["VERIF_TIER"] = argv[2]
    from . import env  # noqa: F401

    mod = importlib.import_module(f"vmon.checks.{pid.lower()}")
    from .report import Report

    R = Report(pid, mod.RULE)
    try:
        mod.run(R)
    except BaseException as e:
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if env.SRC in f.filename]
        if where and isinstance(e, Exception):  # raised by the observed code on valid input
            R.violation(f"unexpected:{type(e).__name__}", f"{type(e).__name__}: {e} (in {', '.join(where[-3:])})")
        elif isinstance(e, (AttributeError, LookupError, TypeError, ValueError, ArithmeticError)):
            # a monitor could not read what it observes: a public attribute, key,
            # shape or kind of value that the unchanged library offers is gone
            at = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-1:]
            R.violation(f"unreadable:{type(e).__name__}", f"{type(e).__name__}: {e} (observing at {', '.join(at)})")
        if R.viol:
            return R.finish()
        return 2  # a fault of the harness
    return R.finish()


if __name__ == "__main__":
    rc = main(sys.argv)
    sys.stdout.flush()
    sys.stderr.flush()
    from . import env

    env._cleanup()
    os._exit(rc)
