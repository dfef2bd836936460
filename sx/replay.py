"""Concrete replay on the real, uninstrumented pyactr.

  replay.py FILE      replays one saved counterexample; exit 1 if it fails, 0 if not
  replay.py --server  reads one JSON case per line, answers one JSON result per line
"""
import io
import json
import os
import signal
import sys
import contextlib
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from sx import instr, ctx, runner  # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_case(case, snap, timeout=60):
    import importlib
    mod = importlib.import_module("harness." + case["module"])
    fn = getattr(mod, case["harness"])
    snap.restore()
    S = ctx.ConS(case["inputs"], case.get("params"))
    out = io.StringIO()
    res = {"failed": [], "error": None, "aborted": False}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(S, **case.get("params", {}))
    except ctx.PathAbortC:
        res["aborted"] = True
    except Timeout:
        res["error"] = "Timeout"
        res["trace"] = "no end within %d s" % timeout
    except Exception as ex:
        res["error"] = type(ex).__name__
        res["trace"] = traceback.format_exc()[-1500:]
        res["where"] = origin(ex)
    finally:
        signal.alarm(0)
    runner.ALIVE.clear()
    res["failed"] = [[l, d] for l, d in S.failed]
    res["covers"] = sorted(S.covers)
    res["nchecks"] = S.nchecks
    return res


def origin(ex):
    """Whether an exception comes from /repo's code or from the harness."""
    tb = ex.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(os.path.realpath(instr.REPO) + os.sep) or fn.startswith(instr.REPO + os.sep):
            last = "pyactr"
        elif fn.startswith(HERE):
            if os.sep + "sx" + os.sep not in fn or last is None:
                last = "harness"
        tb = tb.tb_next
    return last or "harness"


def main():
    instr.load_pyactr()
    snap = instr.Snapshot()
    if sys.argv[1] == "--server":
        real = os.fdopen(os.dup(1), "w")
        for line in sys.stdin:
            case = json.loads(line)
            res = run_case(case, snap, case.get("timeout", 60))
            real.write(json.dumps(res) + "\n")
            real.flush()
        return 0
    with open(sys.argv[1]) as f:
        case = json.load(f)
    res = run_case(case, snap)
    print(f"property {case['property']}, harness {case['module']}.{case['harness']} {case.get('params')}")
    print("inputs:", json.dumps(case["inputs"], indent=1, sort_keys=True))
    for l, d in res["failed"]:
        print(f"FAILS: {l} {d}")
    if res["error"]:
        print("RAISES:", res["error"])
        print(res["trace"])
    if not res["failed"] and not res["error"]:
        print("no failure")
        return 0
    return 1


if __name__ == "__main__":
    sys.exit(main())
