"""Replays counterexamples and sampled paths on the unmodified code.

usage: python -m symdev.replay FILE
FILE contains {"property", "runs": [{"case", "inputs", ...}]} or a single
counterexample.  No instrumentation and no solver is involved.  For a single
counterexample the exit code is 1 if it fails on the code in /repo.
"""
import importlib
import json
import os
import signal
import sys
import traceback

from .harness import AssumptionFailed, CheckFailed, Conc, decode, encode

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout


def blame(exc):
    """ 'repo' if the exception comes out of the code under test """
    tb = exc.__traceback__
    last = None
    frames = []
    while tb is not None:
        frames.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    if not frames:
        return "harness"
    repo = [i for i, f in enumerate(frames) if f.startswith("/repo/")]
    if not repo:
        return "harness"
    last = frames[repo[-1] + 1:]
    # innermost frames in stubs of the harness
    if any(f.startswith(VERIF) for f in last):
        return "harness"
    if isinstance(exc, AttributeError):
        mod = getattr(type(getattr(exc, "obj", None)), "__module__", "")
        if mod.startswith(("checks.", "symdev.")) or mod == "types":
            return "harness"
    if isinstance(exc, (ImportError, NotImplementedError)):
        return "harness"
    return "repo"


def run_one(mod, run):
    cases = {c.name: c for c in mod.cases("thorough")}
    case = cases.get(run["case"])
    if case is None:
        return {"outcome": "no such case"}
    S = Conc({k: decode(v) for k, v in run["inputs"].items()})
    outcome = "ok"
    detail = ""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(run.get("timeout", 60)))
    try:
        try:
            case.fn(S, **case.params)
        finally:
            signal.alarm(0)
            S.finish()
    except CheckFailed as e:
        outcome = "failed"
        detail = str(e)
    except AssumptionFailed:
        outcome = "assumption"
    except Timeout:
        outcome = "timeout"
    except Exception as e:
        outcome = "exception-" + blame(e)
        detail = "".join(traceback.format_exception(e))[-3000:]
    return {
        "outcome": outcome, "detail": detail, "failed": S.failed,
        "diverged": S.diverged, "passed": S.passed,
        "observations": [[n, encode(v)] for n, v in S.observations]}


def main():
    path = sys.argv[1]
    with open(path) as f:
        data = json.load(f)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + data["property"])
    runs = data.get("runs")
    if runs is not None:
        out = [run_one(mod, r) for r in runs]
        with open(sys.argv[2], "w") as f:
            json.dump(out, f)
        return 0
    r = run_one(mod, data)
    print(json.dumps({k: v for k, v in r.items() if k != "observations"}, indent=1))
    if r["outcome"] in ("failed", "exception-repo", "timeout"):
        print("reproduced: property=%s case=%s label=%s" % (
            data["property"], data["case"], data.get("label")))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
