"""Runs the check of one property.

usage: python -m symdev.run ID [quick|thorough]
"""
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = {"quick": 420, "thorough": 780}
PYTHON = sys.executable


def _run_case(args):
    try:
        return _explore_case(args)
    except BaseException:
        return {"case": args[0], "violations": [], "samples": [], "exceptions": [],
                "error": traceback.format_exc()[-3000:]}


def _explore_case(args):
    name, tier, deadline = args
    from . import core, instrument, shims, sqlshim, values as V
    from .harness import Sym, encode
    from .replay import blame
    mod = sys.modules["checks." + _PROP]
    case = {c.name: c for c in mod.cases(tier)}[name]
    t0 = time.monotonic()
    limit = min(case.time_limit, deadline - t0)
    res = {"case": name, "violations": [], "samples": [], "exceptions": [], "error": None}
    if limit < 2:
        res["error"] = "skipped, no time left"
        return res
    ex = core.Explorer(max_paths=case.max_paths, time_limit=limit,
                       max_branches=case.max_branches)
    paths_ok = [0]
    seen_exc = set()

    def alarm(signum, frame):
        raise core.Exhausted("path hangs")

    def fn(ex):
        shims.reset()
        signal.setitimer(signal.ITIMER_REAL, min(60, limit))
        try:
            case.fn(Sym(ex), **case.params)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def on_end(ex, outcome, err):
        if outcome == "exception":
            from .harness import AssumptionFailed  # noqa: F401
            key = (type(err).__name__, str(err)[:100])
            where = blame(err)
            tb = "".join(traceback.format_exception(err))[-3000:]
            if ex._check() != core.z3.sat:
                return
            m = ex.solver.model()
            if key not in seen_exc and len(seen_exc) < 6:
                seen_exc.add(key)
                res["exceptions"].append({
                    "where": where, "tb": tb, "exc": "%s: %s" % key,
                    "inputs": {k: encode(v) for k, v in ex.inputs_from_model(m).items()}})
            ex.stats.unsupported["exception " + key[0]] = \
                ex.stats.unsupported.get("exception " + key[0], 0) + 1
            return
        if outcome != "ok":
            return
        paths_ok[0] += 1
        n = paths_ok[0]
        # sample the first paths and then exponentially more seldom
        if len(res["samples"]) < case.samples and (n <= 1 or (n & (n - 1)) == 0):
            if ex._check() != core.z3.sat:
                return
            m = ex.solver.model()

            def ev(e):
                if isinstance(e, (int, bool)):
                    return e
                v = m.eval(e, model_completion=True)
                r = core._pyval(v)
                if r is None:
                    raise ValueError(str(v))
                return r
            try:
                obs = [[n, encode(V.evaluate(v, ev))] for n, v in ex.observations]
            except (ValueError, TypeError) as e:
                obs = None
            res["samples"].append({
                "case": name,
                "inputs": {k: encode(v) for k, v in ex.inputs_from_model(m).items()},
                "observations": obs})

    signal.signal(signal.SIGALRM, alarm)
    try:
        ex.run(fn, on_end)
    except core.Control as e:
        res["error"] = "engine: %r" % e
        ex.stats.complete = False
    except BaseException:
        res["error"] = traceback.format_exc()[-3000:]
        ex.stats.complete = False
    for v in ex.violations:
        res["violations"].append({
            "case": name, "label": v.label, "detail": str(v.detail),
            "inputs": {k: encode(x) for k, x in v.inputs.items()}})
    s = ex.stats
    res.update(
        paths=s.paths, ok=paths_ok[0], infeasible=s.infeasible, queries=s.queries,
        solver_s=s.solver_s, unknown=s.unknown, asserts=s.asserts,
        trivial=s.asserts_trivial, branches=s.branches, reached=s.reached,
        unsupported=s.unsupported, complete=s.complete, wall_s=time.monotonic() - t0,
        concretizations=s.concretizations, functions=sorted(instrument.ENTERED))
    return res


def replay(path, timeout=120):
    try:
        p = subprocess.run(
            [PYTHON, "-m", "symdev.replay", path], cwd=VERIF, timeout=timeout,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            env=dict(os.environ))
    except subprocess.TimeoutExpired:
        return 1, "replay timed out"
    return p.returncode, p.stdout


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def match_known(known, v):
    for k in known:
        if k["case"] == v["case"] and k["label"] == v["label"]:
            want = k.get("inputs")
            if want is not None and any(v["inputs"].get(n) != x for n, x in want.items()):
                continue
            return k
    return None


def main():
    global _PROP
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER") or "quick"
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.monotonic()
    _PROP = prop
    evdir = os.path.join(VERIF, "evidence")
    repdir = os.path.join(evdir, "replays")
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(repdir, f))
    from . import instrument
    instrument.PREFIXES = (*instrument.PREFIXES, "checks")
    sys.path.insert(0, VERIF)
    instrument.install()
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module("checks." + prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    cases = [c for c in mod.cases(tier) if only is None or c.name.startswith(only)]
    # the expensive ones first
    order = sorted(cases, key=lambda c: -c.time_limit)
    budget = getattr(mod, "BUDGET", BUDGET)[tier]
    deadline = t0 + budget
    ctx = multiprocessing.get_context("fork")
    results = []
    nproc = min(8, len(order), int(os.environ.get("SYMDEV_PROCS", "8")))
    import gc
    gc.collect()
    gc.freeze()
    with ctx.Pool(nproc, maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_run_case, [(c.name, tier, deadline) for c in order])
        for _ in order:
            try:
                r = it.next(timeout=max(5, deadline + 60 - time.monotonic()))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                break
            results.append(r)
            if os.environ.get("SYMDEV_VERBOSE"):
                print("%-40s paths=%s ok=%s inf=%s q=%s solver=%.1f wall=%.1f complete=%s viol=%d %s %s" % (
                    r["case"], r.get("paths"), r.get("ok"), r.get("infeasible"), r.get("queries"),
                    r.get("solver_s", 0), r.get("wall_s", 0), r.get("complete"), len(r["violations"]),
                    r.get("unsupported"), r["error"] or ""), flush=True)
                for e in r["exceptions"]:
                    print("   EXC", e["where"], e["exc"], e["inputs"])
                    if os.environ["SYMDEV_VERBOSE"] == "2":
                        print(e["tb"])
        pool.terminate()
    known = known_findings(prop)
    candidates = []
    for r in results:
        for v in r["violations"]:
            candidates.append(v)
        for e in r["exceptions"]:
            if e["where"] == "repo":
                candidates.append({
                    "case": r["case"], "label": "unexpected exception",
                    "detail": e["exc"] + "\n" + e["tb"], "inputs": e["inputs"]})
    violations = []
    unconfirmed = []
    found_known = {}
    reported = set()
    for n, v in enumerate(candidates):
        key = (v["case"], v["label"])
        if key in reported and len(reported) > 5:
            continue
        k = match_known(known, v)
        path = os.path.join(repdir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop), f, indent=1)
        rc, out = replay(path)
        if rc == 1:
            reported.add(key)
            try:
                v["detail"] = v["detail"] or str(json.loads(out[:out.rindex("}") + 1])["failed"])
            except (ValueError, KeyError):
                pass
            if k is not None:
                found_known.setdefault(k["what"], path)
            else:
                violations.append((v, path, out))
        else:
            unconfirmed.append(dict(v, replay=out[-800:]))
            if os.environ.get("SYMDEV_VERBOSE"):
                print("UNCONFIRMED", v["case"], v["label"], v["inputs"], out[-1500:])
    # replay sampled paths and compare what was observed
    samples = [s for r in results for s in r["samples"] if s["observations"] is not None]
    validated = 0
    mismatches = []
    if samples:
        inp = os.path.join(repdir, "%s-samples.json" % prop)
        outp = os.path.join(repdir, "%s-samples-out.json" % prop)
        with open(inp, "w") as f:
            json.dump({"property": prop, "runs": samples}, f)
        try:
            p = subprocess.run(
                [PYTHON, "-m", "symdev.replay", inp, outp], cwd=VERIF,
                timeout=max(30, min(240, deadline + 90 - time.monotonic())),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            with open(outp) as f:
                outs = json.load(f)
        except (subprocess.TimeoutExpired, OSError, ValueError) as e:
            outs = []
            mismatches.append({"error": "sample replay failed: %r" % e})
        for s, o in zip(samples, outs):
            if o["outcome"] == "ok" and o["observations"] == s["observations"] and not o["diverged"]:
                validated += 1
            elif o["outcome"] == "failed" and "::" not in o.get("detail", ""):
                # the real code breaks the property on a sampled path
                v = {"case": s["case"], "label": o["detail"], "inputs": s["inputs"],
                     "detail": "sampled path fails on the real code"}
                k = match_known(known, v)
                path = os.path.join(repdir, "%s-s%d.json" % (prop, len(mismatches)))
                with open(path, "w") as f:
                    json.dump(dict(v, property=prop), f, indent=1)
                mismatches.append(dict(s, real=o))
                if k is None:
                    rc, out = replay(path)
                    if rc == 1:
                        violations.append((v, path, out))
            else:
                mismatches.append(dict(s, real=o))
        for f in (inp, outp):
            if os.path.exists(f):
                os.unlink(f)
    if os.environ.get("SYMDEV_VERBOSE") and mismatches:
        for m in mismatches[:5]:
            print("MISMATCH", json.dumps(m)[:1500])
    wall = time.monotonic() - t0
    functions = sorted({f for r in results for f in r.get("functions", ())})
    reached = {}
    inconclusive = {}
    for r in results:
        for k, n in r.get("reached", {}).items():
            reached[k] = reached.get(k, 0) + n
        for k, n in r.get("unsupported", {}).items():
            inconclusive.setdefault(r["case"], {})[k] = n
        if r["error"]:
            inconclusive.setdefault(r["case"], {})[r["error"][-400:]] = 1
    done = [r for r in results if r.get("ok")]
    incomplete = [r["case"] for r in results if not r.get("complete")]
    vacuous = [r["case"] for r in results if not r.get("reached")]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": sum(r.get("ok", 0) for r in results),
            "transitions": sum(r.get("branches", 0) for r in results),
            "traces_validated_against_impl": validated,
            "samples": [
                {"case": s["case"], "inputs": s["inputs"]} for s in samples[:6]],
            "explanation": (
                "states: feasible paths of the real code explored to their end; "
                "transitions: symbolic decisions taken; every assertion was discharged "
                "by the solver for all values on its path; traces validated: solver models "
                "of paths which were replayed on the unmodified code with equal observations"),
            "cases": len(results),
            "cases_exhausted_within_bounds": sum(1 for r in results if r.get("complete")),
            "incomplete_cases": incomplete[:40],
            "vacuous_cases": vacuous[:40],
            "bounds": [{"case": c.name, "bounds": c.bounds or _bounds(c)} for c in cases][:60],
            "queries": sum(r.get("queries", 0) for r in results),
            "solver_s": round(sum(r.get("solver_s", 0) for r in results), 3),
            "solver_unknown": sum(r.get("unknown", 0) for r in results),
            "assertions_discharged": sum(r.get("asserts", 0) for r in results),
            "assertions_constant": sum(r.get("trivial", 0) for r in results),
            "assertions_by_label": reached,
            "infeasible_paths": sum(r.get("infeasible", 0) for r in results),
            "concretizations": sum(r.get("concretizations", 0) for r in results),
            "functions_encoded": functions,
            "inconclusive": inconclusive,
            "unconfirmed_counterexamples": unconfirmed[:5],
            "sample_mismatches": mismatches[:5],
            "known_findings": sorted(found_known),
            "exhaustive": not incomplete,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    for what in sorted(found_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s: %d cases (%d incomplete, %d vacuous), %d paths, %d decisions, %d queries, %.1fs solver, "
          "%d assertions, %d validated traces, %d mismatches, %d unconfirmed, %.1fs wall" % (
              prop, tier, len(results), len(incomplete), len(vacuous),
              evidence["coverage"]["states"], evidence["coverage"]["transitions"],
              evidence["coverage"]["queries"], evidence["coverage"]["solver_s"],
              evidence["coverage"]["assertions_discharged"], validated,
              len(mismatches), len(unconfirmed), wall))
    for v, path, out in violations:
        print("--- %s: %s" % (v["case"], v["label"]))
        print("    inputs: %s" % json.dumps(v["inputs"])[:600])
        print("    %s" % (v.get("detail") or "")[-600:])
    for v, path, out in violations[:3]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violations:
        return 1
    if not done:
        print("inconclusive: no case could be decided", file=sys.stderr)
        return 2
    return 0


def _bounds(c):
    return {k: v if isinstance(v, (int, str, float, bool, list, tuple)) else repr(v)
            for k, v in c.params.items()}


_PROP = None

if __name__ == "__main__":
    # workers find this module's globals under its real name
    import symdev.run as me
    sys.exit(me.main())
