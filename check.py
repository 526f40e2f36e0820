#!/opt/venv/bin/python
"""check.py PROPERTY [--replay FILE] [--only NAME] [-v]

Decides one property: regenerates every obligation from /repo's current source,
discharges them, cross-checks the same contracts on the real code under
CPython, writes evidence/<PROPERTY>.json."""
import importlib
import json
import logging
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_DISABLE_PERFORMANCE_WARNINGS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
os.environ.pop("READTHEDOCS", None)

TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1

TRUSTED = [
    "pyvc (this directory): symbolic execution by operator overloading, the "
    "loop rule, the polynomial normaliser; its inferred loop invariants are "
    "themselves checked (initiation and preservation) on every run",
    "z3 (python bindings of the installed z3-solver) for conditions, index "
    "arithmetic and residual arithmetic",
    "CPython semantics of the statements that are executed natively",
    "floating point arithmetic is treated as exact real arithmetic, machine "
    "integers as mathematical integers; NaN and infinity are excluded",
    "numba is assumed to compile the decorated functions faithfully to their "
    "Python meaning (the installed numba has no generated_jit, so the "
    "generators are dispatched by the loader)",
    "numpy operations are modelled by pyvc/npsym.py and pyvc/arrays.py",
]


def worker(q, pid, ci, pi, what, arg):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        m = importlib.import_module("contracts." + pid)
        from pyvc import contract as C
        c = m.P.contracts[ci]
        kw = c.params[pi]
        if what == "sym":
            r = C.run_symbolic(c.fn, kw)
        else:
            r = C.run_concrete(c.fn, kw, arg["seed"], arg["n"],
                               arg["budget"], arg["small"])
        q.send(r)
    except BaseException as e:
        import traceback
        q.send({"status": "error", "detail": "%s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc()[-3000:]),
            "crash": True})
    q.close()


def run_jobs(jobs, limit, deadline, ncpu=None):
    """jobs: list of (key, args); forked, with a wall limit each and one for
    all of them"""
    ncpu = ncpu or min(8, os.cpu_count() or 4)
    ctx = mp.get_context("fork")
    out, running = {}, []
    queue = list(jobs)
    while queue or running:
        if time.time() > deadline:
            for key, args in queue:
                out[key] = {"status": "timeout", "skipped": True,
                            "detail": "not started: time is up"}
            queue = []
        while queue and len(running) < ncpu:
            key, args = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b,) + tuple(args))
            p.start()
            b.close()
            running.append([key, p, a, time.time()])
        time.sleep(0.005)
        for r in list(running):
            key, p, a, t0 = r
            if a.poll():
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = {"status": "error", "crash": True,
                                "detail": "worker died"}
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(r)
            elif not p.is_alive():
                if not a.poll():
                    out[key] = {"status": "error", "crash": True,
                                "detail": "worker died (exit %s)" %
                                p.exitcode}
                    running.remove(r)
            elif time.time() - t0 > limit or time.time() > deadline + 20:
                p.kill()
                p.join()
                out[key] = {"status": "timeout",
                            "detail": "no answer within %d s" % limit}
                running.remove(r)
    return out


def main(argv):
    logging.disable(logging.CRITICAL)
    pid = argv[0]
    verbose = "-v" in argv
    t0 = time.time()
    m = importlib.import_module("contracts." + pid)
    if "--replay" in argv:
        return replay(pid, m, argv[argv.index("--replay") + 1])
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    # import the heavy modules once before forking
    import pyvc.contract as C    # noqa
    import numba                 # noqa
    thorough = TIER == "thorough"
    jobs = []
    for ci, c in enumerate(m.P.contracts):
        if only and only not in c.name:
            continue
        for pi, kw in enumerate(c.params):
            if c.symbolic and not c.finding:
                jobs.append((("sym", ci, pi), (pid, ci, pi, "sym", None)))
            if c.concrete:
                n = c.thorough if thorough else c.cases
                np_ = len(c.params)
                if not thorough and np_ > 8:
                    n = max(6, n * 8 // np_)
                budget = 240 if thorough else max(
                    4, 60 * 8 // max(8, np_ * len(m.P.contracts)))
                jobs.append((("con", ci, pi), (pid, ci, pi, "con", {
                    "seed": SEED, "n": n, "budget": budget,
                    "small": c.small + (2 if thorough else 0)})))
    jobs.sort(key=lambda j: j[0][0] != "con")
    start = time.time()
    res = run_jobs(jobs, 900 if thorough else 200,
                   start + (3600 if thorough else 480))
    # ---- widen the concrete search where the proof did not go through
    extra = []
    for (w, ci, pi), r in sorted(res.items()):
        c = m.P.contracts[ci]
        if w == "sym" and r["status"] in ("refuted", "unknown", "unsupported",
                                          "timeout") and c.concrete:
            con = res.get(("con", ci, pi), {})
            if not con.get("failure"):
                extra.append((("con2", ci, pi), (pid, ci, pi, "con", {
                    "seed": SEED + 1000, "n": 40 * c.cases, "budget": 60,
                    "small": c.small + 2})))
    if extra and not any(r.get("failure") for r in res.values()):
        res.update(run_jobs(extra, 150, start + (4200 if thorough else 660)))
    # ---- verdict
    viol, known, errors, inst, undone = [], [], [], [], []
    obl = dis = solver = z3c = 0
    bounded_cases = bounded_checks = 0
    bounded = []
    functions = set()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    samples = []
    for ci, c in enumerate(m.P.contracts):
        for pi, kw in enumerate(c.params):
            s = res.get(("sym", ci, pi))
            cons = [res[k] for k in (("con", ci, pi), ("con2", ci, pi))
                    if k in res]
            if s is None and not cons:
                continue
            name = c.name + ("" if not kw else "[" + ",".join(
                "%s=%s" % (a, getattr(b, "__name__", b))
                for a, b in kw.items()) + "]")
            fail = None
            for r in cons:
                if r.get("crash"):
                    errors.append("%s: %s" % (name, r["detail"]))
                    continue
                if r.get("status") == "timeout":
                    if not r.get("skipped"):
                        undone.append(name)
                    continue
                bounded_cases += r["cases"]
                bounded_checks += r["checks"]
                fail = fail or r["failure"]
            if s is not None and s.get("crash"):
                # a crash of the verifier itself is an undecided obligation
                s = dict(s, status="unsupported", detail="verifier error: " +
                         s["detail"][-400:])
            if s is not None:
                obl += s.get("obligations", 0)
                dis += s.get("discharged", 0)
                solver += s.get("solver_s", 0)
                z3c += s.get("z3_calls", 0)
                functions.update(s.get("functions", []))
            functions.update(c.targets)
            st = s["status"] if s else "bounded"
            rec = {"contract": name, "status": st,
                   "obligations": s.get("obligations", 0) if s else 0,
                   "wall_s": s.get("wall_s") if s else None}
            if s and s.get("invariants"):
                rec["loop_invariants"] = s["invariants"]
            if st not in ("proved",):
                rec["detail"] = (s or {}).get("detail", "")[:600]
                rec["bounded_cases"] = sum(r.get("cases", 0) for r in cons)
                bounded.append(name)
            inst.append(rec)
            if verbose:
                print("  %-60s %-11s obl=%-4s %5.1fs  con=%s %s" % (
                    name[:60], st, rec["obligations"], rec["wall_s"] or 0,
                    [(r.get("cases"), r.get("discarded"), r.get("wall_s"))
                     for r in cons],
                    (s or {}).get("detail", "")[:1000]))
                for f in (s or {}).get("failed", [])[:4]:
                    print("      FAILED %s (%s by %s)\n        goal %s\n"
                          "        %s" % (f["obligation"], f["status"],
                                          f["back_end"], f["goal"][:500],
                                          f["detail"][:700]))
                if fail:
                    print("      CONCRETE FAILURE: %s\n        %s" % (
                        fail["what"], json.dumps(fail["input"],
                                                 default=str)[:1500]))
            if c.finding and not (fail and fail["what"].startswith(
                    "unexpected")):
                if fail:
                    known.append("KNOWN-FINDING: property=%s %s" % (
                        pid, c.finding))
                continue
            if st == "vacuous":
                errors.append("%s: %s" % (name, s["detail"]))
            bad = s is not None and st in ("refuted", "unknown")
            if fail or bad:
                path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (
                    pid, c.name, pi))
                with open(path, "w") as f:
                    json.dump({
                        "property": pid, "contract": c.name, "param_index":
                        pi, "params": str(kw), "statement": (c.fn.__doc__ or
                                                             "").strip(),
                        "failing_input": fail,
                        "failed_obligations": (s or {}).get("failed", []),
                        "replay_cmd": "./check.py %s --replay %s" % (pid,
                                                                     path),
                    }, f, indent=1, default=str)
                viol.append((path, fail is not None, name,
                             fail["what"] if fail else
                             s["failed"][0]["obligation"]))
            elif s is not None and st == "proved" and len(samples) < 4:
                samples.append({"contract": name, "doc": (c.fn.__doc__ or ""
                                                          ).strip()[:300],
                                "obligations": s["obligations"]})
    findings = load_known(pid)
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick",
        "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "./check.py %s" % pid,
            "trusted_base": TRUSTED,
            "functions_under_contract": sorted(functions),
            "back_end": "pyvc normal form + z3 %s" % _z3v(),
            "solver_time_s": round(solver, 2), "solver_calls": z3c,
            "instances": inst,
            "bounded_stand_ins": bounded,
            "cross_check_cases_on_real_code": bounded_cases,
            "cross_check_postconditions_evaluated": bounded_checks,
            "bound": "random instances, every dimension <= %d, seed %d" % (
                8 if thorough else 6, SEED),
            "samples": samples,
        },
        "assumptions": m.P.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if obl == 0:
        ev["level"] = "exploration"
        ev["coverage"].update(
            evaluations=bounded_cases, distinct_nontrivial=bounded_cases,
            rule="random inputs that satisfy the contract's precondition; "
            "discarded draws are not counted")
        if not samples:
            ev["coverage"]["samples"] = [{"contract": x["contract"]}
                                         for x in inst[:3]]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in sorted(set(known)):
        print(k)
    print("%s: %d/%d obligations discharged, %d bounded cases, %.1f s" % (
        pid, dis, obl, bounded_cases, time.time() - t0))
    # a replayed violation first
    viol.sort(key=lambda x: not x[1])
    for name in undone:
        print("  no answer from the concrete run of %s" % name)
    for path, rep, name, what in viol[:6]:
        print("  violated: %s: %s" % (name, what))
        print("VIOLATION property=%s replay=%s%s" % (
            pid, path, "" if rep else " no-failing-input-found"))
    if viol:
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    return 0


def _z3v():
    from pyvc import prove
    return prove.z3.get_version_string()


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f) if x.get("property") == pid]


def replay(pid, m, path):
    from pyvc import contract as C
    with open(path) as f:
        d = json.load(f)
    c = [x for x in m.P.contracts if x.name == d["contract"]][0]
    kw = c.params[d["param_index"]]
    fi = d.get("failing_input")
    if not fi:
        print("no failing input recorded; failed obligations:")
        print(json.dumps(d["failed_obligations"], indent=1))
        return 0
    # same draw sequence as the search
    for small in (c.small, c.small + 2, c.small + 4):
        r = C.replay_one(c.fn, kw, fi["seed"], fi["k"], small)
        if r["outcome"] == "fail":
            break
    print(json.dumps(r, indent=1, default=str))
    return 1 if r["outcome"] == "fail" else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
