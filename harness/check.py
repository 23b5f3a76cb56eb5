#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]: decide one property of /repo on the current working tree."""
import os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, lib, runs, sessions, objects, frames, dropping, twins, schemes, tlc  # noqa: E402

TRACE_SIZE = lambda t: len(t["c"]) + 1


def sample_of(t, k=6):
    return {"indicator": t["m"], "params": t["p"], "fillna": t["fn"], "rows": len(t["c"]),
            "close": t["c"][:k], "volume": t["v"][:k], "output": [x[:k] for x in t["o"]]}


def judge_runs(c, jobs, mode):
    """Record the jobs and hold them to Trace.tla, in batches."""
    step = 6000
    for i in range(0, len(jobs), step):
        tr = c.record(runs.run_job, jobs[i:i + step], "Trace", {"TA_MODE": mode})
        c.count(rows=sum(len(t["c"]) for t in tr), calls_failed=sum(1 for t in tr if t["err"]))
        if i == 0:
            c.samples += [sample_of(t) for t in c.rng("sample").sample(tr, min(3, len(tr)))]
        c.judge("Trace", tr, env={"TA_MODE": mode}, size=TRACE_SIZE)


def values(c):
    """C10..C18: the lines of a family of indicators are the documented functions of the bars."""
    ms = runs.FAMILIES[c.pid]
    if c.quick:
        c.model("MC_Laws", ms)
    else:
        for m in ms:
            c.model("MC_Laws", [m], deep=True)
    lim = 40 if c.quick else 2000
    jobs = []
    for m in ms:
        k = lib.export("scope")[m]
        length = 5 if len(k["bars"]) <= 3 else 4
        jobs += runs.scope_jobs(m, length, limit=lim, rng=c.rng(m, "scope"))
    c.count(scope_histories=len(jobs))
    few = {8: 1, 6: 2, 5: 3, 4: 3, 2: 4, 1: 8}[len(ms)]
    jobs += runs.random_jobs(c, ms, "quick" if c.quick else "deep", times=few, ahead=True)
    jobs += runs.random_jobs(c, ms, "quick+" if c.quick else "deep+", times=few, ahead=True)
    jobs += runs.param_jobs(c, ms, few if c.quick else 4 * few)
    judge_runs(c, jobs, "value")
    r = 1
    while not c.quick and c.left() > 120:
        judge_runs(c, runs.random_jobs(c, ms, "deep", salt=r, ahead=True) + runs.random_jobs(c, ms, "deep+", salt=r, ahead=True),
                   "value")
        r += 1
    return c.finish("runs of " + ", ".join(ms) + " compared row by row with their machines (Trace.tla, value mode); "
                    "machines checked against Laws.tla on all small histories (MC_Laws)",
                    assumptions=["low <= high, no price exactly zero, volumes >= 0",
                                 "missing inputs only for: " + ", ".join(m for m in ms if m in runs.HOLES),
                                 "rows that only rounding noise decides (noise_decided) are not judged"])


def fill(c):
    """C03: with fillna on there is a value on every row, and gaps are filled as documented."""
    c.model("MC_Warm", deep=not c.quick)
    ms = runs.ALL
    jobs = []
    for m in ms:
        jobs += runs.scope_jobs(m, 4 if len(lib.export("scope")[m]["bars"]) <= 3 else 3, fns=(True,),
                                limit=12 if c.quick else 300, rng=c.rng(m, "scope"))
    jobs += runs.random_jobs(c, ms, "quick" if c.quick else "deep", fns=(True,))
    jobs += runs.random_jobs(c, ms, "quick" if c.quick else "deep", fns=(True,), kinds=["gaps"], salt="g")
    jobs += runs.random_jobs(c, ms, "fill+", fns=(True,), times=1 if c.quick else 6)
    jobs += runs.param_jobs(c, ms, 1 if c.quick else 4, fns=(True,))
    judge_runs(c, jobs, "fill")
    r = 1
    while not c.quick and c.left() > 160:
        judge_runs(c, runs.random_jobs(c, ms, "deep", fns=(True,), salt=r), "fill")
        r += 1
    return c.finish("runs of all 43 indicators with fillna on, held to the fill stage of Trace.tla (fill mode)",
                    assumptions=["well-formed bars without missing inputs"])


def warm(c):
    """C04: without fillna the first value appears exactly when all windows are full."""
    c.model("MC_Warm", deep=not c.quick)
    ms = runs.ALL
    jobs = []
    for m in ms:
        jobs += runs.scope_jobs(m, 4 if len(lib.export("scope")[m]["bars"]) <= 3 else 3, fns=(False,),
                                limit=8 if c.quick else 200, rng=c.rng(m, "scope"))
    jobs += runs.random_jobs(c, ms, "quick" if c.quick else "deep", fns=(False,))
    jobs += runs.random_jobs(c, ms, "warm+", fns=(False,), times=1 if c.quick else 6)
    jobs += runs.param_jobs(c, ms, 1 if c.quick else 4, fns=(False,))
    judge_runs(c, jobs, "warm")
    r = 1
    while not c.quick and c.left() > 160:
        judge_runs(c, runs.random_jobs(c, ms, "deep", fns=(False,), salt=r), "warm")
        r += 1
    return c.finish("runs of all 43 indicators without fillna, held to Warmup.tla and the definedness of the machines "
                    "(Trace.tla, warm mode); Warmup.tla checked against the machines (MC_Warm)",
                    assumptions=["well-formed bars without missing inputs"])


EV_SIZE = lambda t: len(t["ev"]) + 1


def judge_jobs(c, fn, jobs, module, size=EV_SIZE, sample=lambda t: t, step=4000):
    for i in range(0, len(jobs), step):
        tr = c.record(fn, jobs[i:i + step], module)
        c.count(calls_failed=sum(1 for t in tr if t["err"]))
        if "ev" in tr[0]:
            c.count(events=sum(len(t["ev"]) for t in tr))
        if i == 0:
            c.samples += [sample(t) for t in c.rng("sample").sample(tr, min(3, len(tr)))]
        c.judge(module, tr, size=size)


def session_sample(t):
    return {"indicator": t["m"], "params": t["p"], "fillna": t["fn"], "rows": t["len"],
            "events": [{k: (v if k != "o" else [x[:4] for x in v[:2]]) for k, v in e.items()} for e in t["ev"]]}


def sessions_check(kind, quick, deep, what, models=(), assumptions=()):
    def run(c):
        for mod, kw in models:
            c.model(mod, **(kw if c.quick else dict(kw, deep=True)))
        make = getattr(sessions, kind + "_jobs")
        jobs = [(kind,) + j for j in make(c, runs.ALL, quick if c.quick else deep)]
        judge_jobs(c, sessions.run_job, jobs, "SessionTrace", sample=session_sample)
        r = 1
        while not c.quick and c.left() > 200:
            judge_jobs(c, sessions.run_job, [(kind,) + j for j in make(c, runs.ALL, deep, f"r{r}")], "SessionTrace")
            r += 1
        return c.finish(what, assumptions=list(assumptions) + ["no price exactly zero, volumes >= 0"])
    return run


def objects_check(c):
    jobs = objects.jobs(c, runs.ALL, 60 if c.quick else 160)
    judge_jobs(c, objects.life, jobs, "ObjTrace", sample=lambda t: {
        "indicator": t["m"], "params": t["p"], "schedule": [[e["op"], e["obj"], e["k"]] for e in t["ev"]], "rows": t["len"]})
    r = 1
    while not c.quick and c.left() > 200:
        judge_jobs(c, objects.life, objects.jobs(c, runs.ALL, 60, f"r{r}"), "ObjTrace")
        r += 1
    return c.finish("lives of up to three objects of every class, schedules from ObjLife.Plans, each answer compared with "
                    "the one a fresh object in a process of its own gives",
                    assumptions=["one thread", "returned series are not written to by the caller"])


def frames_check(c):
    c.model("MC_Frame", exact=False)
    jobs = frames.jobs(c, 352 if c.quick else 2000)
    judge_jobs(c, frames.session, jobs, "FrameTrace", step=800, sample=lambda t: {
        "rows": t["n"], "index": t["index"], "calls": [e["call"] for e in t["ev"]], "columns": len(t["ev"][-1]["cols"])})
    r = 1
    while not c.quick and c.left() > 200:
        judge_jobs(c, frames.session, frames.jobs(c, 800, f"r{r}"), "FrameTrace", step=800)
        r += 1
    return c.finish("sequences of add_*_ta calls on frames; every column compared with the indicator it is documented to "
                    "show (Frame.tla), all other columns and the index unchanged",
                    assumptions=["documented column names are not read back as inputs of later calls"])


def drop_check(c):
    judge_jobs(c, dropping.drop, dropping.jobs(c, "shapes"), "DropNaTrace", size=lambda t: 2, step=8000)
    judge_jobs(c, dropping.drop, dropping.long_jobs(c, 300 if c.quick else 6000), "DropNaTrace", size=lambda t: 2, step=600)
    if not c.quick:
        judge_jobs(c, dropping.drop, dropping.jobs(c, "deeper", limit=40000), "DropNaTrace", size=lambda t: 2, step=20000)
    c.cov["exhaustive"] = c.quick
    return c.finish("every frame of the shapes of DropNa.tla (all combinations of the cell kinds), and long ones of up to 9 columns",
                    assumptions=["whether a cell holding -inf is usable is left open"])


def total(c):
    """C19: every indicator answers every well-formed history of one bar or more, with one row per bar."""
    ms = runs.ALL
    jobs = []
    for m in ms:
        for n in (1, 2, 3):
            jobs += runs.scope_jobs(m, n, limit=4 if c.quick else 60, rng=c.rng(m, "scope", n))
    jobs += runs.edge_jobs(c, ms, 40 if c.quick else 150)
    jobs += runs.random_jobs(c, ms, "total+", times=1 if c.quick else 8)
    judge_runs(c, jobs, "total")
    r = 1
    while not c.quick and c.left() > 200:
        judge_runs(c, runs.edge_jobs(c, ms, 100, r), "total")
        r += 1
    return c.finish("runs of all 43 indicators on short histories, windows of 1 and windows longer than the history, "
                    "integer and float inputs, all index kinds: every call answers with one row per bar",
                    assumptions=["no price exactly zero, volumes >= 0, at least one bar"])


def twin_sample(t):
    return {"indicator": t["m"], "params": t["p"], "fillna": t["fn"], "relation": t["rel"], "cut": t["cut"], "g": t["g"],
            "d": t["d"], "rows": len(t["c"]), "close": t["c"][:6], "output": [x[:6] for x in t["o"]]}


def twins_check(make, quick, deep, what, assumptions=()):
    """C20..C22: guarantees of Laws.tla on recorded runs."""
    def run(c):
        part = make.__name__.split("_")[0]
        if c.quick:
            c.model("MC_Laws", runs.ALL, part=part, deep="brief")
        else:
            for m in runs.ALL:
                if c.left() > 500:
                    c.model("MC_Laws", [m], part=part, deep=True)

        def some(k, salt):
            jobs = make(c, runs.ALL, k, salt)
            for i in range(0, len(jobs), 4000):
                tr = c.record(twins.twin, jobs[i:i + 4000], "TwinTrace")
                c.count(calls_failed=sum(1 for t in tr if t["err"]))
                if i == 0 and salt == "":
                    c.samples += [twin_sample(t) for t in c.rng("sample").sample(tr, min(3, len(tr)))]
                c.judge("TwinTrace", tr, size=lambda t: 2)
        some(quick if c.quick else deep, "")
        r = 1
        while not c.quick and c.left() > 200:
            some(deep, f"r{r}")
            r += 1
        return c.finish(what, assumptions=list(assumptions) + ["rows that only rounding noise decides are not judged"])
    return run


def scheme_sample(t):
    return {"scheme": t["scheme"], "fillna": t["fn"], "rows": len(t["c"]), "close": t["c"][:6],
            "runs": [{"indicator": r["m"], "params": r["p"], "output": [x[:6] for x in r["o"]]} for r in t["runs"]]}


def schemes_check(kind, quick, deep, what, assumptions=()):
    """C23, C24: runs next to runs of their parts, or with other parameters (Schemes.tla)."""
    def run(c):
        ids = [s["id"] for s in schemes.table(kind)]
        if c.quick:
            c.model("MC_Schemes", ids, part="quick", deep="brief")
        else:
            for i in ids:
                if c.left() > 450:
                    c.model("MC_Schemes", [i], deep="brief")
        c.cov["schemes"] = len(ids)

        def some(k, salt):
            jobs = schemes.jobs(c, kind, k, salt)
            for i in range(0, len(jobs), 4000):
                tr = c.record(schemes.scheme, jobs[i:i + 4000], "SchemeTrace")
                c.count(calls_failed=sum(1 for t in tr if t["err"]))
                if i == 0 and salt == "":
                    c.samples += [scheme_sample(t) for t in c.rng("sample").sample(tr, min(3, len(tr)))]
                c.judge("SchemeTrace", tr, size=lambda t: 2)
        some(quick if c.quick else deep, "")
        # the machines themselves say what the indicators are made of, and what every parameter does
        ms = runs.ALL if kind == "vary" else sorted({s["m"] for s in schemes.table(kind)})
        judge_runs(c, runs.random_jobs(c, ms, "quick" if c.quick else "deep", kinds=["edge", "small", "mid", "big"])
                   + runs.param_jobs(c, ms, 1 if c.quick else 4), "value")
        r = 1
        while not c.quick and c.left() > 200:
            some(deep, f"r{r}")
            r += 1
        return c.finish(what, assumptions=list(assumptions) + ["positive prices, volumes >= 0, no missing inputs",
                                                               "rows that only rounding noise decides are not judged"])
    return run


CHECKS = {p: values for p in runs.FAMILIES}
CHECKS.update(
    C01=sessions_check("history", 60, 150, "growing and rewritten histories (Session.tla): rows before the change stay",
                       models=[("MC_History", {"machines": runs.ALL})]),
    C02=sessions_check("form", 45, 90, "the same numbers in all index kinds, dtypes, memory layouts and names (Session.tla)"),
    C03=fill, C04=warm, C05=objects_check,
    C06=sessions_check("api", 24, 60, "module-level functions and constructors, keyword, positional and defaulted "
                       "arguments, compared with the classes called with all arguments by name (Session.tla)"),
    C07=frames_check, C08=drop_check,
    C09=sessions_check("units", 12, 60, "prices and volumes in units 2^k times as large (Session.tla)",
                       assumptions=["factors are powers of two, so that scaling is exact in binary floating point"]),
    C19=total,
    C20=twins_check(twins.law_jobs, 2, 6, "guarantees of Laws.tla (Law) on every row of recorded runs; the machines obey them "
                    "on all small histories (MC_Laws)", ["low <= close <= high, positive prices, volumes >= 0"]),
    C21=twins_check(twins.past_jobs, 6, 12, "runs with and without older bars (Laws.tla, Forgets)",
                    ["positive prices, volumes >= 0, no missing inputs"]),
    C22=twins_check(twins.turn_jobs, 16, 40, "runs on moved and on turned prices (Laws.tla, Turned)",
                    ["prices on a grid on which moving them is exact"]),
    C23=schemes_check("compose", 2, 4, "indicators computed next to the indicators they are made of, fed with their lines "
                      "(Schemes.tla); the machines obey the same schemes on all small histories (MC_Schemes); values of the lines by Trace.tla",
                      ["with fillna on: rows that are not filled"]),
    C24=schemes_check("vary", 2, 4, "indicators computed with different values of one parameter, or fillna on and off "
                      "(Schemes.tla); the machines obey the same schemes on all small histories (MC_Schemes); values of the lines by Trace.tla",
                      ["with fillna on: rows that are not filled"]),
    C25=sessions_check("named", 40, 160, "names of the lines of every class and function, with other windows, names, indexes "
                       "and lengths of the input (Session.tla, Names)"))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return CHECKS[pid](core.Check(pid, tier))
    except tlc.TlcError as x:
        print("check could not decide:", x, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    return 2


if __name__ == "__main__":
    sys.exit(main())
