"""Running a check: recording in parallel, judging by TLC, evidence, verdicts."""
import json, multiprocessing, os, random, signal, sys, tempfile, time, shutil
import tlc, lib

EVID = os.path.join(lib.VERIF, "evidence")
FINDINGS = os.path.join(lib.VERIF, "known_findings.json")
JOB_S = 60


class Alarm(Exception):
    pass


def _alarm(*_):
    raise Alarm("timed out")


def _job(a):
    fn, args = a
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOB_S)
    try:
        return fn(*args)
    finally:
        signal.alarm(0)


def pmap(fn, argss, procs=8):
    """fn over argument tuples in forked workers; order kept."""
    argss = list(argss)
    if len(argss) < 16:
        return [_job((fn, a)) for a in argss]
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        return pool.map(_job, [(fn, a) for a in argss], chunksize=max(1, min(64, len(argss) // (procs * 4))))


class Check:
    def __init__(self, pid, tier, technique=""):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.seed = lib.SEED
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = 0
        self.rejects = []                    # (reject tuple, trace)
        self.made_by = {}                    # trace id -> how it was recorded (for replay)
        self.samples = []
        self.cov = {}
        self.models = []
        self.tmp = tempfile.mkdtemp(prefix=f"chk_{pid}_")
        self.budget = 60 if self.quick else 840

    def rng(self, *salt):
        return random.Random(":".join(map(str, (self.pid, self.seed) + salt)))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    # ------------------------------------------------------------ design level
    def model(self, module, machines=None, deep=False, exact=True, heap="10g", part=""):
        env = {"TA_DEEP": deep if isinstance(deep, str) else "1" if deep else "0", "TA_MACHINES": "", "TA_PART": part}
        if machines is not None:
            f = os.path.join(self.tmp, "machines.json")
            json.dump(machines, open(f, "w"))
            env["TA_MACHINES"] = f
        r = tlc.run(module, cfg=module + ".cfg", env=env, exact=exact, heap=heap)
        if not r.ok:
            raise tlc.TlcError(f"the specification itself fails in {module}:\n{r.out[-4000:]}")
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "machines": machines or [], "states": r.distinct, "deep": deep, "part": part,
                            "wall_s": round(r.wall, 1)})
        return r

    # ---------------------------------------------------------- conformance
    def record(self, fn, jobs, module, env=None):
        """Run the jobs (fn over argument tuples; the first argument is the trace's id)."""
        tr = pmap(fn, jobs)
        self.made_by = {t["id"]: (fn.__module__, fn.__name__, j, module, env or {}) for t, j in zip(tr, jobs)}
        return tr

    def judge(self, module, traces, env=None, size=lambda t: 1, weight=None):
        """Hold recorded traces to a trace specification.  size(t): states of an accepted trace."""
        if not traces:
            return
        f = os.path.join(self.tmp, "traces.ndjson")
        with open(f, "w") as h:
            for t in traces:
                h.write(json.dumps(t) + "\n")
        r = tlc.run(module, cfg=module + ".cfg", env=dict({"TA_TRACES": f}, **(env or {})))
        os.unlink(f)
        if not r.ok:
            raise tlc.TlcError(f"{module} failed:\n{r.out[:500]}\n...\n{r.out[-3000:]}")
        byid = {t["id"]: t for t in traces}
        if len(byid) != len(traces):
            raise tlc.TlcError("duplicate trace ids")
        done, rej = set(), {}
        for x in r.prints:
            if x[0] == "DONE":
                done.add(x[1])
                if module == "Trace":
                    self.count(values_compared=x[3], gaps_compared=x[4], noise_decided=x[5])
                elif module == "TwinTrace":
                    self.count(rows_held=x[3], rows_noise_decided=x[4])
                elif module == "SchemeTrace":
                    self.count(rows_held=x[3], values_compared=x[4], noise_decided=x[5])
            elif x[0] == "REJECT":
                rej.setdefault(x[1], x)
        for i in rej:
            done.discard(i)
        if module != "DropNaTrace" and done | set(rej) != set(byid):
            raise tlc.TlcError(f"{module}: {len(byid) - len(done | set(rej))} traces without a verdict\n{r.out[-2000:]}")
        want = sum(size(t) for i, t in byid.items() if i not in rej)
        if r.distinct < want:
            raise tlc.TlcError(f"{module}: {r.distinct} states, expected at least {want}")
        self.states += r.distinct
        self.transitions += r.generated - r.distinct if module == "DropNaTrace" else max(0, r.distinct - len(traces))
        self.traces += len(traces)
        self.count(tlc_wall_s=round(r.wall, 1))
        for i, x in rej.items():
            self.rejects.append((x, byid[i], self.made_by.get(i)))

    # --------------------------------------------------------------- verdict
    def findings(self):
        try:
            return [f for f in json.load(open(FINDINGS))["findings"] if f["property"] == self.pid]
        except FileNotFoundError:
            return []

    def finish(self, what, level="model_checking", assumptions=()):
        os.makedirs(EVID, exist_ok=True)
        new, known = [], []
        fs = self.findings()
        for x, t, job in self.rejects:
            hit = [f for f in fs if all(str(t.get(k, x[3] if k == "line" else None)) == str(v) for k, v in f["match"].items())]
            (known if hit else new).append((x, t, hit or job))
        for d in {json.dumps(h[0]["what"]) for _, _, h in known}:
            print(f"KNOWN-FINDING: property={self.pid} {json.loads(d)}")
        rc = 0
        if new:
            rc = 1
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            new.sort(key=lambda y: len(json.dumps(y[1])))
            x, t, job = new[0]
            path = os.path.join(d, f"{self.pid}.json")
            json.dump({"property": self.pid, "verdict": x, "job": job, "trace": t}, open(path, "w"))
            for y in new[:8]:
                print("rejected:", describe(y[0], y[1]))
            print(f"{len(new)} of {self.traces} traces rejected; replay: python3 harness/replay.py evidence/replay/{self.pid}.json")
            print(f"VIOLATION property={self.pid} replay={path}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:5] or ["(none)"], "what": what, "models": self.models}
        cov.update(self.cov)
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                   "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(new)},
                  open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print(f"{self.pid} {self.tier}: {self.traces} traces, {self.states} states, {len(new)} violations, "
              f"{time.time() - self.t0:.1f} s")
        return rc


def describe(x, t):
    p = {k: v for k, v in t.get("p", {}).items()} if isinstance(t.get("p"), dict) else ""
    return f"{x[1:]} params={p} fillna={t.get('fn')} {t.get('err', '')}"
