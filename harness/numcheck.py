#!/usr/bin/env python3
"""The arithmetic override against the TLA+ definitions of Num (MC_Num), and its error bounds against the machine (NumTrace)."""
import json, math, os, random, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc  # noqa: E402


def program(rng, id_):
    mag = rng.choice([1, 1, 1e-8, 1e6])
    def val():
        k = rng.random()
        return (rng.randint(-5, 5) * 1.0 if k < 0.4 else rng.uniform(-100, 100) if k < 0.8 else rng.choice([0.1, 0.3, 1 / 3])) * mag
    given = [val() for _ in range(3)]
    reg, steps = list(given), []
    for _ in range(rng.randint(3, 14)):
        a, b = rng.randrange(len(reg)), rng.randrange(len(reg))
        x, y = reg[a], reg[b]
        op = rng.choice(["add", "sub", "sub", "mul", "div", "max", "min", "abs", "neg", "sqrt", "sum", "ln"])
        if op in ("mul", "div") and (max(abs(x), abs(y)) > 1e60 or (y and abs(y) < 1e-60) or (x and abs(x) < 1e-60)):
            op = "add"
        try:
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y, "max": lambda: max(x, y),
                 "min": lambda: min(x, y), "abs": lambda: abs(x), "neg": lambda: -x, "sqrt": lambda: math.sqrt(abs(x)),
                 "sum": lambda: sum(reg, 0.0), "ln": lambda: math.log(1 + abs(x))}[op]()
        except ZeroDivisionError:
            r = math.nan
        if r != r or math.isinf(r):
            break
        steps.append({"op": op, "a": a + 1, "b": b + 1, "r": repr(r), "lt": x < y, "eq": x == y})
        reg.append(r)
    return {"id": id_, "given": [repr(x) for x in given], "steps": steps}


def main(count=3000):
    work = tempfile.mkdtemp(prefix="num_")
    try:
        src = open(os.path.join(tlc.SPEC, "Num.tla")).read()
        with open(os.path.join(work, "NumPure.tla"), "w") as f:
            f.write(src.replace("MODULE Num ", "MODULE NumPure ", 1))
        r = tlc.run("MC_Num", cfg="MC_Num.cfg", exact=True, library=work)
        if not r.ok:
            print(r.out[-3000:])
            return 1
        print("MC_Num:", r.distinct, "pairs of numbers")
        rng = random.Random(1)
        ts = [t for t in (program(rng, i) for i in range(count)) if t["steps"]]
        f = os.path.join(work, "t.ndjson")
        open(f, "w").write("".join(json.dumps(t) + "\n" for t in ts))
        r = tlc.run("NumTrace", cfg="NumTrace.cfg", env={"TA_TRACES": f})
        bad = [x for x in r.prints if x[0] == "REJECT"]
        if not r.ok or bad or sum(x[0] == "DONE" for x in r.prints) != len(ts):
            print(r.out[-3000:], bad[:5])
            return 1
        print("NumTrace:", len(ts), "programs,", r.distinct, "states")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
