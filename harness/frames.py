"""C07: add_*_ta calls on frames (Frame.tla)."""
import random
import numpy as np
import pandas as pd
import lib, gen, rec, objects

SRC = {"": dict(high="h", low="l", close="c", volume="v"), "2": dict(high="h2", low="l2", close="c2", volume="v2"),
       "1": dict(high="c", low="c", close="c", volume="v"),
       "n": dict(high="high", low="low", close="close", volume="volume")}
INS = {"volume": ["high", "low", "close", "volume"], "volatility": ["high", "low", "close"],
       "trend": ["high", "low", "close"], "momentum": ["high", "low", "close", "volume"], "others": ["close"],
       "all": ["high", "low", "close", "volume"]}
INDEX = ["range", "range", "date", "gaps", "down", "shuffled", "str", "tz", "float", "dup", "period", "multi"]


def frame_of(n, seed, index, whole):
    rng = random.Random(seed)
    a, b, e = [gen.bars(rng, n, *gen.style_of(rng)) if whole else gen.any_bars(rng, n, plain=0.7) for _ in range(3)]
    d = {"note": [f"n{i}" for i in range(n)], "o": a["close"]}
    for src, bars in (("", a), ("2", b), ("n", e)):
        for c, nm in SRC[src].items():
            x = [float(round(y)) for y in bars[c]] if whole else bars[c]
            d[nm] = np.array(x, dtype="int64" if whole and c == "volume" else "float64")
    for nm in sorted(lib.export("distractors")):
        if rng.random() < 0.5:
            d[nm] = np.array(gen.bars(rng, n, *gen.style_of(rng))[rng.choice(["close", "volume"])])
    names = list(d)
    rng.shuffle(names)
    ix = rec.index_of(index, n)
    if seed % 2:
        ix = ix.set_names(["Time"] + ["i"] * (ix.nlevels - 1))
    return pd.DataFrame({c: d[c] for c in names}, index=ix)


def invoke(df, call, style):
    import ta
    g, s = call["grp"], SRC[call["src"]]
    f = getattr(ta, "add_all_ta_features" if g == "all" else f"add_{g}_ta")
    ins = {c: s[c] for c in INS[g]}
    if g == "all":
        ins = {"open": "o", **ins}
    kw = {"fillna": call["fn"], "colprefix": call["prefix"]}
    if g != "others":
        kw["vectorized"] = call["vec"]
    if style == "positional":
        return f(df, *ins.values(), *kw.values())
    if style == "short":                             # documented defaults left out
        kw = {k: v for k, v in kw.items() if v not in (False, "")}
    return f(df, **ins, **kw)


def show(s):
    return tuple(lib.strs(s.to_numpy())) if s.dtype.kind in "fiub" else tuple("s:" + str(x) for x in s)


def reference(n, seed, index, whole, want):
    """Lines of the wanted provenances, straight from the indicator classes."""
    df = frame_of(n, seed, index, whole)
    r = {}
    for col, fn, src in want:
        x = COLS()[col]
        p = dict(lib.defaults(x["m"]))
        p.update({k: v for k, v in x["p"]})
        cols = {c: df[nm] for c, nm in SRC[src].items()}
        try:
            obj = lib.make(x["m"], p, fn, cols)
            s = getattr(obj, lib.catalog()[x["m"]]["outs"][x["o"] - 1][0])()
            r[f"{col}/{'T' if fn else 'F'}{src}"] = show(s)
        except Exception:
            r[f"{col}/{'T' if fn else 'F'}{src}"] = []
    return r


def COLS():
    return {x["n"]: x for g in lib.frame_catalog().values() for x in g}


def played(n, seed, index, whole, calls, styles):
    df = frame_of(n, seed, index, whole)
    ix = df.index.copy()
    ev = []
    for call, style in zip(calls, styles):
        e = {"call": call, "err": "", "index_kept": True, "cols": {}}
        try:
            df = invoke(df, call, style)
            e["index_kept"] = bool(isinstance(df, pd.DataFrame) and df.index.equals(ix) and len(df) == n
                                   and list(df.index.names) == list(ix.names) and type(df.index) is type(ix)
                                   and df.columns.is_unique)
            e["cols"] = {str(c): show(df[c]) for c in df.columns} if e["index_kept"] else {}
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"
        ev.append(e)
        if e["err"]:
            break
    return ev


def session(id_, n, seed, index, whole, calls, styles):
    ev = objects.apart(played, n, seed, index, whole, calls, styles)
    groups = lib.frame_catalog()
    want = set()
    for c in calls:
        for g in (groups if c["grp"] == "all" else [c["grp"]]):
            want |= {(x["n"], c["fn"], c["src"]) for x in groups[g] if not (c["vec"] and x["slow"])}
    ref = objects.apart(reference, n, seed, index, whole, sorted(want))
    lines, ids = [], {}

    def num(x):
        x = tuple(x)
        if x not in ids:
            ids[x] = len(lines) + 1
            lines.append(list(x))
        return ids[x]
    df = frame_of(n, seed, index, whole)
    rr = {k: num(v) for k, v in ref.items()}
    rr.update({"=" + c: num(show(df[c])) for c in df.columns})
    for e in ev:
        e["cols"] = {k: num(v) for k, v in e["cols"].items()} or {"-": 0}
    return {"id": id_, "lines": lines, "ref": rr, "given": list(df.columns), "ev": ev, "n": n, "seed": seed, "index": index, "whole": whole,
            "err": "; ".join(e["err"] for e in ev if e["err"])}


def jobs(check, count, salt=""):
    calls = sorted(lib.export("calls"), key=str)
    r = []
    for i in range(count):
        rng = check.rng("fr", i, salt)
        first = calls[i % len(calls)]                # every call comes first in some session
        k = rng.choice([1, 2, 2, 3])
        plan = [first] + [rng.choice(calls) for _ in range(k - 1)]
        n = rng.choice([1, 2, 5, 14, 26, 27, 40, 60, 90, 110])
        r.append((f"s{salt}.{i}", n, rng.randrange(1 << 30), rng.choice(INDEX), rng.random() < 0.3, plan,
                  [rng.choice(["keyword", "positional", "short"]) for _ in plan]))
    return r
