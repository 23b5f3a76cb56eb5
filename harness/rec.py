"""Recording runs of the implementation as traces."""
import random
import numpy as np
import pandas as pd
import lib


def index_of(kind, n):
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "date":
        return pd.date_range("2020-01-01", periods=n, freq="D")
    if kind == "tz":
        return pd.date_range("2020-01-01", periods=n, freq="h", tz="Europe/Madrid")
    if kind == "gaps":
        return pd.Index([3 * i + 5 for i in range(n)])
    if kind == "down":
        return pd.Index(list(range(n, 0, -1)))
    if kind == "shuffled":
        r = random.Random(n); x = list(range(n)); r.shuffle(x)
        return pd.Index(x)
    if kind == "dup":
        return pd.Index([i // 2 for i in range(n)])
    if kind == "str":
        return pd.Index([f"r{i:04d}" for i in range(n)])
    if kind == "float":
        return pd.Index([i * 0.5 + 0.25 for i in range(n)])
    if kind == "neg":
        return pd.Index([i - n // 2 for i in range(n)])
    if kind == "multi":
        return pd.MultiIndex.from_arrays([["A"] * n, list(range(n))])
    if kind == "latest":                                  # dates, the latest first
        return pd.date_range("2020-01-01", periods=n, freq="D")[::-1]
    if kind == "mixed":                                   # dates in no order
        r = random.Random(n); x = list(range(n)); r.shuffle(x)
        return pd.DatetimeIndex([pd.Timestamp("2020-01-01") + pd.Timedelta(hours=i) for i in x])
    if kind == "period":
        return pd.period_range("2001-01", periods=n, freq="M")
    if kind == "const":
        return pd.Index([7] * n)
    if kind == "spans":
        return pd.timedelta_range("1h", periods=n, freq="h")
    if kind == "category":
        return pd.CategoricalIndex([f"c{i % 5}" for i in range(n)])
    if kind == "missing":                                 # labels that are NaN
        return pd.Index([np.nan if i % 4 == 1 else float(i) for i in range(n)])
    if kind == "nodate":                                  # labels that are NaT
        return pd.DatetimeIndex([pd.NaT if i % 4 == 1 else pd.Timestamp("2020-01-01") + pd.Timedelta(days=i) for i in range(n)])
    if kind == "objects":
        return pd.Index([[i, f"s{i}", None, (i, 1), pd.Timestamp("2020-01-01")][i % 5] for i in range(n)], dtype=object,
                        tupleize_cols=False)
    if kind == "dst":                                     # the clock is set back
        return pd.date_range("2020-10-24 22:00", periods=n, freq="30min", tz="Europe/Madrid")
    if kind == "between":
        return pd.interval_range(0, n) if n else pd.RangeIndex(0)
    if kind == "levels":                                  # multi-level, neither unique nor in order
        return pd.MultiIndex.from_arrays([[f"{'BA'[i % 2]}" for i in range(n)], [i // 4 for i in range(n)]])
    if kind == "bool":
        return pd.Index([i % 3 == 0 for i in range(n)], dtype=bool)
    if kind == "huge":
        return pd.Index([2 ** 63 + n - i for i in range(n)], dtype="uint64")
    if kind == "steps":
        return pd.RangeIndex(3 * n, 0, -3)
    raise ValueError(kind)


def cols_of(data, index="range", dtype="float64", names=None):
    """data: dict of lists -> dict of Series"""
    n = len(data["close"])
    ix = index_of(index, n) if isinstance(index, str) else index
    r = {}
    for c in ("high", "low", "close", "volume"):
        dt = dtype if dtype != "volint" else ("int64" if c == "volume" else "float64")
        r[c] = pd.Series(np.array(data[c], dtype=dt), index=ix, name=(names or {}).get(c, c))
    return r


def out_strs(series, n, index, drops):
    """Rows of an output line as strings, by position; 'absent' where a row is missing."""
    if not isinstance(series, pd.Series):
        return ["absent"] * n
    if drops:
        pos = {x: i for i, x in enumerate(index)}
        r = ["absent"] * n
        for x, v in zip(series.index, series.to_numpy()):
            if x not in pos:
                return ["absent"] * n
            r[pos[x]] = lib.fmt(v)
        return r
    if len(series) != n:
        return ["absent"] * n
    return lib.strs(series.to_numpy())


def record(id_, m, p, fn, data, index="range", dtype="float64"):
    """One trace: run indicator m on data and write down what it returned."""
    cols = cols_of(data, index, dtype)
    n = len(data["close"])
    e = lib.catalog()[m]
    drops = bool(p.get("dropnans"))
    err = None
    try:
        outs = lib.call_all(m, p, fn, cols)
        o = [out_strs(s, n, cols["close"].index, drops) for s in outs]
    except Exception as x:                       # the call itself failing is a verdict of the spec
        err = f"{type(x).__name__}: {x}"
        o = [["raised"] * n for _ in e["outs"]]
    need = set(e["ins"])
    col = lambda c: lib.strs(data[c]) if c in need else ["nan"] * n
    sc = []
    for x in o:
        a = [abs(float(v)) for v in x if v not in ("nan", "inf", "-inf", "absent", "raised")]
        sc.append(lib.fmt(max(a)) if a else "0.0")
    return {"id": id_, "m": m, "p": p if p else {"none": 0}, "fn": fn, "h": col("high"), "l": col("low"),
            "c": col("close"), "v": col("volume"), "o": o, "sc": sc, "err": err or "", "index": index, "dtype": dtype}
