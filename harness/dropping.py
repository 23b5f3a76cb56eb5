"""C08: utils.dropna on every small frame of DropNa.tla."""
import itertools
import numpy as np
import pandas as pd
import lib, rec

DTYPE = {"float": ["float64", "float64", "float32", "Float64"], "int": ["int64", "int32", "uint8", "Int64"], "text": ["object", "string"],
         "date": ["datetime64[ns]"], "bool": ["bool", "boolean"], "span": ["timedelta64[ns]"], "null": ["Int64"], "cat": ["category"]}
NAMES = ["usual", "usual", "same", "number", "multi", "odd"]
INDEX = ["range", "date", "gaps", "down", "shuffled", "str", "neg", "float", "multi", "dup", "const", "tz", "period"]


def value(t, x):
    if t == "float":
        return float(x)
    if t in ("int", "null"):
        return pd.NA if x == "NA" else int(x)
    if t == "bool":
        return x == "True"
    if t in ("date", "span"):
        return pd.NaT if x == "NaT" else pd.Timestamp(x) if t == "date" else pd.Timedelta(x)
    return None if x == "None" else x


def missing(v):
    return v is None or v is pd.NaT or v is pd.NA or (isinstance(v, float) and v != v)


def cell(t, v):
    """The cell's name in the specification, or what it is instead."""
    for x in lib.export("cells")[t]:
        w = value(t, x)
        if missing(w) or missing(v):
            if missing(w) and missing(v):
                return x
        elif isinstance(v, str) == isinstance(w, str) and isinstance(v, (bool, np.bool_)) == isinstance(w, bool):
            try:
                if v == w and (t != "float" or np.signbit(v) == np.signbit(w)) and (
                        t not in ("int", "null") or int(v) == w):
                    return x
            except Exception:
                pass
    return repr(v)


def fits(t, k, xs):
    """Can dtype k hold the cells xs as they are?"""
    if t == "int":
        return k.lower() == "int64" or all(np.iinfo(k).min <= int(x) <= np.iinfo(k).max for x in xs)
    return k != "float32" or all(float(np.float32(x)) == float(x) or float(x) != float(x) for x in xs)


def columns(names, cs):
    k = len(cs)
    if names == "same":
        return ["x"] * k
    if names == "number":
        return list(range(k))
    if names == "multi":
        return pd.MultiIndex.from_tuples([("a", c) for c in cs])
    return [None, "", 0.5, ("t", 1), "True"][:k] if names == "odd" and k <= 5 else cs


def drop(id_, types, rows, index, dt, tag, names):
    import ta.utils
    n = len(rows)
    d = {}
    for c, t in enumerate(types):
        k = DTYPE[t][(dt + c) % len(DTYPE[t])]
        if not fits(t, k, [r[c] for r in rows]):
            k = DTYPE[t][0]
        d[f"{t}{c}"] = pd.Series([value(t, r[c]) for r in rows], dtype=k)
    if tag:                                              # a column that tells the rows apart
        d["tag"] = pd.Series([f"r{i}" for i in range(n)], dtype="object")
    df = pd.DataFrame(d)
    df.columns = columns(names, list(d))
    df.index = rec.index_of(index, n)
    keep = df.copy(deep=True)
    e = {"id": id_, "types": types, "rows": rows, "err": "", "frozen": True, "columns_kept": True, "labels_kept": True,
         "pos": [], "cells": [], "index": index}
    try:
        out = ta.utils.dropna(df)
        e["columns_kept"] = list(out.columns) == list(keep.columns)
        if tag and e["columns_kept"]:
            e["pos"] = [int(x[1:]) + 1 for x in out.iloc[:, len(types)]]
            e["labels_kept"] = list(out.index) == [keep.index[i - 1] for i in e["pos"]]
        else:
            where = {x: i + 1 for i, x in enumerate(keep.index)}
            e["pos"] = [where.get(x, 0) for x in out.index]
        if e["columns_kept"]:
            e["cells"] = [[cell(t, out.iloc[i, c]) for c, t in enumerate(types)] for i in range(len(out))]
    except Exception as x:
        e["err"] = f"{type(x).__name__}: {x}"
    e["frozen"] = bool(df.equals(keep) and list(df.dtypes) == list(keep.dtypes) and list(df.columns) == list(keep.columns)
                       and df.index.equals(keep.index))
    return e


def frames(types, n):
    cells = lib.export("cells")
    rows = list(itertools.product(*[sorted(cells[t]) for t in types]))
    return itertools.product(rows, repeat=n)


def jobs(check, key, limit=None):
    r = []
    for types, n in sorted(lib.export(key), key=str):
        rng = check.rng(key, str(types), n)
        fs = list(frames(types, n))
        if limit and len(fs) > limit:
            fs = rng.sample(fs, limit)
        for i, f in enumerate(fs):
            index = rng.choice(INDEX)
            r.append((f"{'-'.join(types)}.{n}.{i}", types, [list(x) for x in f], index, rng.randrange(12),
                      index in ("dup", "const") or rng.random() < 0.3, rng.choice(NAMES)))
    return r


def long_jobs(check, k, salt=""):
    """Frames of many rows and columns, mostly of usable cells."""
    cells = lib.export("cells")
    good = {"float": ["1.5", "-2.0", "1e-300", "8.2e307"], "int": ["7", "-3", "9007199254740993"], "text": ["x", ""], "date": ["2020-01-01"],
            "bool": ["True", "False"], "span": ["1 days", "0 days"], "null": ["7", "-3"], "cat": ["p", "q"]}
    r = []
    for i in range(k):
        rng = check.rng("long", i, salt)
        types = [rng.choice(sorted(cells)) for _ in range(rng.randint(1, 9))]
        n, bad = rng.choice([0, 1, 20, 60, 128, 257, 513, 600, 1025]), rng.choice([0.0, 0.0, 0.02, 0.1, 0.5])
        rows = [[rng.choice(cells[t] if rng.random() < bad else good[t]) for t in types] for _ in range(n)]
        index = rng.choice(INDEX)
        r.append((f"long{salt}.{i}", types, rows, index, rng.randrange(12), index in ("dup", "const") or rng.random() < 0.5,
                  rng.choice(NAMES)))
    return r
