"""C01, C02, C06, C09: sessions with one indicator (Session.tla)."""
import inspect, random
import numpy as np
import pandas as pd
import lib, gen, rec, runs

COLS = ("high", "low", "close", "volume")


def lines_of(outs, n):
    return [lib.strs(s.to_numpy()) if isinstance(s, pd.Series) and len(s) == n else ["absent"] * n for s in outs]


def failed(m, n):
    return [["raised"] * n for _ in lib.catalog()[m]["outs"]]


def ask(m, p, fn, cols):
    """-> lines, err, outs"""
    n = len(cols["close"])
    try:
        outs = lib.call_all(m, p, fn, cols)
        return lines_of(outs, n), "", outs
    except Exception as x:
        return failed(m, n), f"{type(x).__name__}: {x}", []


def head(data, n):
    return {c: data[c][:n] for c in COLS}


def concat(a, b):
    return {c: a[c] + b[c] for c in COLS}


def later_bars(rng, n, wild):
    d = gen.any_bars(rng, n, plain=0.7)
    if wild:                                     # an outlier-ridden future: nothing before it may notice
        f = rng.choice([1.0, 8.0, 64.0, 1 / 16])
        for c in ("high", "low", "close"):
            d[c] = [x * f for x in d[c]]
        d["volume"] = [v * rng.choice([1, 0, 1000]) for v in d["volume"]]
    return d


def param_case(rng, m, ahead=True):
    r = rng.random()
    if r < 0.25:
        return lib.defaults(m)
    p = gen.params(rng, m, lib.catalog()[m]["pars"], wide=r < 0.6, ahead=ahead)
    if "dropnans" in p:
        p["dropnans"] = False
    return p


def size(by, w):
    return {"one": 1, "window": max(1, w), "long": 3 * w + 7}[by]


def history(id_, m, p, fn, plan, n0, seed, index):
    """A growing / rewritten history."""
    rng = random.Random(seed)
    w, _ = gen.total_window(p)
    data = gen.any_bars(rng, n0)
    ev = []
    lines, err, _ = ask(m, p, fn, rec.cols_of(data, index))
    ev.append({"op": "ask", "o": lines, "err": err})
    for e in plan:
        n = len(data["close"])
        k = size(e["by"], w)
        if e["op"] == "extend":
            keep = n
            data = concat(data, later_bars(rng, k, True))
        else:
            k = min(k, n)
            keep = n - k
            data = concat(head(data, keep), later_bars(rng, k, True))
        lines, err, _ = ask(m, p, fn, rec.cols_of(data, index))
        ev.append({"op": e["op"], "keep": keep, "o": lines, "err": err})
    return {"id": id_, "m": m, "p": p or {"none": 0}, "fn": fn, "ev": ev, "len": len(data["close"]),
            "err": "; ".join(e["err"] for e in ev if e["err"]), "seed": seed, "plan": plan, "n0": n0, "index": index}


def history_jobs(check, machines, per, salt=""):
    plans, creep = lib.export("history"), lib.export("creep")
    jobs = []
    for m in machines:
        for i in range(per if lib.window_names(m) else 3 * per):
            rng = check.rng("h", m, i, salt)
            p = param_case(rng, m, ahead=False)   # a negative offset asks for later bars
            w, s = gen.total_window(p)
            n0 = rng.choice([1, 2, 3, w, w + 1, s, s + 2, 2 * w + 1, 40])
            n0 = max(1, min(n0, 150))
            plan = rng.choice(plans if i % 5 else creep)
            if i % 5 == 0:
                n0 = max(1, rng.choice([1, 1, 2, w, s]))
            for fn in (False, True):
                jobs.append((f"{m}.h{salt}.{i}.{'T' if fn else 'F'}", m, p, fn, plan, n0, rng.randrange(1 << 30),
                             rng.choice(["range", "date"])))
        for i in range(max(2, per // 13)):        # a history of hundreds of bars
            rng = check.rng("hl", m, i, salt)
            p = param_case(rng, m, ahead=False) if rng.random() < 0.5 else lib.defaults(m)
            plan, n0 = rng.choice([x for x in plans if len(x) <= 2]), rng.choice([270, 520, 620, 1030, 1300])
            for fn in (False, True):
                jobs.append((f"{m}.hl{salt}.{i}.{'T' if fn else 'F'}", m, p, fn, plan, n0, rng.randrange(1 << 30),
                             rng.choice(["range", "date"])))
    return jobs


def units(id_, m, p, fn, plan, n, seed, kind):
    rng = random.Random(seed)
    style, vol = gen.style_of(rng)
    if kind == "gaps":
        style, vol = rng.choice(["flat", "steps", "ties"]), rng.choice(["zeros", "mix"])
    data = gen.bars(rng, n, style, vol) if kind == "gaps" else gen.any_bars(rng, n)
    ev = []
    lines, err, _ = ask(m, p, fn, rec.cols_of(data))
    ev.append({"op": "ask", "o": lines, "err": err})
    for e in plan:
        fp, fv = 2.0 ** e["px"], 2.0 ** e["vx"]
        d = {c: [x * (fv if c == "volume" else fp) for x in data[c]] for c in COLS}
        lines, err, _ = ask(m, p, fn, rec.cols_of(d))
        ev.append({"op": "units", "px": e["px"], "vx": e["vx"], "o": lines, "err": err})
    return {"id": id_, "m": m, "p": p or {"none": 0}, "fn": fn, "ev": ev, "len": n,
            "err": "; ".join(e["err"] for e in ev if e["err"]), "seed": seed}


def units_jobs(check, machines, per, salt=""):
    ops = [x[0] for x in lib.export("units")]
    jobs = []
    for m in machines:
        for i in range(per + 1):
            rng = check.rng("u", m, i, salt)
            p = param_case(rng, m)
            w, s = gen.total_window(p)
            n = rng.choice([w + 3, s + 5, 60, 100]) if i < per else rng.choice([270, 520, 1030])
            plan = rng.sample(ops, 5 if i < per else 2)
            for fn in (False, True):
                jobs.append((f"{m}.u{salt}.{i}.{'T' if fn else 'F'}", m, p, fn, plan, n, rng.randrange(1 << 30),
                             rng.choice(["any", "gaps"])))
    return jobs


def dtype_of(d, c, values):
    """Column dtype of a form; the 64 bit one where the narrow one cannot hold the values."""
    if d.startswith("vol"):
        k = d[3:] if d != "volint" else "int64"
        k = k if c == "volume" else "float64"
    elif d == "priceint":
        k = "int64" if c != "volume" else "float64"
    else:
        k = d
    if k != "float64" and values and not (np.iinfo(k).min <= min(values) and max(values) <= np.iinfo(k).max):
        k = "int64"
    return k


def formed(data, f):
    """The same numbers in another form."""
    n = len(data["close"])
    ix = rec.index_of(f["index"], n)
    if f["names"] in ("same", "odd"):                # the index has a name, too
        ix = ix.set_names(["Time" if f["names"] == "odd" else "x"] + ["i"] * (ix.nlevels - 1))
    names = {"usual": COLS, "none": (None,) * 4, "same": ("x",) * 4, "odd": (("a", 1), 7, "Close Price", "")}[f["names"]]
    d = f["dtype"]
    r = {}
    for c, nm in zip(COLS, names):
        dt = dtype_of(d, c, data[c])
        a = np.array(data[c], dtype=dt)
        if f["layout"] == "strided":
            b = np.zeros(2 * n, dtype=dt); b[::2] = a; b[1::2] = 17; a = b[::2]
        elif f["layout"] == "reversed":
            a = a[::-1].copy()[::-1]
        elif f["layout"] == "readonly":
            a = a.copy(); a.flags.writeable = False
        r[c] = pd.Series(a, index=ix, name=nm, copy=False)
    if f["layout"] == "frame":                       # columns of one frame, rows cut out of a longer one
        df = pd.DataFrame({i: r[c] for i, c in enumerate(COLS)})
        r = {c: df[i] for i, c in enumerate(COLS)}
        for c, nm in zip(COLS, names):
            r[c].name = nm
    return r, ix


def form(id_, m, p, fn, forms, n, seed, kind):
    rng = random.Random(seed)
    if kind == "whole":
        data = gen.bars(rng, n, *gen.style_of(rng))
        k = rng.choice([1, 1, 1, 100, 400, 30000, 10 ** 7])
        data = {c: [float(round(x)) * (1 if c == "volume" else k) for x in data[c]] for c in COLS}
    else:
        data = gen.any_bars(rng, n)
    ev = []
    lines, err, _ = ask(m, p, fn, rec.cols_of(data))
    ev.append({"op": "ask", "o": lines, "err": err})
    for f in forms:
        cols, ix = formed(data, f)
        lines, err, outs = ask(m, p, fn, cols)
        kept = all(isinstance(s, pd.Series) and s.index.equals(ix) and type(s.index) is type(ix) and list(s.index.names) == list(ix.names)
                   and getattr(s.index, "dtype", None) == getattr(ix, "dtype", None) for s in outs)
        ev.append({"op": "form", "form": f, "index_kept": bool(kept), "o": lines, "err": err})
    return {"id": id_, "m": m, "p": p or {"none": 0}, "fn": fn, "ev": ev, "len": n,
            "err": "; ".join(e["err"] for e in ev if e["err"]), "seed": seed}


def form_jobs(check, machines, per, salt=""):
    kinds = lib.export("index")
    jobs = []
    for m in machines:
        for i in range(per + 2):
            rng = check.rng("f", m, i, salt)
            p = param_case(rng, m)
            w, s = gen.total_window(p)
            n = max(1, min(90, rng.choice([1, 2, w, w + 3, s + 5, 60]))) if i < per else rng.choice([270, 520, 700])
            kind = rng.choice(["whole", "whole", "any"])
            dts = [d for d in lib.export("dtype") if kind == "whole" or d == "float64"]
            if kind == "whole" and (check.tier != "quick" or m in lib.export("narrowly")):
                dts = dts + lib.export("narrow")
            forms = [{"index": k, "dtype": rng.choice(dts), "layout": rng.choice(lib.export("layout")),
                      "names": rng.choice(lib.export("names"))} for k in (kinds if i < per else rng.sample(kinds, 3))]
            for fn in (False, True):
                jobs.append((f"{m}.f{salt}.{i}.{'T' if fn else 'F'}", m, p, fn, forms, n, rng.randrange(1 << 30), kind))
    return jobs


def hidden(m, p, hide):
    d = lib.defaults(m)
    return {k: (d[k] if k in hide else v) for k, v in p.items()}


def api(id_, m, fi, style, p, fn, n, seed):
    """One module-level function (fi >= 0) or the constructor (fi = -1) in one calling style."""
    rng = random.Random(seed)
    data = gen.any_bars(rng, n)
    e = lib.catalog()[m]
    cols = rec.cols_of(data)
    f = e["fns"][fi] if fi >= 0 else None
    d = lib.defaults(m)
    if style in ("defaults", "bare"):
        p = dict(d)
        if f:
            p.update({k: v for k, v in f[3]})
    elif f:
        p = hidden(m, p, f[2])
    given = [k for k, _, _ in e["pars"] if k in p and not (f and k in f[2])]
    late = [k for k in given if k in lib.export("late")[m]]     # switches documented after fillna come after it
    if style.startswith("but "):                  # one argument left out
        given = [k for k in given if k != style[4:]]
        p = {k: v if k in given else dict(d, **({a: b for a, b in f[3]} if f else {}))[k] for k, v in p.items()}
    elif style in ("some", "leading"):            # some arguments left out: any by name, or all from one on
        given = [k for k in given if k not in late] + (["fillna"] + late if style == "leading" else late)
        given = rng.sample(given, rng.randrange(len(given) or 1)) if style == "some" else given[:rng.randrange(len(given) or 1)]
        o = dict(d, **({k: v for k, v in f[3]} if f else {}))
        p = {k: v if k in given else o[k] for k, v in p.items()}
        if style == "leading":
            fn = fn and "fillna" in given
    if style == "bare":
        fn = False
    lines, err, _ = ask(m, p, fn, cols)
    ev = [{"op": "ask", "o": lines, "err": err}]
    ins = [cols[c] for c in e["ins"]]
    py = lib.py_params(m, p)
    if f:
        py = {k: v for k, v in py.items() if k not in f[2]}
    target = getattr(lib.ta_module(e["mod"]), f[0] if f else e["cls"])
    if style == "numpy":                          # the same numbers as numpy's scalars
        py = {k: v if v is None else np.bool_(v) if isinstance(v, bool) else rng.choice([np.int64, np.int32])(v) if isinstance(v, int) else np.float64(v)
              for k, v in py.items()}
    try:
        if style == "numpy":
            r = target(**dict(zip(e["ins"], ins)), **py, fillna=rng.choice([np.bool_, int])(fn))
        elif style == "keyword":
            r = target(**dict(zip(e["ins"], ins)), **py, fillna=fn)
        elif style == "positional":
            r = target(*ins, *[py[k] for k in given if k not in late], fn, *[py[k] for k in late])
        elif style == "some" or style.startswith("but "):
            r = target(**dict(zip(e["ins"], ins)), **{k: py[k] for k in given}, **({"fillna": True} if fn else {}))
        elif style == "leading":
            r = target(*ins, *[fn if k == "fillna" else py[k] for k in given])
        elif style == "defaults":
            r = target(*ins, fillna=fn)
        else:
            r = target(*ins)
        outs = [r] if f else [getattr(r, o[0])() for o in e["outs"]]
        o, err = lines_of(outs, n), ""
    except Exception as x:
        o, err = [["raised"] * n] * (1 if f else len(e["outs"])), f"{type(x).__name__}: {x}"
    if f:
        ev.append({"op": "func", "f": f[0], "k": f[1], "style": style, "o": o, "err": err})
    else:
        ev.append({"op": "ctor", "style": style, "o": o, "err": err})
    return {"id": id_, "m": m, "p": p or {"none": 0}, "fn": fn, "ev": ev, "len": n,
            "err": "; ".join(x["err"] for x in ev if x["err"]), "seed": seed}


def rotated(xs, i, k):
    return [xs[(i + j) % len(xs)] for j in range(min(k, len(xs)))]


def api_jobs(check, machines, per, salt=""):
    jobs = []
    for m in machines:
        e = lib.catalog()[m]
        for fi in range(-1, len(e["fns"])):
            pars = [k for k, _, _ in e["pars"] if fi < 0 or k not in e["fns"][fi][2]]
            for i in range(per):
                styles = ["keyword", "positional", "defaults", "bare", "some", "leading", "numpy"]
                if len(pars) > 1:
                    styles += ["but " + k for k in rotated(pars, i, 1 if i % 2 else 2)]
                for style in styles:
                    if fi < 0 and style not in ("keyword", "positional", "numpy") and m in lib.export("demanding"):
                        continue
                    rng = check.rng("a", m, fi, i, style, salt)
                    p = param_case(rng, m)
                    if fi >= 0 and style != "defaults" and m == "vpt":
                        p["dropnans"] = False
                    w, s = gen.total_window(lib.defaults(m) if style in ("defaults", "bare") else p)
                    if style not in ("keyword", "positional", "numpy"):
                        s = max(s, gen.total_window(lib.defaults(m))[1])
                    n = rng.choice([s + 12, s + 30, 70])
                    fn = rng.random() < 0.5
                    name = e["fns"][fi][0] if fi >= 0 else "ctor"
                    jobs.append((f"{m}.{name}.{style}.{salt}{i}", m, fi, style, p, fn, n, rng.randrange(1 << 30)))
    return jobs


def named(id_, m, p, fn, n, forms, seed):
    """Names of the lines of the class and of every function, on input called and indexed in different ways."""
    rng = random.Random(seed)
    data = gen.any_bars(rng, n)
    e = lib.catalog()[m]
    ev = []
    for f in forms:
        cols, ix = formed(data, f)
        ins = [cols[c] for c in e["ins"]]
        for k, fx in [(0, None)] + [(x[1], x) for x in e["fns"]]:
            q = hidden(m, p, fx[2]) if fx else p
            v = {"op": "named", "k": k, "p": q or {"none": 0}, "names": [], "err": "", "o": []}
            try:
                if fx:
                    py = {a: b for a, b in lib.py_params(m, q).items() if a not in fx[2]}
                    outs = [getattr(lib.ta_module(e["mod"]), fx[0])(*ins, **py, fillna=fn)]
                else:
                    obj = lib.make(m, p, fn, cols)
                    outs = [getattr(obj, o[0])() for o in e["outs"]]
                v["names"] = [x.name if isinstance(x.name, str) else repr(x.name) for x in outs]
                v["o"] = [["raised"] if not isinstance(x, pd.Series) else ["0.0"] for x in outs]
            except Exception as x:
                v["err"], v["o"] = f"{type(x).__name__}: {x}", [["raised"]]
            ev.append(v)
    return {"id": id_, "m": m, "p": p or {"none": 0}, "fn": fn, "ev": ev, "len": n,
            "err": "; ".join(x["err"] for x in ev if x["err"]), "seed": seed}


def named_jobs(check, machines, per, salt=""):
    jobs = []
    x = lib.export
    for m in machines:
        for i in range(per):
            rng = check.rng("n", m, i, salt)
            p = param_case(rng, m)
            n = rng.choice([1, 2, gen.total_window(p)[1] + rng.randint(1, 20)])
            forms = [{"index": rng.choice(x("index")), "dtype": "float64", "layout": rng.choice(x("layout")),
                      "names": rng.choice(x("names"))} for _ in range(2)]
            jobs.append((f"{m}.n{salt}.{i}", m, p, rng.random() < 0.5, n, forms, rng.randrange(1 << 30)))
    return jobs


def run_job(kind, *a):
    return {"named": named, "history": history, "units": units, "form": form, "api": api}[kind](*a)
