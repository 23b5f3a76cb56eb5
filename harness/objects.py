"""C05: lives of indicator objects (ObjLife.tla)."""
import json, os, random
import numpy as np
import pandas as pd
import lib, gen, rec, sessions

OPTIONS = ["mode.chained_assignment", "mode.copy_on_write", "mode.string_storage", "compute.use_bottleneck",
           "compute.use_numexpr", "compute.use_numba", "display.precision", "future.infer_string"]


def settings():
    return (tuple(sorted(np.geterr().items())), tuple(pd.get_option(o) for o in OPTIONS), str(np.random.get_state()[1][:8]))


def apart(fn, *a):
    """fn(*a) in a process of its own: nothing that other calls left behind can reach it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(fn(*a), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text)


def fresh_answers(m, arg, ks):
    r = []
    for k in ks:
        cols = rec.cols_of(arg["data"], arg["index"])
        n = len(cols["close"])
        try:
            obj = lib.make(m, arg["p"], arg["fn"], cols)
            r += sessions.lines_of([getattr(obj, lib.catalog()[m]["outs"][k][0])()], n)
        except Exception:
            r.append(["raised"] * n)
    return r


def stranger(who, cols):
    """Lines of an object of another class, of a function, or of add_all_ta_features, on the same series."""
    kind, m, p, fn, fi = who
    n = len(cols["close"])
    if kind == "frame":
        df = pd.DataFrame({"open": cols["close"], **cols})
        df.columns = ["o", *cols]
        r = lib.ta_module("wrapper").add_all_ta_features(df, "o", "high", "low", "close", "volume", fillna=fn)
        return sessions.lines_of([r[c] for c in r.columns], n)
    e = lib.catalog()[m]
    if kind == "function":
        name, k, hide, own = e["fns"][fi]
        f = getattr(lib.ta_module(e["mod"]), name)
        return sessions.lines_of([f(*[cols[c] for c in e["ins"]], fillna=fn)], n)
    obj = lib.make(m, p, fn, cols)
    return sessions.lines_of([getattr(obj, o[0])() for o in e["outs"]], n)


def fresh_stranger(who, arg):
    try:
        return stranger(who, rec.cols_of(arg["data"], arg["index"]))
    except Exception:
        return [["raised"] * len(arg["data"]["close"])]


def copies(cols):
    return {c: (s.to_numpy().copy(), s.index.copy(), s.name, s.dtype, dict(s.attrs), list(s.index.names))
            for c, s in cols.items()}


def untouched(cols, kept):
    return all(np.array_equal(s.to_numpy(), v, equal_nan=True) and s.dtype == d and s.index.equals(ix) and s.name == nm
               and dict(s.attrs) == at and list(s.index.names) == names
               for (c, s), (v, ix, nm, d, at, names) in ((x, kept[x[0]]) for x in cols.items()))


def play(m, args, plan, ks, shared, others=()):
    """The schedule itself. shared: columns that are equal are the very same series"""
    pool = {}
    cols, objs, ev = {}, {}, []
    for o in "abc":
        a = args["a" if o == "c" else o]
        cols[o] = {}
        for c, x in rec.cols_of(a["data"], a["index"]).items():
            cols[o][c] = pool.setdefault(json.dumps([c, a["data"][c], a["index"]]) if shared else (o, c), x)
    kept = {o: copies(cols[o]) for o in cols}
    before = settings()
    for op, o, k in plan:
        a = args["b" if o == "b" else "a"]
        n = len(a["data"]["close"])
        if op == "recycle":
            for c in cols["a"]:
                cols["a"][c].to_numpy()[:] = a["data"][c]
            objs.clear()
            cols["b"] = cols["c"] = cols["a"]
            kept = {x: copies(cols[x]) for x in cols}
            ev.append({"op": op, "obj": o, "k": k, "err": "", "o": [], "frozen": True})
            continue
        e = {"op": op, "obj": o, "k": k, "err": "", "o": []}
        try:
            if op == "other":
                e["who"] = " ".join(map(str, others[k - 1][:2]))
                e["o"] = stranger(others[k - 1], cols["a"])
            elif op == "new":
                objs[o] = lib.make(m, a["p"], a["fn"], cols[o])
            else:
                e["o"] = sessions.lines_of([getattr(objs[o], lib.catalog()[m]["outs"][ks[k - 1]][0])()], n)[0]
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"
            e["o"] = [["raised"] * n] if op == "other" else ["raised"] * n
        e["frozen"] = bool(all(untouched(cols[x], kept[x]) for x in cols) and settings() == before)
        ev.append(e)
    return ev


def expand(plan):
    """Event list of a plan (ObjTrace compares with ObjLife's)."""
    if plan[0] == "short":
        return plan[1]
    asks = lambda o, ks: [["ask", o, k] for k in ks]
    if plan[0] == "rounds":
        x, y, z, w = plan[1:]
        return ([["new", "a", 0]] + asks("a", x) + [["new", "b", 0]] + asks("b", y) + [["new", "c", 0]] + asks("a", z)
                + asks("c", w) + asks("b", x) + asks("a", x))
    x, y, z = plan[1:]
    if plan[0] == "strangers":
        other = lambda k: [["other", "d", k]]
        return (other(1) + [["new", "a", 0]] + asks("a", x) + other(2) + [["new", "b", 0]] + asks("b", y) + other(3)
                + asks("a", z) + [["new", "c", 0]] + other(1) + asks("c", y) + other(2) + asks("b", z))
    return [["new", "a", 0]] + asks("a", x) + [["recycle", "b", 0], ["new", "b", 0]] + asks("b", y) + asks("b", z)


def life(id_, m, args, plan, ks, shared, others=()):
    steps = expand(plan)
    ref = {o: apart(fresh_answers, m, args[o], ks) for o in "ab"}
    ref["d"] = [apart(fresh_stranger, who, args["a"]) for who in others]
    ev = apart(play, m, args, steps, ks, shared, others)
    return {"id": id_, "plan": plan if plan[0] != "short" else ["short"], "m": m, "p": args["a"]["p"] or {"none": 0}, "fn": args["a"]["fn"], "ref": ref, "ev": ev, "ks": ks,
            "err": "; ".join(e["err"] for e in ev if e["err"]), "len": len(args["a"]["data"]["close"])}


def other_bars(rng, d):
    """Other bars that share much with d: what a careless cache key may not tell apart."""
    n = len(d["close"])
    how = rng.choice(["new", "new", "swap", "permute", "one", "last", "first", "column", "reverse", "compensate"])
    d = {c: list(x) for c, x in d.items()}
    other = gen.bars(rng, n, *gen.style_of(rng))
    perm = None
    if how == "new":
        return gen.any_bars(rng, n, plain=0.7)
    if how == "swap" and n > 3:                          # two neighbouring interior bars change places
        i = rng.randrange(1, n - 2)
        perm = list(range(n)); perm[i], perm[i + 1] = i + 1, i
    elif how == "permute" and n > 3:
        perm = list(range(1, n - 1)); rng.shuffle(perm); perm = [0] + perm + [n - 1]
    elif how == "reverse":
        perm = list(range(n))[::-1]
    if perm:
        return {c: [d[c][i] for i in perm] for c in d}
    i = {"last": n - 1, "first": 0}.get(how, rng.randrange(n))
    if how == "column":
        c = rng.choice(sorted(d))
        d[c] = other[c] if c == "volume" else [x + (0.5 if c == "high" else -0.5 if c == "low" else 0) for x in d[c]]
        if c == "close":
            d[c] = [(h + l) / 2 for h, l in zip(d["high"], d["low"])]
    elif how == "compensate" and n > 4:                  # same first and last bar, same totals
        i = rng.randrange(1, n - 2)
        for c in ("high", "low", "close"):
            d[c][i] += 1.0; d[c][i + 1] -= 1.0
        d["volume"][i] += 1.0
        d["volume"][i + 1] = max(0.0, d["volume"][i + 1] - 1.0)
    else:
        for c in d:
            d[c][i] = other[c][i]
    return d


def strange(rng, a):
    """A stranger; its windows are often those of a, so that they can be taken for each other."""
    kind = rng.choice(["class"] * 5 + ["function", "frame"])
    m = rng.choice(list(lib.catalog()))
    e = lib.catalog()[m]
    if kind == "function" and not e["fns"]:
        kind = "class"
    p = sessions.param_case(rng, m)
    ws = [v for k, v in a["p"].items() if k.startswith("window") and k != "window_dev"]
    for k in p:
        if k.startswith("window") and k != "window_dev" and ws and rng.random() < 0.5:
            p[k] = rng.choice(ws)
    return [kind, m if kind != "frame" else "add_all_ta_features", p, a["fn"] if rng.random() < 0.7 else not a["fn"],
            rng.randrange(len(e["fns"]) or 1)]


def jobs(check, machines, per, salt=""):
    lives = lib.export("life")
    r = []
    for m in machines:
        outs = lib.catalog()[m]["outs"]
        for i in range(per):
            rng = check.rng("o", m, i, salt)
            kind = ["short", "rounds", "recycled", "rounds", "strangers"][i % 5]
            nk = min(3, len(outs)) if kind == "short" else len(outs)
            ks = rng.sample(range(len(outs)), nk)
            if kind == "short":
                plan = ["short", [[e["op"], e["obj"], e["k"]] for e in rng.choice(lives[nk - 1])]]
            else:
                plan = [kind] + [rng.sample(range(1, nk + 1), nk) for _ in range(4 if kind == "rounds" else 3)]
            p = sessions.param_case(rng, m)
            w, s = gen.total_window(p)
            n = max(1, min(120, rng.choice([1, w, w + 3, s + 5, 60, 30]))) if i % 20 != 7 else rng.choice([270, 520])
            plain = gen.bars(rng, n, gen.SHAPES[i % len(gen.SHAPES)], gen.style_of(rng)[1])   # every shape
            a = {"p": p, "fn": rng.random() < 0.5, "data": plain if rng.random() < 0.7 else gen.any_bars(rng, n, plain=0),
                 "index": rng.choice(["range", "date"])}
            b = dict(a)
            for what in rng.sample(["p", "fn", "data", "data"], rng.choice([1, 1, 2])) + ["data"] * (kind == "recycled"):
                if what == "p":
                    b["p"] = sessions.param_case(rng, m)
                elif what == "fn":
                    b["fn"] = not a["fn"]
                elif kind == "recycled" or rng.random() < 0.8:  # other bars, same length and labels
                    b["data"] = other_bars(rng, a["data"])
                else:
                    b["data"] = gen.any_bars(rng, rng.choice([n + 1, max(1, n - 1), 2 * n]), plain=0.7)
            r.append((f"{m}.o{salt}.{i}", m, {"a": a, "b": b}, plan, ks, kind == "recycled" or rng.random() < 0.5,
                      [strange(rng, a) for _ in range(3)] if kind == "strangers" else []))
    return r
