"""C23, C24: indicators next to the indicators they are made of, and next to themselves with other parameters
(Schemes.tla, SchemeTrace.tla)."""
import lib, gen, rec, runs

COLS = ("high", "low", "close", "volume")
GAPS = ("nan", "absent", "raised", "inf", "-inf")


def table(kind):
    return [s for s in lib.export("schemes") if s["kind"] == kind]


def nums(line):
    return [float("nan") if x in GAPS else float(x) for x in line]


def quantity(what, d):
    """The quantities a scheme may feed, in doubles."""
    h, l, c, v = (d[x] for x in COLS)
    n = range(len(c))
    nan = float("nan")

    def money(g):
        t = [(h[i] + l[i] + c[i]) / 3.0 for i in n]
        return [t[i] * v[i] if i and g * (t[i] - t[i - 1]) > 0 else 0.0 for i in n]
    move = [nan] + [c[i] - c[i - 1] for i in n if i]
    return {"volume": lambda: list(v),
            "middle": lambda: [0.5 * (h[i] + l[i]) for i in n],
            "typical": lambda: [(h[i] + l[i] + c[i]) / 3.0 for i in n],
            "typical volume": lambda: [(h[i] + l[i] + c[i]) / 3.0 * v[i] for i in n],
            "kc high": lambda: [(4 * h[i] - 2 * l[i] + c[i]) / 3.0 for i in n],
            "kc low": lambda: [(4 * l[i] - 2 * h[i] + c[i]) / 3.0 for i in n],
            "range": lambda: [h[i] - l[i] for i in n],
            "square": lambda: [c[i] * c[i] for i in n],
            "change": lambda: move,
            "size of change": lambda: [abs(x) for x in move],
            "close": lambda: list(c),
            "true range": lambda: [max(h[i], c[i - 1]) - min(l[i], c[i - 1]) if i else h[i] - l[i] for i in n],
            "up move": lambda: [nan] + [abs(h[i] - l[i - 1]) for i in n if i],
            "down move": lambda: [nan] + [abs(l[i] - h[i - 1]) for i in n if i],
            "money in": lambda: money(1),
            "money out": lambda: money(-1),
            "gain": lambda: [x if x > 0 else 0.0 for x in move],
            "loss": lambda: [-x if x < 0 else 0.0 for x in move],
            "flow": lambda: [move[i] * v[i] for i in n]}[what]()


def params_of(rng, m, p, x):
    """Parameters of a further run x after the first run of m with p."""
    q = {n: d for n, k, d in lib.catalog()[x["m"]]["pars"]}
    if x["m"] == m:
        q.update(p)
    for n, how, a in x["par"]:
        if how == "eq":
            q[n] = p[a] if n != "window" else max(1, p[a])
        elif how == "is":
            q[n] = a
        elif how == "twice":
            q[n] = 2 * p[a]
        elif how == "odd":
            q[n] = 2 * p[a] - 1
        else:
            for _ in range(8):
                q[n] = gen.params(rng, x["m"], lib.catalog()[x["m"]]["pars"], wide=rng.random() < 0.5)[n]
                if q[n] != p[n]:
                    break
    return q


def scheme(id_, sid, plist, fn, data):
    """plist: parameters of all runs."""
    s = [x for x in lib.export("schemes") if x["id"] == sid][0]
    todo = [dict(m=s["m"], src=["bar"], fn="same")] + s["runs"]
    done = []
    for x, p in zip(todo, plist):
        src = x["src"]
        if src[0] == "bar":
            d = data
        else:
            if src[0] == "on":
                line = nums(done[src[1] - 1]["o"][src[2] - 1])
            elif src[0] == "ratio":
                a, b = (nums(done[i - 1]["o"][0]) for i in src[1:3])
                line = [u / w if w else float("nan") for u, w in zip(a, b)]
            else:
                line = quantity(src[1], data)
            d = {"high": line, "low": line, "close": line, "volume": data["volume"]}
        f = {"on": True, "off": False, "not": not fn}.get(x["fn"], fn)
        done.append(rec.record(id_, x["m"], p, f, d))
    t = {"id": id_, "scheme": sid, "m": s["m"], "p": done[0]["p"], "fn": fn,
         "err": "; ".join(r["err"] for r in done if r["err"]),
         "runs": [{k: r[k] for k in ("m", "p", "fn", "h", "l", "c", "v", "o", "sc")} for r in done]}
    for k, c in zip("hlcv", COLS):
        t[k] = lib.strs(data[c])
    return t


MIX = {"default": 1, "edge": 3, "gaps": 3, "small": 4, "mid": 4, "scale": 1, "oneway": 1, "loose": 2, "level": 1}


def jobs(check, kind, times, salt=""):
    r = []
    for s in table(kind):
        for k, n in MIX.items():
            for i in range(n * times):
                rng = check.rng(s["id"], k, i, salt)
                p, data = runs.random_case(rng, s["m"], k)
                data = {c: v[:110] for c, v in data.items()}
                for a, b in s["force"]:
                    p[a] = b
                if "offset" in p:
                    p["offset"] = abs(p["offset"])
                plist = [p] + [params_of(rng, s["m"], p, x) for x in s["runs"]]
                for fn in s["fns"]:
                    r.append((f"{s['id']}.{k}{salt}.{i}.{'T' if fn else 'F'}", s["id"], plist, fn, data))
    return r
