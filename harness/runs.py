"""C03, C04, C10..C19: recorded runs of single indicators, judged by Trace.tla."""
import itertools, random
import lib, gen, rec

FAMILIES = {
    "C10": ["sma", "ema", "wma", "kama", "macd", "ppo", "pvo", "trix"],
    "C11": ["rsi", "stochrsi", "stoch", "wr", "uo", "tsi", "aroon", "stc"],
    "C12": ["bb", "kc", "dc", "ichimoku"],
    "C13": ["atr", "adx"],
    "C14": ["psar"],
    "C15": ["obv", "adi", "vpt", "nvi"],
    "C16": ["cmf", "mfi", "vwap", "eom", "fi"],
    "C17": ["dr", "dlr", "cr", "roc", "kst"],
    "C18": ["cci", "mass", "vortex", "ui", "ao", "dpo"],
}
ALL = [m for ms in FAMILIES.values() for m in ms]
SCALES = [1.0, 1.0, 1.0, 0.01, 0.37, 2.0 ** -20, 2.0 ** 20, 1e-5, 1234.5, 1e6, 1e-8, 1e8]
VSCALES = [1.0, 1.0, 1.0, 0.5, 0.123, 1e-6, 1e4, 1e-9, 1e7]


# a window with a missing input has no value: machines for which the implementation keeps to that on every row
HOLES = {"sma", "ema", "macd", "ppo", "pvo", "trix", "rsi", "stochrsi", "stoch", "wr", "tsi", "stc", "bb", "dc", "ichimoku",
         "cmf", "vwap", "eom", "fi", "dr", "dlr", "roc", "kst", "mass", "ui", "ao", "dpo", "aroon"}

# prices below zero mean nothing to a logarithm or a flow of money
POSITIVE = {"dlr", "mfi"}


def random_case(rng, m, kind, ahead=False):
    """-> p, data"""
    e = lib.catalog()[m]
    d = lib.defaults(m)
    style, vol = gen.style_of(rng)
    scale, vscale = 1.0, 1.0
    if kind == "long":
        p, n = d, rng.randint(260, 420)
    elif kind == "default":
        p, n = d, rng.randint(60, 160)
    elif kind == "edge":
        p = gen.params(rng, m, e["pars"])
        w, s = gen.total_window(p)
        n = max(1, rng.choice([1, 2, 3, w - 1, w, w + 1, w + 2, 2 * w - 1, 2 * w, 2 * w + 1, s - 1, s, s + 1]))
        n = min(n, 220)
    elif kind == "big":
        p = dict(d)
        ws = lib.window_names(m)
        for w in ws and rng.sample(ws, rng.choice([1, 1, len(ws)])):
            p[w] = rng.choice([40, 60, 100] + gen.BIGW)
        n = rng.randint(110, 300)
    elif kind == "huge":                          # one window of a year, or all of about half a year
        p = dict(d)
        ws = lib.window_names(m)
        k = rng.random() < 0.5 or len(ws) == 1
        for w in ws and (rng.sample(ws, 1) if k else ws):
            p[w] = rng.choice([200, 252, 300] if k else [101, 120, 130])
        n = min(600, rng.randint(20, 60) + (310 if k else gen.total_window(p)[1]))
    elif kind == "verylong":
        p, n = (d if rng.random() < 0.5 else gen.params(rng, m, e["pars"])), rng.randint(600, 1300)
    elif kind == "epic":
        p, n = d, rng.randint(2200, 4200)
    elif kind == "scale":
        p = gen.params(rng, m, e["pars"]) if rng.random() < 0.6 else d
        n = rng.randint(20, 90)
        scale, vscale = rng.choice(SCALES), rng.choice(VSCALES)
    elif kind in ("loose", "neg", "holes"):       # closes beyond the bar; prices below zero; missing inputs
        p = gen.params(rng, m, e["pars"], wide=rng.random() < 0.6, ahead=ahead) if rng.random() < 0.8 else d
        n = rng.randint(8, 80)
    elif kind == "level":                         # small moves at a high price level
        p = gen.params(rng, m, e["pars"], wide=rng.random() < 0.6, ahead=ahead) if rng.random() < 0.8 else d
        n = rng.randint(20, 90)
    elif kind == "gaps":                          # makes interior gaps: flat stretches, no volume
        p = gen.params(rng, m, e["pars"], wide=False) if rng.random() < 0.7 else gen.params(rng, m, e["pars"])
        n = rng.randint(12, 70)
        style, vol = rng.choice(["flat", "flat", "steps", "ties"]), rng.choice(["zeros", "zeros", "mix", "dead"])
    elif kind == "oneway":
        p = gen.params(rng, m, e["pars"], wide=rng.random() < 0.5)
        n = rng.randint(8, 50)
        style = rng.choice(["tops", "bottoms", "lift", "up", "down"])
    elif kind == "halt":                          # trading stops for long
        p = gen.params(rng, m, e["pars"], wide=rng.random() < 0.5)
        n = rng.randint(110, 200)
    elif kind == "small":
        p = gen.params(rng, m, e["pars"], wide=False)
        n = rng.randint(1, 30)
    else:                                         # "mid"
        p = gen.params(rng, m, e["pars"], ahead=ahead)
        n = rng.randint(25, 110)
    data = gen.bars(rng, n, style, vol, scale)
    if vscale != 1.0:
        data["volume"] = [v * vscale for v in data["volume"]]
    if kind == "halt":
        gen.halt(rng, data, rng.randint(70, n - 12))
    elif kind == "loose":
        gen.loosen(rng, data)
    elif kind == "neg":
        gen.below_zero(rng, data)
    elif kind == "level":
        k, f = 2.0 ** rng.choice([10, 14, 16, 20, 24, 27]), rng.choice([1.0, 1.0, 2.0 ** -6, 2.0 ** -9])
        for c in ("high", "low", "close"):
            data[c] = [x * f + k for x in data[c]]
    elif kind == "holes":
        data = gen.holes(rng, data)
    return p, data


MIX = {"quick": {"long": 1, "default": 2, "edge": 6, "big": 1, "scale": 7, "gaps": 6, "small": 6, "mid": 5, "loose": 2,
                 "neg": 2},
       "deep": {"long": 3, "default": 8, "edge": 40, "big": 4, "scale": 36, "gaps": 36, "small": 30, "mid": 30, "loose": 12,
                "neg": 12},
       "fill+": {"halt": 4, "oneway": 2, "big": 1}, "warm+": {"halt": 1, "oneway": 2, "big": 2, "huge": 1},
       "total+": {"huge": 3, "verylong": 1, "epic": 1, "oneway": 2, "halt": 1, "loose": 1, "big": 1, "default": 1},
       # for the values of the lines only
       "quick+": {"oneway": 1, "halt": 1, "level": 2, "big": 2, "huge": 2, "verylong": 1, "epic": 1, "holes": 3, "loose": 2},
       "deep+": {"oneway": 6, "halt": 5, "level": 10, "big": 8, "huge": 6, "verylong": 4, "epic": 2, "holes": 16, "loose": 8}}


def run_job(id_, m, p, fn, data, index, dtype):
    return rec.record(id_, m, p, fn, data, index, dtype)


def random_jobs(check, machines, tier, fns=(False, True), kinds=None, salt=0, times=1, ahead=False):
    jobs = []
    for m in machines:
        for kind, k in MIX[tier].items():
            if kinds and kind not in kinds or kind == "holes" and m not in HOLES or kind == "neg" and m in POSITIVE:
                continue
            for i in range(k * times):
                rng = check.rng(m, kind, i, salt)
                p, data = random_case(rng, m, kind, ahead)
                index = rng.choice(["range", "range", "date", "gaps"])
                for fn in fns:
                    jobs.append((f"{m}.{kind}.{tier}.{salt}.{i}.{'T' if fn else 'F'}", m, p, fn, data, index, "float64"))
    return jobs


def param_jobs(check, machines, times=1, fns=(False, True), salt=0):
    """One parameter unlike the others: windows of 1, 2 or much more than the rest, other factors, switches."""
    jobs = []
    for m in machines:
        pars = lib.catalog()[m]["pars"]
        for n, k, d in pars:
            vals = {"w": [1, 2, "more", "less"], "k": [1, "more"], "b": [True, False], "f": ["x", "y", "z"]}[k]
            for a in vals * times:
                i = len(jobs)
                rng = check.rng(m, "param", n, i, salt)
                p = gen.params(rng, m, pars, wide=rng.random() < 0.4) if rng.random() < 0.7 else lib.defaults(m)
                ws = [p[x] for x in lib.window_names(m) if x != n and not x.startswith("pow")] or [5]
                if k == "b" or isinstance(a, int):
                    p[n] = a
                elif k == "f":
                    p[n] = gen.params(rng, m, pars)[n]
                elif n.startswith("pow"):
                    p[n] = rng.choice([1, 2, 3, 50])
                else:
                    p[n] = max(ws) + rng.choice([1, 3, 8]) if a == "more" else max(1, min(ws) - rng.choice([1, 2]))
                data = gen.bars(rng, min(230, gen.total_window(p)[1] + rng.randint(5, 25)), *gen.style_of(rng))
                for fn in fns:
                    jobs.append((f"{m}.param.{n}.{a}.{salt}.{i}.{'T' if fn else 'F'}", m, p, fn, data, "range", "float64"))
    return jobs


def scope_jobs(m, length, fns=(False, True), limit=None, rng=None):
    """All histories of the given length over the small alphabet of SmallScope.tla."""
    sc = lib.export("scope")[m]
    jobs = []
    for pi, p in enumerate(sc["params"]):
        p = p if isinstance(p, dict) else {}
        hs = list(itertools.product(range(len(sc["bars"])), repeat=length))
        if limit and len(hs) > limit:
            hs = rng.sample(hs, limit)
        for h in hs:
            b = [sc["bars"][x] for x in h]
            data = {"high": [float(x[0]) for x in b], "low": [float(x[1]) for x in b],
                    "close": [float(x[2]) for x in b], "volume": [float(x[3]) for x in b]}
            for fn in fns:
                jobs.append((f"{m}.scope{length}.{pi}.{''.join(map(str, h))}.{'T' if fn else 'F'}", m, p, fn, data,
                             "range", "float64"))
    return jobs


def edge_jobs(check, machines, per, salt=0):
    """Short histories, extreme windows, every index kind and dtype."""
    jobs = []
    kinds = sorted(lib.export("index"))
    for m in machines:
        for i in range(per):
            rng = check.rng(m, "edge", i, salt)
            e = lib.catalog()[m]
            p = gen.params(rng, m, e["pars"], wide=rng.random() < 0.5, ahead=True) if rng.random() < 0.8 else lib.defaults(m)
            if rng.random() < 0.3 and lib.window_names(m):
                p[rng.choice(lib.window_names(m))] = rng.choice([1, 50, 300])
            w, s = gen.total_window(p)
            n = max(1, rng.choice([1, 1, 2, 3, 4, 5, w - 1, w, w + 1, s, 30]))
            n = min(n, 60)
            data = gen.bars(rng, n, *gen.style_of(rng))
            whole = rng.random() < 0.4
            style = rng.random()
            if not whole and style < 0.5:             # closes beyond the bar, below zero, missing values
                data = (gen.loosen if style < 0.1 else gen.below_zero if style < 0.2 else gen.holes)(rng, data)
            if whole:
                data = {c: [float(round(x)) for x in data[c]] for c in data}
            index = rng.choice(kinds)
            ix = rec.index_of(index, n)
            if p.get("dropnans") and not (ix.is_unique and (ix.nlevels > 1 or not ix.hasnans)):
                index = "range"                       # rows are told apart by their labels
            jobs.append((f"{m}.edge.{salt}.{i}", m, p, rng.random() < 0.5, data, index,
                         rng.choice(["int64", "volint"]) if whole else "float64"))
    return jobs
