"""C20..C22: runs held to Laws.tla, alone or next to a second run on related bars (TwinTrace.tla)."""
import random
import lib, gen, rec, runs

COLS = ("high", "low", "close", "volume")


def twin(id_, m, p, fn, data, rel, cut=0, g=1, d=0.0, index="range"):
    t = rec.record(id_, m, p, fn, data, index)
    t.update(rel=rel, cut=cut, g=g, d=lib.fmt(d))
    if rel == "law":
        return t
    if rel == "past":
        b = {c: data[c][cut:] for c in COLS}
    else:
        hi, lo = ("high", "low") if g == 1 else ("low", "high")
        b = {"high": [g * x + d for x in data[hi]], "low": [g * x + d for x in data[lo]],
             "close": [g * x + d for x in data["close"]], "volume": data["volume"]}
    u = rec.record(id_, m, p, fn, b, index)
    t.update(h2=u["h"], l2=u["l"], c2=u["c"], v2=u["v"], o2=u["o"], sc2=u["sc"],
             err="; ".join(x for x in (t["err"], u["err"]) if x))
    return t


def tame(m, p):
    if "dropnans" in p:
        p["dropnans"] = False
    return p


def law_jobs(check, machines, times, salt=""):
    mix = {"oneway": 4, "default": 1, "edge": 3, "gaps": 3, "small": 4, "mid": 3, "scale": 2, "big": 1}
    jobs = []
    for m in machines:
        for kind, k in mix.items():
            for i in range(k * times):
                rng = check.rng("law", m, kind, i, salt)
                p, data = runs.random_case(rng, m, kind)
                data = {c: x[:160] for c, x in data.items()}
                for fn in (False, True):
                    jobs.append((f"{m}.law.{kind}{salt}.{i}.{'T' if fn else 'F'}", m, tame(m, p), fn, data, "law"))
        small = 5 if len(lib.export("scope")[m]["bars"]) <= 3 else 4
        for j in runs.scope_jobs(m, small, limit=12 * times, rng=check.rng("law", m, salt)):
            jobs.append((f"{salt}.{j[0]}",) + j[1:2] + (tame(m, dict(j[2])),) + j[3:5] + ("law",))
    return jobs


def past_jobs(check, machines, per, salt=""):
    """A past of another kind (other price level, other volumes) before the bars that count."""
    fading = set(lib.export("fading"))
    jobs = []
    for m in machines:
        fades = m in fading
        if m == "kama":
            continue
        wide = [] if fades else [w for w in lib.window_names(m) for _ in range(max(1, per // 6))]    # one window much longer
        tiny = [] if fades else [(w, a) for w in lib.window_names(m) for a in (1, 2, 3)] * 2
        for i in range(per + len(wide) + len(tiny)):
            rng = check.rng("past", m, i, salt)
            p = gen.params(rng, m, lib.catalog()[m]["pars"], wide=not fades and rng.random() < 0.6)
            if fades:
                for w in lib.window_names(m):
                    p[w] = rng.choice([1, 2, 2, 3, 3, 4])
            elif rng.random() < 0.2:
                p = lib.defaults(m)
            if i >= per + len(wide):
                x, a = tiny[i - per - len(wide)]
                p[x] = a
            elif i >= per:
                p[wide[i - per]] = rng.choice([30, 36, 50, 64])
            p = tame(m, p)
            w, s = gen.total_window(p)
            cut = rng.choice([1, 2, 3, 5, 8, w, w + 1, 20, 33])
            cut = max(1, min(cut, 40))
            n = cut + (45 * s * (2 if m in ("mass", "trix", "adx") else 1) * (2 if m == "trix" else 1) + 15 if fades
                       else 2 * s + 12 + rng.randint(0, 30))
            style, vol = gen.style_of(rng)
            if style in ("flat", "ties") and fades:
                style = "walk"
            data = gen.bars(rng, n, style, vol)
            old = gen.bars(rng, cut, *gen.style_of(rng), scale=rng.choice([1.0, 8.0, 64.0, 0.125, 2.0 ** 14]))
            if not fades and rng.random() < 0.25:     # the bars that count begin with a standstill
                for t in range(cut, min(n, cut + w + rng.randint(0, w + 2))):
                    for c in ("high", "low", "close"):
                        data[c][t] = data["close"][cut]
                    data["volume"][t] = data["volume"][t] * rng.choice([0, 1])
            old["volume"] = [x * rng.choice([0, 1, 1, 1024]) for x in old["volume"]]
            data = {c: old[c] + data[c][cut:] for c in COLS}
            if rng.random() < 0.3:
                data = gen.loosen(rng, data)
            for fn in (False, True):
                jobs.append((f"{m}.past{salt}.{i}.{'T' if fn else 'F'}", m, p, fn, data, "past", cut))
    return jobs


def turn_jobs(check, machines, per, salt=""):
    jobs = []
    turning = set(lib.export("turning"))
    for m in machines:
        if m not in turning:
            continue
        for i in range(per):
            rng = check.rng("turn", m, i, salt)
            kind = rng.choice(["edge", "edge", "gaps", "small", "mid", "mid", "default"])
            p, data = runs.random_case(rng, m, kind)
            p = tame(m, p)
            if rng.random() < 0.3:
                data = gen.loosen(rng, data)
                data = {c: [round(x * 256) / 256 for x in v] for c, v in data.items()}
            g = rng.choice([1, -1])
            top = max(max(data["high"]), max(data["close"]))
            d = (rng.choice([0.5, 16.0, 100.0, 4096.0, 2.0 ** 20, 2.0 ** 25]) if g == 1
                 else float(int(top) + rng.choice([2, 40, 1000, 2 ** 20])))
            f = rng.choice([1.0, 1.0, 1.0, 2.0 ** -6])    # smaller moves
            data = {c: x if c == "volume" else [f * y for y in x] for c, x in data.items()}
            for fn in (False, True):
                jobs.append((f"{m}.turn{salt}.{i}.{'T' if fn else 'F'}", m, p, fn, data, "turn", 0, g, d))
    return jobs
