"""Input histories.  Prices lie on a dyadic grid (multiples of scale/256) and volumes are
integers, so that first-level sums in the implementation are exact and ties are real ties."""
import random

STYLES = ["walk", "walk", "walk", "up", "down", "ties", "flat", "zigzag", "spike", "steps", "turn", "wild", "crash", "open"]
VOLS = ["mix", "mix", "zeros", "const", "falling", "ties", "big", "wild", "frac", "rising"]


def bars(rng, n, style=None, vol=None, scale=1.0):
    """dict of four lists of floats (high, low, close, volume)"""
    style = style or rng.choice(STYLES)
    vol = vol or rng.choice(VOLS)
    g = 256
    x = rng.randint(40 * g, 120 * g)
    o = {"high": [], "low": [], "close": [], "volume": []}
    drift = rng.choice([-1, 1])
    flat_left = 0
    last = None
    for t in range(n):
        zero = False
        if style == "walk":
            x += rng.randint(-3 * g, 3 * g)
            a, b = rng.randint(0, 2 * g), rng.randint(0, 2 * g)
        elif style == "up":
            x += rng.randint(1, g); a, b = rng.randint(0, g), rng.randint(0, g // 2)
        elif style == "down":
            x -= rng.randint(1, g // 4); a, b = rng.randint(0, g // 2), rng.randint(0, g)
        elif style in ("tops", "bottoms"):               # one way only, closes at the end of the bar
            k = 1 if style == "tops" else -1
            x += k * rng.choice([0, 1, g // 8, g // 4]) if t else 0
            a, b = (0, rng.choice([g, g, g // 2])) if k > 0 else (rng.choice([g, g, g // 2]), 0)
        elif style == "lift":                            # bars of one size that move one way
            x += drift * rng.randint(0, g // 4)
            a, b = g, g // 2
        elif style == "ties":
            x = (x // g + rng.choice([-1, 0, 0, 1])) * g
            a, b = rng.choice([0, g, 2 * g]), rng.choice([0, g, 2 * g])
        elif style == "flat":
            if flat_left == 0 and rng.random() < 0.15:
                flat_left = rng.randint(2, 25)
            if flat_left > 0:
                flat_left -= 1
                if last is not None:
                    zero = True
                else:
                    a = b = 0
            else:
                x += rng.randint(-2 * g, 2 * g); a, b = rng.randint(0, g), rng.randint(0, g)
        elif style == "zigzag":
            x += (1 if t % 2 else -1) * rng.randint(g, 5 * g); a, b = rng.randint(0, g), rng.randint(0, g)
        elif style == "spike":
            x += rng.randint(-g, g); a, b = rng.randint(0, g), rng.randint(0, g)
            if rng.random() < 0.05:
                a += 60 * g
            if rng.random() < 0.05:
                b += min(30 * g, x - 2 * g) if x > 33 * g else 0
        elif style == "steps":
            if rng.random() < 0.2:
                x += rng.randint(-6 * g, 6 * g)
            a, b = rng.choice([0, 0, g]), rng.choice([0, 0, g])
        elif style == "wild":                            # prices change by factors
            x = int(x * 2 ** rng.uniform(-2, 2)) if rng.random() < 0.7 else x
            x = min(max(x, g // 8 + rng.randint(0, g)), 2 ** 40)
            a, b = int(x * rng.choice([0, 0.01, 0.5, 2])), int(x * rng.choice([0, 0.01, 0.5, 0.9]))
        elif style == "crash":                           # long quiet, then a fall or rise of most of the price
            if rng.random() < 0.07:
                x = int(x * rng.choice([0.02, 0.1, 0.3, 0.45, 2.2, 3, 8]))
            x += rng.randint(-g // 8, g // 8)
            x = min(max(x, g // 2 + rng.randint(0, g // 4)), 2 ** 24)
            a, b = rng.randint(0, g // 8), rng.randint(0, g // 8)
        elif style == "open":                            # bars that do not reach the one before
            x += rng.choice([-1, 1]) * rng.randint(3 * g, 8 * g)
            a, b = rng.randint(0, g), rng.randint(0, g)
        else:                                            # turn: long swings
            if rng.random() < 0.06:
                drift = -drift
            x += drift * rng.randint(0, 3 * g); a, b = rng.randint(0, g), rng.randint(0, g)
        if x < 12 * g and style not in ("wild", "crash"):
            x = 12 * g + rng.randint(0, 3 * g); drift = 1
        if zero:
            h = l = c = last
            if rng.random() < 0.3:                       # flat close inside a wider bar
                h, l = last + g, last - g
        else:
            c = x
            h, l = c + a, c - b
            if l < g and style not in ("wild", "crash"):
                l = min(c, g)
            l = max(l, 1)
        last = c
        o["high"].append(h * scale / g); o["low"].append(l * scale / g); o["close"].append(c * scale / g)
        if vol == "mix":
            v = rng.randint(1, 5000)
        elif vol == "zeros":
            v = 0 if rng.random() < 0.4 else rng.randint(1, 500)
        elif vol == "const":
            v = 1000
        elif vol == "falling":
            v = max(0, 100000 - 97 * t - rng.randint(0, 50))
        elif vol == "ties":
            v = rng.choice([100, 100, 200, 300])
        elif vol == "dead":                              # long stretches without volume
            v = 0 if (t // 9) % 2 else rng.randint(1, 500)
        elif vol == "wild":                              # any magnitude from bar to bar
            v = int(2 ** rng.uniform(0, 34)) / 2 ** rng.choice([0, 0, 10])
        elif vol == "frac":
            v = rng.randint(0, 3000) / 1024
        elif vol == "rising":
            v = 1000 + 3 * t + rng.randint(0, 3)
        else:
            v = rng.randint(10 ** 8, 10 ** 9)
        o["volume"].append(float(v))
    return o


def loosen(rng, d):
    """Closes beyond the bar, as adjusted or composite data have them."""
    g = 256
    for t in range(len(d["close"])):
        if d["high"][t] > d["low"][t] and rng.random() < 0.3:
            k = rng.randint(1, 3 * g) / g * (d["close"][t] / 64)
            if rng.random() < 0.5:
                d["close"][t] = d["high"][t] + k
            else:
                d["close"][t] = max(d["low"][t] - k, d["close"][t] / 2)
    return d


def below_zero(rng, d):
    """Spreads: the same movements around a level near or below zero (volumes stay)."""
    s = rng.choice([0.5, 1.0, 1.0, 1.5]) * sum(d["close"]) / len(d["close"])
    s = (round(s) if s > 8 else s) + s / 4096         # off the grid: no price is exactly zero
    for c in ("high", "low", "close"):
        d[c] = [x - s for x in d[c]]
    return d


def holes(rng, d, how=None):
    """Missing values: whole bars, single cells, a leading stretch, everything."""
    how = how or rng.choice(["rows", "rows", "cells", "cells", "lead", "lead", "column", "all"])
    nan, n = float("nan"), len(d["close"])
    d = {c: list(x) for c, x in d.items()}
    if how == "rows":
        for t in range(n):
            if rng.random() < 0.08:
                for c in d:
                    d[c][t] = nan
    elif how == "cells":
        for c in d:
            for t in range(n):
                if rng.random() < 0.06:
                    d[c][t] = nan
    elif how == "lead":
        for t in range(min(n, rng.randint(1, 6))):
            for c in d:
                d[c][t] = nan
    else:
        for c in d:
            if how == "all" and rng.random() < 0.7:
                d[c] = [nan] * n
            elif how == "column" and rng.random() < 0.4:
                k = rng.randint(1, n)
                d[c] = [nan] * k + d[c][k:] if rng.random() < 0.5 else d[c][:n - k] + [nan] * k
    return d


def any_bars(rng, n, plain=0.5, neg=True):
    """Bars for relations between answers: also closes beyond the bar, prices below zero, missing values."""
    d = bars(rng, n, *style_of(rng))
    x = rng.random()
    if x < plain:
        return d
    x = rng.random()
    if x < 0.3:
        return loosen(rng, d)
    if x < 0.45 and neg:
        return below_zero(rng, d)
    if neg and rng.random() < 0.4:
        d = below_zero(rng, d)
    return holes(rng, d)


def halt(rng, d, k):
    """Trading stops for k bars: no range, no volume."""
    n = len(d["close"])
    t0 = rng.randrange(max(1, n - k))
    for t in range(t0, min(n, t0 + k)):
        for c in ("high", "low", "close"):
            d[c][t] = d["close"][t0]
        d["volume"][t] = 0.0
    return d


SHAPES = ["walk", "up", "down", "ties", "flat", "zigzag", "spike", "steps", "turn", "wild", "crash", "open", "tops",
          "bottoms", "lift"]


def style_of(rng):
    return rng.choice(STYLES), rng.choice(VOLS)


SMALLW = [1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 10, 13, 14, 20, 25]


BIGW = [33, 47, 65, 80, 101, 130]


def params(rng, m, pars, wide=True, ahead=False):
    """Random parameters for indicator m; pars: catalog entry's list.  ahead: also negative offsets."""
    p = {}
    for n, k, d in pars:
        if k == "w":
            if n in ("pow1",):
                p[n] = rng.choice([2, 2, 1, 3, 5])
            elif n in ("pow2",):
                p[n] = rng.choice([30, 30, 10, 20, 7])
            elif wide:
                p[n] = rng.choice(SMALLW)
            else:
                p[n] = rng.choice([1, 2, 3, 4, 5])
        elif k == "k":
            p[n] = rng.choice([0, 0, 1, 2, 3, 5])
            if ahead and n == "offset" and rng.random() < 0.3:
                p[n] = -rng.choice([1, 2, 3, 7])
        elif k == "b":
            p[n] = rng.random() < 0.5
        elif k == "f":
            p[n] = {"constant": lambda: rng.choice(["0.015", "0.02", "0.5"]),
                    "window_dev": lambda: rng.choice(["2", "1", "3", "1.5", "2.5", "0.5"]),
                    "multiplier": lambda: rng.choice(["2", "1", "3", "1.5", "0.5"]),
                    "step": lambda: rng.choice(["0.02", "0.02", "0.05", "0.1", "0.01", "0.3"]),
                    "max_step": lambda: rng.choice(["0.2", "0.2", "0.1", "0.3", "0.06", "0.02"]),
                    "weight1": lambda: rng.choice(["4.0", "1.0", "2.5"]),
                    "weight2": lambda: rng.choice(["2.0", "1.0", "3.0"]),
                    "weight3": lambda: rng.choice(["1.0", "0.5", "2.0"])}[n]()
    return p


def total_window(p):
    """Roughly how many bars the longest chain of windows needs."""
    ws = [v for n, v in p.items() if isinstance(v, int) and not isinstance(v, bool) and not n.startswith("pow")]
    return max(ws, default=1), sum(ws)
