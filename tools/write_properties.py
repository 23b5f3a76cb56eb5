#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept here so that both stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=(), observe=(), trust=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                           "observe_at": list(observe), "hook_needed": None}, _t=technique, _n=note))


ALLF = ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/utils.py"]
BARS = "well-formed bars (0 < low <= close <= high, volume >= 0, no missing inputs)"
WIDE = "bars (volume >= 0, no price exactly zero), also with the close beyond the bar, prices below zero, missing values in single cells, bars or columns"
TESTS = "The tests compare one CSV of about 30-100 rows per indicator, with default windows and mostly fillna off, on the last row or on one column"
TRACE = "TLA+ machine of every indicator, recorded runs replayed through it by TLC"
CONF = ("TLC explores the specification exhaustively in a small scope and replays recorded runs of the real code through it; "
        "beyond the explored inputs nothing is claimed. Trusted: TLC, the arithmetic override (cross-checked against the plain TLA+ definitions by harness/numcheck.py), the recorder.")

prop("C01", "A published row never changes when later bars arrive or are revised",
     "Every row of every indicator depends only on the bars up to and including that row: when bars are appended, or the last bars of the history are replaced, every row before the first changed bar keeps its value (or its absence). "
     "The only exception are the leading rows that fillna fills backwards, before a line has its first value. This holds for every indicator, output, window setting and fillna setting, including the visual Ichimoku and the DPO.",
     ["histories", "inputs", "configurations"],
     "All indicators and outputs, all window settings, fillna on and off, all histories of " + WIDE + ", all sequences of appending bars and replacing the last bars.",
     TESTS + "; none computes the same indicator on a history and on its continuation, so look-ahead (a shift in the wrong direction, a mean over the whole series, a value wrapped around from the end) goes unnoticed.",
     ALLF,
     [("trailing windows", "ta/utils.py:_sma,_ema"), ("shift(k) with k >= 0, and no fill from later rows", "ta/trend.py:KSTIndicator,DPOIndicator,TRIXIndicator,IchimokuIndicator"), ("loops that read earlier elements only", "ta/momentum.py:KAMAIndicator._run, ta/trend.py:PSARIndicator._run")],
     "TLA+ history machine (MC_History) + replay of edit histories into the code",
     CONF, observe=["the Series returned by every output method"])
prop("C02", "Values do not depend on index, dtype, memory layout or names of the input",
     "The same numbers give the same output rows whatever carries them: any index (ordered or not, unique or not, dates, time zones, strings, floats, categories, missing labels, multi-level), integer or float columns, strided, reversed or read-only memory, and any series names. "
     "Every output has the index of the input, in the same order, with one row per bar.",
     ["inputs", "configurations"],
     "All indicators and outputs, fillna on and off, all window settings, all index kinds x dtypes (64-bit columns of all, price or volume columns, 32-bit columns, volumes as 16, 32 or unsigned integers) x memory layouts x names of Session.tla, all histories of " + WIDE + ".",
     TESTS + "; the inputs always are float columns of a CSV frame with a RangeIndex, so label-based access, alignment and integer arithmetic are never exercised.",
     ALLF,
     [("positional access in hand-written loops", "ta/volatility.py:AverageTrueRange._run, ta/trend.py:ADXIndicator._run,PSARIndicator._run, ta/volume.py:NegativeVolumeIndexIndicator._run"), ("re-wrapping arrays with index=close.index", "all output methods"), ("_get_min_max aligns by position", "ta/utils.py:_get_min_max")],
     "TLA+ session machine (form events) + replay of every index kind into the code", CONF,
     observe=["the Series returned by every output method, and their index"])
prop("C03", "fillna leaves no gap and fills only with the documented values",
     "With fillna on, every output of every indicator shows a finite value on every row. A gap (a row on which the indicator is undefined) repeats the last value shown; a leading gap shows the neutral value of that output (e.g. 50 for RSI, -50 for Williams %R, 1 for Vortex, 0 for rates and differences) or, for price-level lines such as bands, the first value that follows, and 0 if there is none.",
     ["inputs", "configurations", "histories"],
     "All indicators and outputs, all window settings, all histories of " + BARS + " of at least one bar, including histories shorter than the windows, flat stretches and bars without volume.",
     "The fillna tests look only at whether some fixed column contains NaN on one CSV; gaps in the middle of a line (flat prices, no volume), short histories, and what the filling values are, are not looked at.",
     ALLF, [("IndicatorMixin._check_fillna", "ta/utils.py"), ("min_periods = 0 when fillna", "all _run methods"), ("per-output neutral value", "value= argument of _check_fillna")],
     TRACE + " (fill stage), exhaustive warm-up model MC_Warm", CONF, observe=["every output with fillna=True"])
prop("C04", "Without fillna the first value appears exactly when all windows are full",
     "With fillna off, an output shows no value before the number of bars its windows need (for chained windows: the sum of them, as documented by the formula), shows one from then on, and has a gap later only where its formula is undefined (0/0). "
     "Outputs that start with a documented constant (ATR, ADX: 0 until their first window is full) show exactly that constant on exactly those rows.",
     ["inputs", "configurations"],
     "All indicators and outputs, all combinations of windows, all histories of " + BARS + ", including histories shorter than the windows.",
     TESTS + "; the length of the warm-up is only implied by a CSV at the default windows, and most tests compare the tail only.",
     ALLF, [("min_periods = window when fillna is off", "all _run methods, ta/utils.py:_sma,_ema"), ("leading zeros of ATR and ADX", "ta/volatility.py:AverageTrueRange, ta/trend.py:ADXIndicator")],
     TRACE + " (definedness), warm-up formulas checked exhaustively against the machines (MC_Warm)", CONF,
     observe=["every output with fillna=False"])
prop("C05", "Answers depend on the arguments only, and the caller's data is never modified",
     "The answer of an indicator object depends only on the arguments it was constructed with and the line asked for: not on how often or in which order lines were asked before, and not on any other object, of this or another class, function or add_*_ta call that was at work in between. "
     "Constructing and asking never modify the series passed in, nor numpy's or pandas' settings.",
     ["schedules", "histories"],
     "All indicator classes, all schedules of construct/ask events on up to three objects (two with different arguments, one twin) and strangers (objects of other classes, functions, add_all_ta_features on the same series), all lines, fillna on and off, shared or separate input series, with and without missing values; also series that are freed and built anew, and different series that look alike (same length, same first and last bars).",
     "Every test constructs one object per class and asks each line once or in one fixed order; caching in the object, in the class or in the module, and writes into the caller's series, do not show.",
     ALLF, [("all intermediate results are stored on the instance in __init__", "every indicator class"), ("output methods build new series", "every output method"), ("inputs are only read", "every _run method")],
     "TLA+ object-life machine (all schedules) replayed into the code, answers compared with fresh processes", CONF,
     observe=["every output, the input series, np.geterr(), pd options"])
prop("C06", "Functions equal their classes; defaults and argument order are as documented",
     "Every module-level function returns exactly the line its class returns for the same inputs and parameters: every parameter is passed on, under its own meaning, and the function's documented defaults apply where it is left out. "
     "Constructors and functions take their arguments in the documented order and with the documented default values; "
     "numpy's scalars do for Python's.",
     ["inputs", "configurations"],
     "All module-level functions and all constructors, all parameter values, keyword, positional and defaulted calls, also calls that leave out any of the arguments, fillna on and off, all histories of " + WIDE + ".",
     "The tests call few of the functions, with the default parameters, so a parameter that is not passed on, swapped, or has another default goes unnoticed.",
     ALLF[:5], [("one-line wrappers at the end of each module", "ta/momentum.py, ta/trend.py, ta/volatility.py, ta/volume.py, ta/others.py"), ("constructor signatures", "every indicator class")],
     "TLA+ catalog of the public surface, calls replayed into functions and classes (Session func/ctor events)", CONF,
     observe=["every module-level function"])
prop("C07", "add_*_ta adds exactly the documented columns, each showing its own indicator",
     "Each add_*_ta call returns the frame with exactly the columns of its group added or overwritten (name = prefix + documented name; with vectorized=True exactly the fast ones), every such column equals the corresponding indicator computed from the named input columns with the documented parameters and the given fillna, and add_all_ta_features adds the union of the groups. "
     "All other columns, the rows and the index stay as they were, for any sequence of such calls, prefixes and input column names.",
     ["histories", "inputs", "configurations"],
     "All sequences of add_* calls with any prefix, vectorized, fillna and input column names (also numbers and the empty string, also next to other columns with the usual names), on frames of any length and index.",
     "The integration tests only check that columns of a few calls are (or are not) NaN-free on one frame; which indicator a column shows, with which parameters and inputs, is not checked.",
     ["ta/wrapper.py", "ta/__init__.py"], [("assignment of one output per column", "ta/wrapper.py:add_volume_ta..add_all_ta_features"), ("arguments forwarded group by group", "ta/wrapper.py:add_all_ta_features")],
     "TLA+ frame machine with column provenance (MC_Frame), call sequences replayed into the code", CONF,
     observe=["the frame returned by every add_* function"])
prop("C08", "dropna drops exactly the rows with an unusable cell",
     "dropna returns exactly the rows in which no number is NaN, zero or beyond exp(709) (such as infinity), and no other cell is missing: in order, with their index labels and values, with all columns. The frame passed in is not modified.",
     ["inputs"],
     "All frames over number (float, integer of any size), boolean, text, category, date, time-span and nullable columns, any index and column names (also repeated ones), any number of rows and columns, any mixture of usable and unusable cells (whether -inf is usable is left open).",
     "One test calls dropna on one CSV and looks at the length of the result.",
     ["ta/utils.py"], [("copy, mask number columns, DataFrame.dropna", "ta/utils.py:dropna")],
     "TLA+ specification enumerated exhaustively (all frames of small shapes) against the code", CONF,
     observe=["the frame returned, the frame passed in"])
prop("C09", "Outputs follow a change of the price or volume unit by their dimension",
     "When all prices are multiplied by a positive factor and all volumes by another, every output scales by the factor of its dimension and keeps its gaps: oscillators, percentages, ratios and flags do not change, price levels and differences scale with the price, volume sums with the volume, Force Index with both, Ease of Movement with price squared over volume.",
     ["inputs", "configurations"],
     "All indicators and outputs, all window settings, fillna on and off, all histories of " + WIDE + ", all factors (powers of two, so that scaling is exact).",
     TESTS + " at one price level; absolute thresholds, epsilons, roundings and magic constants only show at other magnitudes.",
     ALLF, [("formulas homogeneous in price and volume, no absolute tolerance", "all _run methods")],
     "TLA+ degrees of every output, checked on the machines (MC_Laws units twin), sessions replayed into the code", CONF,
     observe=["every output"])

FAM = {
 "C10": ("Moving averages, MACD, PPO, PVO and TRIX are their documented functions",
   "SMA, EMA (weights 2/(n+1), started at the first close), WMA (linear weights) and KAMA equal their recurrences on every row where they are defined. MACD is fast minus slow EMA, PPO/PVO the same as percentage of the slow one, their signal is the EMA of that line and the histogram their difference; TRIX is the percentage change of the triple EMA.",
   ["ta/trend.py", "ta/momentum.py", "ta/utils.py"], [("_sma, _ema", "ta/utils.py"), ("SMAIndicator, EMAIndicator, WMAIndicator, MACD, TRIXIndicator", "ta/trend.py"), ("KAMAIndicator, PercentagePriceOscillator, PercentageVolumeOscillator", "ta/momentum.py")]),
 "C11": ("Bounded oscillators are their documented functions of the bars",
   "RSI (Wilder averages of rises and falls; 100 without falls), Stochastic RSI and its two averages, Stochastic %K/%D, Williams %R, Ultimate Oscillator, TSI, Aroon (bars since the (first) extreme of the last n+1 bars) and STC equal their recurrences on every row where they are defined, whatever the windows, and thus stay within their bounds.",
   ["ta/momentum.py", "ta/trend.py", "ta/utils.py"], [("RSIIndicator, StochRSIIndicator, StochasticOscillator, WilliamsRIndicator, UltimateOscillator, TSIIndicator", "ta/momentum.py"), ("AroonIndicator, STCIndicator", "ta/trend.py")]),
 "C12": ("Bands and channels are their documented functions of the bars",
   "Bollinger (mean +- k population deviations), Keltner (original and ATR version), Donchian (with offset) and Ichimoku (plain and visual) lines, their width and percentage lines, and the flags for a close beyond a band, equal their formulas on every row where they are defined; lower <= middle <= upper, and the flags are 1 exactly when the close is beyond the band.",
   ["ta/volatility.py", "ta/trend.py"], [("BollingerBands, KeltnerChannel, DonchianChannel", "ta/volatility.py"), ("IchimokuIndicator", "ta/trend.py")]),
 "C13": ("ATR and ADX follow Wilder's recurrences",
   "ATR is 0 until its window is full, then the mean of the first true ranges, then smoothed with weight 1/n. +DI, -DI and ADX follow Wilder's smoothing of directional movement and true range, are 0 during their documented warm-up, and stay within 0..100.",
   ["ta/volatility.py", "ta/trend.py", "ta/utils.py"], [("AverageTrueRange", "ta/volatility.py"), ("ADXIndicator", "ta/trend.py"), ("_true_range, _get_min_max", "ta/utils.py")]),
 "C14": ("Parabolic SAR follows its state machine",
   "The stop, the trend side, the acceleration (grows by step on each new extreme up to max_step, resets on reversal), the extreme point and the clamp to the two previous bars follow the Parabolic SAR machine on every history. From the third bar on exactly one of the up and down lines has a value, which is the stop, and the indicator flags are 1 exactly on the rows where that side starts.",
   ["ta/trend.py"], [("PSARIndicator._run", "ta/trend.py")]),
 "C15": ("Cumulative volume indices are their documented recurrences",
   "OBV adds the volume on a rise, subtracts it on a fall and stays when the close is unchanged; the accumulation/distribution index adds volume times the close location value (0 for a bar without range); VPT sums volume times relative change (optionally smoothed, optionally without its empty rows); NVI starts at 1000 and follows the price only on bars of falling volume.",
   ["ta/volume.py"], [("OnBalanceVolumeIndicator, AccDistIndexIndicator, VolumePriceTrendIndicator, NegativeVolumeIndexIndicator", "ta/volume.py")]),
 "C16": ("Volume-weighted windows are their documented functions of the bars",
   "Chaikin money flow, money flow index, volume-weighted average price, ease of movement (and its average) and force index equal their formulas over exactly the bars of their window on every row where they are defined.",
   ["ta/volume.py", "ta/utils.py"], [("ChaikinMoneyFlowIndicator, MFIIndicator, VolumeWeightedAveragePrice, EaseOfMovementIndicator, ForceIndexIndicator", "ta/volume.py")]),
 "C17": ("Returns, ROC and KST are their documented functions of the bars",
   "Daily, log and cumulative return, ROC and KST (weights 1..4 over four smoothed rates of change), its signal and difference equal their formulas in percent on every row where they are defined.",
   ["ta/others.py", "ta/momentum.py", "ta/trend.py"], [("DailyReturnIndicator, DailyLogReturnIndicator, CumulativeReturnIndicator", "ta/others.py"), ("ROCIndicator", "ta/momentum.py"), ("KSTIndicator", "ta/trend.py")]),
 "C18": ("CCI, mass index, vortex, ulcer index, awesome osc. and DPO equal their formulas",
   "CCI (mean absolute deviation, constant), mass index (sum of the ratio of single to double EMA of the range), vortex (+VI, -VI and difference), ulcer index (root mean square drawdown within the window), awesome oscillator and detrended price oscillator equal their formulas over exactly their windows on every row where they are defined.",
   ["ta/trend.py", "ta/momentum.py", "ta/volatility.py"], [("CCIIndicator, MassIndex, VortexIndicator, DPOIndicator", "ta/trend.py"), ("AwesomeOscillatorIndicator", "ta/momentum.py"), ("UlcerIndex", "ta/volatility.py")]),
}
for k, (t, s, f, mech) in FAM.items():
    prop(k, t, s, ["inputs", "configurations", "histories"],
         "All histories of bars (low <= high, no price exactly zero, volume >= 0; short and long, flat, tied, with and without volume, close inside or beyond the bar, prices also below zero, at any magnitude), all windows and parameters"
         + (" (also negative Donchian offsets)" if k == "C12" else "") + ", fillna on and off."
         + ("" if k in ("C13", "C14") else " Missing inputs: a window with a missing input has no value" + {"C10": " (not for WMA and KAMA)", "C11": " (not for the Ultimate Oscillator)", "C12": " (not for Keltner)", "C15": "", "C16": " (not for MFI)", "C17": " (not for the cumulative return)", "C18": " (not for CCI and vortex)"}[k] + ".") * (k != "C15"),
         TESTS + "; ties, flat stretches, zero volume, other windows, long histories and rare branches are not reached.",
         f, mech, TRACE + "; machines checked against their laws on all small histories (MC_Laws)", CONF,
         observe=["the outputs named in the statement"])
prop("C19", "Every indicator answers every well-formed history, with one row per bar",
     "Constructing an indicator on any well-formed history of at least one bar, with any windows of at least 1 (also longer than the history), and asking for its lines, never raises, and each line has one row per bar.",
     ["inputs", "configurations"],
     "All indicators and outputs, all histories of one bar or more of " + WIDE + ", any windows >= 1, fillna on and off, integer and float columns, all index kinds.",
     TESTS + "; histories shorter than a window, windows of one bar and integer columns never occur in them.",
     ALLF, [("guards for short histories", "ta/volatility.py:AverageTrueRange, ta/trend.py:ADXIndicator,PSARIndicator, ta/momentum.py:KAMAIndicator")],
     TRACE + " (total mode)", CONF, observe=["every constructor and output method"])

if __name__ == "__main__":
    extra = os.path.join(V, "tools", "more_properties.py")
    if os.path.exists(extra):
        exec(open(extra).read())
    P.sort(key=lambda x: x["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": [
            {"property": x["id"], "quick_cmd": f"/opt/venv/bin/python harness/check.py {x['id']} quick",
             "thorough_cmd": f"/opt/venv/bin/python harness/check.py {x['id']} thorough",
             "evidence_file": f"evidence/{x['id']}.json", "technique": x["_t"], "level": "model_checking",
             "level_note": x["_n"]} for x in P],
         "not_applicable": [],
         "notes": "No hooks: the checks call the public API of /repo's working tree. See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties")
