prop("C20", "Ranges, orderings and identities between lines hold on every row",
     "Whatever the prices, on every row with values: averages lie between the extremes of what they average; RSI, Stochastic, Ultimate Oscillator, MFI, Aroon, STC, ADX and DI lie in 0..100, StochRSI in 0..1, Williams %R in -100..0, TSI in -100..100, CMF in -1..1, and reach the end of their range where they must (only rises, close at the window's extreme, new extreme); "
     "lower band <= middle <= upper band, width, position and flags fit the bands; differences are line minus signal; +DI and -DI add up to at most 100; the SAR shows exactly one side from the third bar on, which is the stop, on its side of the bar; OBV, ADI, VPT, NVI and returns move with the sign and by the amount of their bar.",
     ["inputs", "configurations", "histories"],
     "All indicators named, all histories of " + BARS + ", all windows and parameters, fillna on and off (rows that fillna fills are C03's).",
     TESTS + "; a number that is out of range, bands that cross, or lines that do not fit together only show on bars the CSVs do not contain (flat stretches, ties, one-sided trends, no volume).",
     ALLF, [("formulas of the lines and of the lines derived from them", "all _run methods"), ("flags and width lines", "ta/volatility.py:BollingerBands,KeltnerChannel,DonchianChannel")],
     "TLA+ laws, checked exhaustively on the machines (MC_Laws) and on every row of recorded runs (TwinTrace)", CONF, observe=["every output method"])
prop("C21", "A line forgets the bars that have left its windows",
     "A line over a window depends on the bars of its windows only: leaving out, or replacing, bars older than that does not change it (SMA, WMA, ROC, Stochastic, Williams %R, Ultimate Oscillator, Aroon, Bollinger, Keltner, Donchian, Ichimoku, CCI, KST, DPO, Vortex, Ulcer Index, CMF, MFI, VWAP, EOM, Awesome Oscillator, returns). "
     "Lines over exponential averages (EMA, MACD, PPO, PVO, TRIX, RSI, StochRSI, TSI, ATR, ADX, Mass Index, Force Index, STC) forget at the rate of their weights: after some 40 windows nothing of the past is left.",
     ["histories", "configurations"],
     "All lines named, all windows, all histories of positive prices and volumes >= 0 and all pasts before them, whatever their price level and volume, fillna on and off.",
     TESTS + "; none computes a line on a history and on its tail, so an extreme, a sum or a seed that is kept longer than its window goes unnoticed.",
     ALLF, [("rolling windows of the stated length", "all _run methods"), ("exponential averages with adjust=False", "ta/utils.py:_ema and the ewm calls")],
     "TLA+ memory of every line (Laws.Forgets), checked on the machines (MC_Laws) and on recorded pairs of runs (TwinTrace)", CONF, observe=["every output method"])
prop("C22", "Moving or turning the price axis carries every line along",
     "Adding a constant to all prices moves price-level lines (averages, bands, channels, Ichimoku, SAR, VWAP) by that constant and leaves differences and oscillators (MACD, RSI, Stochastic, TSI, Aroon, ADX, ATR, CCI, CMF, OBV, ADI, Vortex, Ultimate Oscillator, ...) as they are. "
     "Turning prices upside down (constant minus price, high and low changing places) mirrors them: averages turn with the prices, upper and lower bands, Aroon up and down, +VI and -VI, +DI and -DI change places, RSI becomes 100 - RSI, differences change sign, ATR, ADX and Mass Index stay.",
     ["inputs", "configurations"],
     "All lines named (Laws.Turned), all windows, all histories of positive prices, all constants that keep prices positive, fillna on and off (rows that fillna fills are C03's).",
     TESTS + "; an asymmetry between rises and falls, or a formula that depends on the price level where it must not, agrees with the stored results of one CSV.",
     ALLF, [("formulas symmetric in rises and falls, built on price differences", "all _run methods"), ("bands and DI lines as mirrored pairs", "ta/volatility.py, ta/trend.py:ADXIndicator,VortexIndicator,AroonIndicator")],
     "TLA+ symmetries of every line (Laws.Turned), checked on the machines (MC_Laws) and on recorded pairs of runs (TwinTrace)", CONF, observe=["every output method"])
prop("C23", "Compound indicators agree with the indicators they are made of",
     "An indicator documented in terms of others is exactly that combination of them, on every row of every history: MACD, PPO and PVO are differences of EMAs and their signal an EMA of their own line; TRIX is the change of a triple EMA; StochRSI is the Stochastic of RSI, smoothed by SMAs; STC is a doubly smoothed double Stochastic of MACD; KST is the weighted sum of smoothed ROCs; TSI and RSI are quotients of EMAs of changes; %R is Stochastic - 100; "
     "Keltner is EMA +- multiple of ATR (or averages of typical prices), Bollinger SMA +- deviations, Ichimoku made of Donchian mid lines, Awesome Oscillator and DPO of SMAs, Mass Index of quotients of EMAs, Ulcer Index of drawdowns from the window's highest close, ATR of true ranges, ADX of the DI lines, KAMA of its efficiency ratio, CMF of ADI, NVI, VPT and cumulative return of daily returns, log return of the return.",
     ["inputs", "configurations", "histories"],
     "All combinations named (46 schemes of Schemes.tla), all histories of positive prices and volumes >= 0, all windows and parameters, fillna on and off (rows that fillna fills are C03's).",
     TESTS + "; an indicator that averages, seeds or delays its part differently than that part itself does still reproduces its own stored column if the difference lies in the warm-up, in a gap, or in a non-default window.",
     ALLF, [("indicators computing their parts themselves (shared helpers _sma, _ema, or own copies)", "all _run methods"), ("RSI, ROC, Stochastic, True Range computed in more than one place", "ta/momentum.py, ta/trend.py, ta/volatility.py")],
     "TLA+ schemes of composition, checked exhaustively on the machines (MC_Schemes) and on recorded runs fed with each other's lines (SchemeTrace)", CONF, observe=["every output method"])
prop("C24", "Every parameter does what it is documented to do, and nothing else",
     "Changing one parameter changes the lines it governs in the documented way and no other line: multipliers and deviations scale band widths about an unchanged middle line, CCI's constant scales the line, Ultimate Oscillator weights mix the three averages (and permuting windows with weights changes nothing), signal and smoothing windows leave the main line as it is, swapping fast and slow windows changes the sign (PPO: inverts the ratio), "
     "Donchian's offset and Ichimoku's visual shift lines and nothing more, original_version makes window_atr and multiplier irrelevant, a window twice as long is composed of two windows (SMA, ROC, Donchian, VWAP, CMF, Vortex, Bollinger's middle, Mass Index), VPT's dropnans only drops rows, and fillna changes no row that has a value without it.",
     ["inputs", "configurations"],
     "All parameters named (69 schemes of Schemes.tla), all their values, all histories of positive prices and volumes >= 0, fillna on and off.",
     TESTS + "; they run default parameters almost only, so a parameter that is ignored, swapped with another, applied twice, or that leaks into another line passes them.",
     ALLF, [("constructor arguments stored and used", "all __init__ and _run methods"), ("min_periods = 0 if fillna else window", "all _run methods")],
     "TLA+ schemes of parameters, checked exhaustively on the machines (MC_Schemes) and on recorded runs with different parameters (SchemeTrace)", CONF, observe=["every output method"])
prop("C25", "Every line carries its own name, with the windows it was computed with",
     "Every line of every class and every function comes as a pandas Series under the fixed name of that line (e.g. rsi, stoch_k_signal, vip, psarup, cum_ret), and the lines of MACD, PPO, PVO, Mass Index, Ichimoku, Aroon, EMA, SMA, WMA, TRIX, DPO, Force Index, EOM, MFI and VWAP carry the windows they were computed with in their name (MACD_12_26: fast, slow; ema_14). "
     "The name depends on the line and these windows only: not on the names or the index of the input, its values or length, nor on fillna, and is the same from function and class.",
     ["inputs", "configurations"],
     "All classes, lines and functions, all windows, fillna on and off, all names and indexes of the input, histories of any length (also of one bar).",
     "The tests compare series without their names, or not at all; a name taken from the input, of another line, or with another window shows in columns that are built from the lines (pd.concat, join).",
     ALLF, [("pd.Series(..., name=...) in every output method", "every output method")],
     "TLA+ table of names (Session.Names), calls replayed into classes and functions (SessionTrace)", CONF, observe=["name of every output"])
