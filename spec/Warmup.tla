------------------------------ MODULE Warmup ------------------------------
(***************************************************************************)
(* Warm-up: with fillna off, output k of indicator m shows its first value *)
(* on bar Warm(m, p, k) (counted from 1) - the bar on which every window   *)
(* it is made of is full - and none before.  MC_Warmup checks these        *)
(* formulas against the machines.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Mx(a, b)    == IF a > b THEN a ELSE b
LOCAL Mx4(a, b, c, d) == Mx(Mx(a, b), Mx(c, d))

Warm(m, p, k) ==
  CASE m \in {"sma", "ema", "wma", "rsi", "cci", "cmf", "mfi", "vwap", "kama", "ui"} -> p.window
    [] m \in {"macd", "ppo", "pvo"} -> Mx(p.window_fast, p.window_slow) + (IF k = 1 THEN 0 ELSE p.window_sign - 1)
    [] m = "trix"     -> 3 * (p.window - 1) + 2
    [] m = "stochrsi" -> 2 * p.window - 1 + (IF k >= 2 THEN p.smooth1 - 1 ELSE 0) + (IF k = 3 THEN p.smooth2 - 1 ELSE 0)
    [] m = "tsi"      -> p.window_slow + p.window_fast
    [] m = "uo"       -> 1 + Mx(p.window1, Mx(p.window2, p.window3))
    [] m = "stoch"    -> p.window + (IF k = 2 THEN p.smooth_window - 1 ELSE 0)
    [] m = "wr"       -> p.lbp
    [] m = "ao"       -> Mx(p.window1, p.window2)
    [] m = "roc"      -> p.window + 1
    [] m = "stc"      -> Mx(p.window_fast, p.window_slow) + 2 * (p.cycle - 1) + (p.smooth1 - 1) + (p.smooth2 - 1)
    [] m = "aroon"    -> p.window + 1
    [] m = "kst"      -> Mx4(p.roc1 + p.window1, p.roc2 + p.window2, p.roc3 + p.window3, p.roc4 + p.window4)
                         + (IF k = 1 THEN 0 ELSE p.nsig - 1)
    [] m = "dpo"      -> Mx(p.window, (p.window \div 2) + 2)
    [] m = "mass"     -> 2 * (p.window_fast - 1) + p.window_slow
    [] m = "vortex"   -> p.window + 1
    [] m = "bb"       -> IF k >= 6 THEN 1 ELSE p.window
    [] m = "kc"       -> IF k >= 6 THEN 1 ELSE p.window
    [] m = "dc"       -> p.window + p.offset
    [] m = "ichimoku" -> (CASE k = 1 -> p.window1 [] k = 2 -> p.window2
                           [] k = 3 -> Mx(p.window1, p.window2) + (IF p.visual THEN p.window2 ELSE 0)
                           [] k = 4 -> p.window3 + (IF p.visual THEN p.window2 ELSE 0))
    [] m = "fi"       -> p.window + 1
    [] m = "eom"      -> IF k = 1 THEN 2 ELSE p.window + 1
    [] m = "vpt"      -> IF p.smoothing_factor = 0 THEN 2 ELSE p.smoothing_factor + 1
    [] m \in {"dr", "dlr"} -> 2
    [] m = "psar"     -> IF k \in {2, 3} THEN 3 ELSE 1
    [] OTHER          -> 1                     \* atr, adx, adi, obv, nvi, cr

\* lines that show 0 instead of no value before they are available
ZeroUntil(m, p, k) ==
  CASE m = "atr" -> p.window
    [] m = "adx" -> IF k = 1 THEN 2 * p.window ELSE p.window + 2
    [] OTHER     -> 1
==========================================================================
