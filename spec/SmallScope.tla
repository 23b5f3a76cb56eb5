------------------------------ MODULE SmallScope ------------------------------
(***************************************************************************)
(* Small parameters and small alphabets of bars for exhaustive checks.     *)
(***************************************************************************)
EXTENDS Catalog, Num, TLC, Json, IOUtils

Names == JsonDeserialize(IOEnv.TA_MACHINES)        \* ["sma", ...]
MachineSet == {Names[i] : i \in DOMAIN Names}
Deep == IOEnv.TA_DEEP = "1"
Brief == IOEnv.TA_DEEP = "brief"

R(m, upd) == LET d == DefaultParams(m) IN [n \in DOMAIN d |-> IF n \in DOMAIN upd THEN upd[n] ELSE d[n]]

Params(m) ==
  CASE m \in {"sma", "ema", "wma", "rsi", "trix", "cci", "dpo", "ui", "cmf", "fi", "eom", "mfi", "vwap", "roc", "aroon",
              "vortex", "atr", "adx"} -> {R(m, [window |-> w]) : w \in 1..3}
    [] m = "kama" -> {R(m, [window |-> w, pow1 |-> 2, pow2 |-> 5]) : w \in 1..3}
    [] m \in {"macd", "ppo", "pvo"} -> {R(m, [window_fast |-> f, window_slow |-> s, window_sign |-> 2]) : f \in 1..2, s \in 1..3}
    [] m = "stochrsi" -> {R(m, [window |-> 2, smooth1 |-> a, smooth2 |-> 2]) : a \in 1..2}
    [] m = "tsi" -> {R(m, [window_fast |-> f, window_slow |-> s]) : f \in 1..2, s \in 2..3}
    [] m = "uo" -> {R(m, [window1 |-> 1, window2 |-> 2, window3 |-> 3]), R(m, [window1 |-> 2, window2 |-> 1, window3 |-> 2])}
    [] m = "stoch" -> {R(m, [window |-> w, smooth_window |-> v]) : w \in 1..3, v \in 1..2}
    [] m = "wr" -> {R(m, [lbp |-> w]) : w \in 1..3}
    [] m = "ao" -> {R(m, [window1 |-> f, window2 |-> s]) : f \in 1..2, s \in 2..3}
    [] m = "stc" -> {R(m, [window_fast |-> 1, window_slow |-> 2, cycle |-> 2, smooth1 |-> 2, smooth2 |-> s]) : s \in 1..2}
    [] m = "kst" -> {R(m, [roc1 |-> 1, roc2 |-> 2, roc3 |-> 1, roc4 |-> 2, window1 |-> 2, window2 |-> 1,
                           window3 |-> 1, window4 |-> 2, nsig |-> g]) : g \in 1..2}
    [] m = "mass" -> {R(m, [window_fast |-> 2, window_slow |-> s]) : s \in 1..3}
    [] m = "bb" -> {R(m, [window |-> w, window_dev |-> d]) : w \in 2..3, d \in {"1", "2"}}
    [] m = "kc" -> {R(m, [window |-> 2, window_atr |-> 2, original_version |-> v]) : v \in BOOLEAN}
    [] m = "dc" -> {R(m, [window |-> w, offset |-> f]) : w \in 1..3, f \in 0..1}
    [] m = "ichimoku" -> {R(m, [window1 |-> 1, window2 |-> 2, window3 |-> 3, visual |-> v]) : v \in BOOLEAN}
    [] m = "psar" -> {R(m, [step |-> a, max_step |-> "0.5"]) : a \in {"0.25", "0.5"}}
    [] m = "vpt" -> {R(m, [smoothing_factor |-> k]) : k \in {0, 2}}
    [] OTHER -> {DefaultParams(m)}

Kind_(m) == LET i == EntryOf[m].ins
            IN  IF i = <<"close">> THEN "c" ELSE IF i = <<"volume">> THEN "v"
                ELSE IF i = <<"high", "low">> THEN "hl" ELSE IF i = <<"close", "volume">> THEN "cv"
                ELSE IF i = <<"high", "low", "close">> THEN "hlc" ELSE "hlcv"

\* <<h, l, c, v>>
BarSet(k) ==
  CASE k = "c"  -> {<<c, c, c, 1>> : c \in {2, 3, 5}}
    [] k = "v"  -> {<<1, 1, 1, v>> : v \in {1, 2, 4}}
    [] k = "cv" -> {<<c, c, c, v>> : c \in {2, 3, 5}, v \in {1, 2}}
    [] k = "hl" -> {<<h, l, l, 1>> : h \in 3..4, l \in 1..2} \cup {<<4, 4, 4, 1>>, <<6, 3, 3, 1>>}
    [] k = "hlc" -> {<<3, 2, 2, 1>>, <<3, 2, 3, 1>>, <<4, 2, 3, 1>>, <<4, 4, 4, 1>>, <<5, 3, 4, 1>>, <<5, 4, 5, 1>>, <<6, 2, 5, 1>>}
    [] OTHER -> {<<3, 2, 2, 1>>, <<3, 2, 3, 2>>, <<4, 2, 3, 1>>, <<4, 4, 4, 2>>, <<5, 3, 4, 0>>, <<5, 3, 5, 3>>}
Depth(k) ==
  CASE k \in {"c", "v"} -> IF Deep THEN 8 ELSE IF Brief THEN 6 ELSE 7
    [] OTHER -> IF Deep THEN 5 ELSE 4

B(x) == [h |-> N(x[1]), l |-> N(x[2]), c |-> N(x[3]), v |-> N(x[4])]
==========================================================================
