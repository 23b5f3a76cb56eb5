------------------------------ MODULE Schemes ------------------------------
(***************************************************************************)
(* How indicators are made of other indicators ("compose"), and what their *)
(* parameters do to their lines ("vary").  A scheme is a first run of a    *)
(* machine and further runs, on the same bars or on lines of earlier runs; *)
(* Expect says which lines of which runs follow from which.                *)
(*   runs: [m, par, src, fn]                                               *)
(*     par  <<name, "eq", q>>     the first run's parameter q              *)
(*          <<name, "is", v>>     v                                        *)
(*          <<name, "odd", q>>    2 * q - 1;  "twice": 2 * q               *)
(*          <<name, "other", "">> anything                                 *)
(*          parameters not named: as in the first run if the machine is    *)
(*          the same, else the default                                     *)
(*     src  <<"bar">> the bars; <<"on", i, k>> line k of run i as high,    *)
(*          low and close; <<"of", what>> a quantity of bars; <<"ratio",   *)
(*          i, j>> quotient of first lines                                 *)
(*     fn   "same", "on", "off", "not"                                     *)
(*   fns: settings of fillna in the first run the scheme applies to        *)
(***************************************************************************)
EXTENDS Machines, FiniteSets, TLC

LOCAL Run(m, par, src, fn) == [m |-> m, par |-> par, src |-> src, fn |-> fn]
LOCAL On(i, k)  == <<"on", i, k>>
LOCAL Of(what)  == <<"of", what>>
LOCAL Bar       == <<"bar">>
LOCAL Ema(q, src) == Run("ema", <<<<"window", "eq", q>>>>, src, "same")
LOCAL Sma(q, src) == Run("sma", <<<<"window", "eq", q>>>>, src, "same")
LOCAL Roc(q)      == Run("roc", <<<<"window", "eq", q>>>>, Bar, "off")
LOCAL Dc(q)       == Run("dc", <<<<"window", "eq", q>>, <<"offset", "is", 0>>>>, Bar, "same")
LOCAL Again(m, par) == Run(m, par, Bar, "same")
LOCAL Other(q)    == <<q, "other", "">>
LOCAL S(id, kind, m, force, fns, runs) == [id |-> id, kind |-> kind, m |-> m, force |-> force, fns |-> fns, runs |-> runs]
LOCAL Both == <<FALSE, TRUE>>
LOCAL Off  == <<FALSE>>

\* machines whose lines do not depend on fillna where they have a value without it, and which lines
\* (flags are 0 before there are bands)
Steady == [sma |-> {1}, ema |-> {1}, wma |-> {1}, bb |-> 1..7, dc |-> 1..5, ichimoku |-> 1..4, kc |-> 1..7, cci |-> {1}, aroon |-> 1..3,
           wr |-> {1}, stoch |-> 1..2, roc |-> {1}, rsi |-> {1}, ao |-> {1}, ui |-> {1}, mfi |-> {1}, cmf |-> {1}, vwap |-> {1},
           eom |-> 1..2, dpo |-> {1}, uo |-> {1}, vortex |-> 1..3, macd |-> {1}, ppo |-> {1}, pvo |-> {1}, atr |-> {1}, adx |-> 1..3,
           psar |-> 1..5, obv |-> {1}, adi |-> {1}, nvi |-> {1}, dr |-> {1}, dlr |-> {1}, cr |-> {1}, kst |-> 1..3, vpt |-> {1}, fi |-> {1}]
LOCAL Fill(m) == S("fill_" \o m, "vary", m, IF m = "vpt" THEN <<<<"dropnans", FALSE>>>> ELSE <<>>, Off, <<Run(m, <<>>, Bar, "not")>>)
LOCAL Fills == LET ms == <<"sma", "ema", "wma", "bb", "dc", "ichimoku", "kc", "cci", "aroon", "wr", "stoch", "roc", "rsi", "ao", "ui", "mfi", "cmf",
                           "vwap", "eom", "dpo", "uo", "vortex", "macd", "ppo", "pvo", "atr", "adx", "psar", "obv", "adi", "nvi", "dr", "dlr",
                           "cr", "kst", "vpt", "fi">>
               IN  [i \in DOMAIN ms |-> Fill(ms[i])]

Schemes == <<
  \* ---- composed of
  S("macd", "compose", "macd", <<>>, Both, <<Ema("window_fast", Bar), Ema("window_slow", Bar), Ema("window_sign", On(1, 1))>>),
  S("ppo", "compose", "ppo", <<>>, Both, <<Ema("window_fast", Bar), Ema("window_slow", Bar), Ema("window_sign", On(1, 1))>>),
  S("pvo", "compose", "pvo", <<>>, Both, <<Ema("window_fast", Of("volume")), Ema("window_slow", Of("volume")), Ema("window_sign", On(1, 1))>>),
  S("trix", "compose", "trix", <<>>, Both, <<Ema("window", Bar), Ema("window", On(2, 1)), Ema("window", On(3, 1)),
                                             Run("roc", <<<<"window", "is", 1>>>>, On(4, 1), "off")>>),
  S("stoch_signal", "compose", "stoch", <<>>, Off, <<Sma("smooth_window", On(1, 1))>>),
  S("wr", "compose", "wr", <<>>, Both, <<Run("stoch", <<<<"window", "eq", "lbp">>>>, Bar, "same")>>),
  S("stochrsi", "compose", "stochrsi", <<>>, Both,
    <<Run("rsi", <<<<"window", "eq", "window">>>>, Bar, "same"), Run("stoch", <<<<"window", "eq", "window">>>>, On(2, 1), "off"),
      Run("sma", <<<<"window", "eq", "smooth1">>>>, On(3, 1), "off"), Run("sma", <<<<"window", "eq", "smooth2">>>>, On(4, 1), "off")>>),
  S("stc", "compose", "stc", <<>>, Both,
    <<Run("macd", <<<<"window_fast", "eq", "window_fast">>, <<"window_slow", "eq", "window_slow">>>>, Bar, "same"),
      Run("stoch", <<<<"window", "eq", "cycle">>>>, On(2, 1), "off"), Ema("smooth1", On(3, 1)),
      Run("stoch", <<<<"window", "eq", "cycle">>>>, On(4, 1), "off"), Ema("smooth2", On(5, 1))>>),
  S("kst", "compose", "kst", <<>>, Both, <<Roc("roc1"), Roc("roc2"), Roc("roc3"), Roc("roc4"),
                                           Sma("window1", On(2, 1)), Sma("window2", On(3, 1)), Sma("window3", On(4, 1)), Sma("window4", On(5, 1))>>),
  S("kst_signal", "compose", "kst", <<>>, Off, <<Sma("nsig", On(1, 1))>>),
  S("ao", "compose", "ao", <<>>, Both, <<Sma("window1", Of("middle")), Sma("window2", Of("middle"))>>),
  S("kc_atr", "compose", "kc", <<<<"original_version", FALSE>>>>, Both,
    <<Ema("window", Bar), Run("atr", <<<<"window", "eq", "window_atr">>>>, Bar, "same")>>),
  S("kc_typical", "compose", "kc", <<<<"original_version", TRUE>>>>, Both,
    <<Sma("window", Of("typical")), Sma("window", Of("kc high")), Sma("window", Of("kc low"))>>),
  S("bb_middle", "compose", "bb", <<>>, Both, <<Sma("window", Bar)>>),
  S("bb_width", "compose", "bb", <<>>, Off, <<Sma("window", Bar), Sma("window", Of("square"))>>),
  S("ichimoku", "compose", "ichimoku", <<>>, Both, <<Dc("window1"), Dc("window2"), Dc("window3")>>),
  S("dc_width", "compose", "dc", <<<<"offset", 0>>>>, Off, <<Sma("window", Bar)>>),
  S("dpo", "compose", "dpo", <<>>, Both, <<Sma("window", Bar)>>),
  S("mass", "compose", "mass", <<>>, Off, <<Ema("window_fast", Of("range")), Ema("window_fast", On(2, 1)), Sma("window_slow", <<"ratio", 2, 3>>)>>),
  S("fi", "compose", "fi", <<>>, Both, <<Ema("window", Of("flow"))>>),
  S("eom_average", "compose", "eom", <<>>, Off, <<Sma("window", On(1, 1))>>),
  S("vpt_average", "compose", "vpt", <<<<"dropnans", FALSE>>>>, Off,
    <<Run("vpt", <<<<"smoothing_factor", "is", 0>>, <<"dropnans", "is", FALSE>>>>, Bar, "same"), Sma("smoothing_factor", On(2, 1))>>),
  S("tsi", "compose", "tsi", <<>>, Both, <<Ema("window_slow", Of("change")), Ema("window_fast", On(2, 1)),
                                           Ema("window_slow", Of("size of change")), Ema("window_fast", On(4, 1))>>),
  S("rsi", "compose", "rsi", <<>>, Both, <<Run("ema", <<<<"window", "odd", "window">>>>, Of("gain"), "on"),
                                            Run("ema", <<<<"window", "odd", "window">>>>, Of("loss"), "on")>>),
  S("cmf", "compose", "cmf", <<>>, Off, <<Run("adi", <<>>, Bar, "same"), Sma("window", Of("volume"))>>),
  S("vwap", "compose", "vwap", <<>>, Off, <<Sma("window", Of("typical volume")), Sma("window", Of("volume"))>>),
  S("cci", "compose", "cci", <<>>, Off, <<Sma("window", Of("typical"))>>),
  S("dlr", "compose", "dlr", <<>>, Both, <<Run("dr", <<>>, Bar, "same")>>),
  S("cr", "compose", "cr", <<>>, Off, <<Run("dr", <<>>, Bar, "same")>>),
  S("roc", "compose", "roc", <<<<"window", 1>>>>, Both, <<Run("dr", <<>>, Bar, "same")>>),
  S("ppo_pvo", "compose", "ppo", <<>>, Both, <<Run("macd", <<<<"window_fast", "eq", "window_fast">>, <<"window_slow", "eq", "window_slow">>>>, Bar, "same"),
                                               Ema("window_slow", Bar)>>),
  S("sma", "compose", "sma", <<>>, Off, <<Roc("window")>>),
  S("wma", "compose", "wma", <<>>, Off, <<Sma("window", Bar)>>),
  S("kama", "compose", "kama", <<>>, Off, <<Roc("window"), Sma("window", Of("size of change"))>>),
  S("stoch", "compose", "stoch", <<>>, Both, <<Dc("window")>>),
  S("ui", "compose", "ui", <<>>, Off, <<Run("dc", <<<<"window", "eq", "window">>, <<"offset", "is", 0>>>>, Of("close"), "on")>>),
  S("atr", "compose", "atr", <<>>, Off, <<Run("atr", <<<<"window", "is", 1>>>>, Bar, "same")>>),
  S("vortex", "compose", "vortex", <<>>, Off, <<Sma("window", Of("up move")), Sma("window", Of("down move")), Sma("window", Of("true range"))>>),
  S("mfi", "compose", "mfi", <<>>, Off, <<Sma("window", Of("money in")), Sma("window", Of("money out"))>>),
  S("adx", "compose", "adx", <<>>, Both, <<>>),
  S("nvi", "compose", "nvi", <<>>, Off, <<Run("dr", <<>>, Bar, "same")>>),
  S("vpt", "compose", "vpt", <<<<"dropnans", FALSE>>, <<"smoothing_factor", 0>>>>, Off, <<Run("dr", <<>>, Bar, "same")>>),
  S("obv", "compose", "obv", <<>>, Both, <<Run("dr", <<>>, Bar, "same")>>),
  S("pvo_ppo", "compose", "pvo", <<>>, Both,
    <<Run("ppo", <<<<"window_fast", "eq", "window_fast">>, <<"window_slow", "eq", "window_slow">>, <<"window_sign", "eq", "window_sign">>>>,
          Of("volume"), "same")>>),
  S("adi", "compose", "adi", <<>>, Off, <<Run("stoch", <<<<"window", "is", 1>>>>, Bar, "same")>>),
  S("kc_atr1", "compose", "kc", <<<<"original_version", FALSE>>, <<"window_atr", 1>>>>, Off, <<Run("atr", <<<<"window", "is", 1>>>>, Bar, "same")>>),
  \* ---- parameters
  S("sma_twice", "vary", "sma", <<>>, Off, <<Again("sma", <<<<"window", "twice", "window">>>>)>>),
  S("roc_twice", "vary", "roc", <<>>, Off, <<Again("roc", <<<<"window", "twice", "window">>>>)>>),
  S("dc_twice", "vary", "dc", <<<<"offset", 0>>>>, Off, <<Again("dc", <<<<"window", "twice", "window">>>>)>>),
  S("vwap_twice", "vary", "vwap", <<>>, Off, <<Again("vwap", <<<<"window", "twice", "window">>>>), Sma("window", Of("volume"))>>),
  S("cmf_twice", "vary", "cmf", <<>>, Off, <<Again("cmf", <<<<"window", "twice", "window">>>>), Sma("window", Of("volume"))>>),
  S("vortex_twice", "vary", "vortex", <<>>, Off, <<Again("vortex", <<<<"window", "twice", "window">>>>), Sma("window", Of("true range"))>>),
  S("wr_twice", "vary", "wr", <<>>, Off, <<Again("wr", <<<<"lbp", "twice", "lbp">>>>)>>),
  S("bb_twice", "vary", "bb", <<>>, Off, <<Again("bb", <<<<"window", "twice", "window">>>>)>>),
  S("mass_twice", "vary", "mass", <<>>, Off, <<Again("mass", <<<<"window_slow", "twice", "window_slow">>>>)>>),
  S("bb_dev", "vary", "bb", <<>>, Both, <<Again("bb", <<Other("window_dev")>>)>>),
  S("kc_multiplier", "vary", "kc", <<<<"original_version", FALSE>>>>, Both, <<Again("kc", <<Other("multiplier")>>)>>),
  S("kc_atr_window", "vary", "kc", <<<<"original_version", FALSE>>>>, Both, <<Again("kc", <<Other("window_atr"), Other("multiplier")>>)>>),
  S("kc_original", "vary", "kc", <<<<"original_version", TRUE>>>>, Both, <<Again("kc", <<Other("window_atr"), Other("multiplier")>>)>>),
  S("cci_constant", "vary", "cci", <<>>, Both, <<Again("cci", <<Other("constant")>>)>>),
  S("uo_weights", "vary", "uo", <<>>, Both,
    <<Again("uo", <<<<"weight1", "is", "1">>, <<"weight2", "is", "0">>, <<"weight3", "is", "0">>>>),
      Again("uo", <<<<"weight1", "is", "0">>, <<"weight2", "is", "1">>, <<"weight3", "is", "0">>>>),
      Again("uo", <<<<"weight1", "is", "0">>, <<"weight2", "is", "0">>, <<"weight3", "is", "1">>>>)>>),
  S("uo_order", "vary", "uo", <<>>, Both,
    <<Again("uo", <<<<"weight1", "eq", "weight3">>, <<"weight2", "eq", "weight1">>, <<"weight3", "eq", "weight2">>,
                    <<"window1", "eq", "window3">>, <<"window2", "eq", "window1">>, <<"window3", "eq", "window2">>>>)>>),
  S("dc_offset", "vary", "dc", <<>>, Both, <<Again("dc", <<<<"offset", "is", 0>>>>)>>),
  S("ichimoku_visual", "vary", "ichimoku", <<<<"visual", TRUE>>>>, Both, <<Again("ichimoku", <<<<"visual", "is", FALSE>>>>)>>),
  S("ichimoku_window1", "vary", "ichimoku", <<>>, Both, <<Again("ichimoku", <<Other("window1")>>)>>),
  S("ichimoku_window3", "vary", "ichimoku", <<>>, Both, <<Again("ichimoku", <<Other("window3")>>)>>),
  S("stoch_smooth", "vary", "stoch", <<>>, Both, <<Again("stoch", <<Other("smooth_window")>>)>>),
  S("stochrsi_smooth1", "vary", "stochrsi", <<>>, Both, <<Again("stochrsi", <<Other("smooth1"), Other("smooth2")>>)>>),
  S("stochrsi_smooth2", "vary", "stochrsi", <<>>, Both, <<Again("stochrsi", <<Other("smooth2")>>)>>),
  S("macd_sign", "vary", "macd", <<>>, Both, <<Again("macd", <<Other("window_sign")>>)>>),
  S("ppo_sign", "vary", "ppo", <<>>, Both, <<Again("ppo", <<Other("window_sign")>>)>>),
  S("pvo_sign", "vary", "pvo", <<>>, Both, <<Again("pvo", <<Other("window_sign")>>)>>),
  S("kst_sign", "vary", "kst", <<>>, Both, <<Again("kst", <<Other("nsig")>>)>>),
  S("macd_swap", "vary", "macd", <<>>, Both, <<Again("macd", <<<<"window_fast", "eq", "window_slow">>, <<"window_slow", "eq", "window_fast">>>>)>>),
  S("ppo_swap", "vary", "ppo", <<>>, Both, <<Again("ppo", <<<<"window_fast", "eq", "window_slow">>, <<"window_slow", "eq", "window_fast">>>>)>>),
  S("ao_swap", "vary", "ao", <<>>, Both, <<Again("ao", <<<<"window1", "eq", "window2">>, <<"window2", "eq", "window1">>>>)>>),
  S("vpt_dropnans", "vary", "vpt", <<<<"dropnans", FALSE>>>>, Off, <<Again("vpt", <<<<"dropnans", "is", TRUE>>>>)>>),
  S("eom_window", "vary", "eom", <<>>, Both, <<Again("eom", <<Other("window")>>)>>)
  >> \o Fills

RunsOf(s) == <<[m |-> s.m, par |-> <<>>, src |-> <<"bar">>, fn |-> "same"]>> \o s.runs

\* parameters q fit run x after first parameters p of machine m
Fits(m, p, x, q) ==
  LET names == {x.par[i][1] : i \in DOMAIN x.par}
      d     == DefaultParams(x.m)
  IN  /\ \A i \in DOMAIN x.par : LET a == x.par[i] IN
           CASE a[2] = "eq" -> q[a[1]] = p[a[3]] \/ (p[a[3]] = 0 /\ a[1] = "window" /\ q[a[1]] = 1) [] a[2] = "is" -> q[a[1]] = a[3]
             [] a[2] = "odd" -> q[a[1]] = 2 * p[a[3]] - 1 [] a[2] = "twice" -> q[a[1]] = 2 * p[a[3]] [] OTHER -> TRUE
      /\ d # <<>> => \A n \in DOMAIN d \ names : q[n] = (IF x.m = m THEN p[n] ELSE d[n])
FnOf(x, fn) == CASE x.fn = "on" -> TRUE [] x.fn = "off" -> FALSE [] x.fn = "not" -> ~fn [] OTHER -> fn

LOCAL Flat(x, v) == [h |-> x, l |-> x, c |-> x, v |-> v]
\* the bar run x is fed: b the bar, pb the one before (closes NA before the first), o the lines of the runs so far
Feed(x, b, pb, o) ==
  LET d == Sub(b.c, pb.c)
      z(s) == OrElse(IF IsNum(d) THEN Max(Mul(N(s), d), N(0)) ELSE d, N(0))
  IN
  CASE x.src[1] = "bar" -> b
    [] x.src[1] = "on" -> Flat(o[x.src[2]][x.src[3]], b.v)
    [] x.src[1] = "ratio" -> Flat(Div(o[x.src[2]][1], o[x.src[3]][1]), b.v)
    [] OTHER -> Flat(CASE x.src[2] = "volume" -> b.v
                       [] x.src[2] = "middle" -> Mul(Half, Add(b.h, b.l))
                       [] x.src[2] = "typical" -> Typical(b)
                       [] x.src[2] = "typical volume" -> Mul(Typical(b), b.v)
                       [] x.src[2] = "kc high" -> Div(Add(Sub(Mul(N(4), b.h), Mul(N(2), b.l)), b.c), N(3))
                       [] x.src[2] = "kc low" -> Div(Add(Sub(Mul(N(4), b.l), Mul(N(2), b.h)), b.c), N(3))
                       [] x.src[2] = "range" -> Sub(b.h, b.l)
                       [] x.src[2] = "square" -> Mul(b.c, b.c)
                       [] x.src[2] = "change" -> d
                       [] x.src[2] = "size of change" -> Abs(d)
                       [] x.src[2] = "close" -> b.c
                       [] x.src[2] = "true range" -> TrueRange(b, pb.c)
                       [] x.src[2] = "up move" -> Abs(Sub(b.h, pb.l))
                       [] x.src[2] = "down move" -> Abs(Sub(b.l, pb.h))
                       [] x.src[2] \in {"money in", "money out"} ->
                            LET t == Sub(Sum3(b), Sum3(pb)) f == Mul(Typical(b), b.v)
                            IN  Pick(Gt(IF x.src[2] = "money in" THEN t ELSE Neg(t), N(0)), f, N(0))
                       [] x.src[2] = "gain" -> z(1)
                       [] x.src[2] = "loss" -> z(-1)
                       [] x.src[2] = "flow" -> Mul(d, b.v), b.v)

(***************************************************************************)
(* What follows on row r: a set of <<run, line, value>>.  m, P: the first run's machine, parameters of *)
(* the runs; X[r][i][k]: line k of run i on row r; H: the bars.            *)
(***************************************************************************)
Expect(id, m, P, fn, H, X, r) ==
  LET p == P[1]
      L(i, k) == X[r][i][k]
      At(j, i, k) == IF r - j >= 1 /\ r - j <= Len(X) THEN X[r - j][i][k] ELSE NA
      Ago(j, i, k) == IF r > j THEN X[r - j][i][k] ELSE NA
      same(i, K) == {<<i, k, L(1, k)>> : k \in K}
      b == H[r]
  IN
  CASE id = "macd" -> {<<1, 1, Sub(L(2, 1), L(3, 1))>>, <<1, 2, L(4, 1)>>, <<1, 3, Sub(L(1, 1), L(4, 1))>>}
    [] id \in {"ppo", "pvo"} -> {<<1, 1, Pct(L(2, 1), L(3, 1))>>, <<1, 3, Sub(L(1, 1), L(1, 2))>>} \cup (IF fn THEN {} ELSE {<<1, 2, L(4, 1)>>})
    [] id = "ppo_pvo" -> {<<1, 1, Mul(N(100), Div(L(2, 1), L(3, 1)))>>}
    [] id = "trix" -> {<<1, 1, L(5, 1)>>}
    [] id = "stoch_signal" -> {<<1, 2, L(2, 1)>>}
    [] id = "wr" -> {<<1, 1, Sub(L(2, 1), N(100))>>}
    [] id = "stochrsi" -> {<<1, 1, Div(L(3, 1), N(100))>>, <<1, 2, Div(L(4, 1), N(100))>>, <<1, 3, Div(L(5, 1), N(100))>>}
    [] id = "stc" -> {<<1, 1, L(6, 1)>>}
    [] id = "kst" -> {<<1, 1, Add(Add(L(6, 1), Mul(N(2), L(7, 1))), Add(Mul(N(3), L(8, 1)), Mul(N(4), L(9, 1))))>>}
    [] id = "kst_signal" -> {<<1, 2, L(2, 1)>>, <<1, 3, Sub(L(1, 1), L(2, 1))>>}
    [] id = "ao" -> {<<1, 1, Sub(L(2, 1), L(3, 1))>>}
    [] id = "kc_atr" -> LET k == Mul(Parse(p.multiplier), L(3, 1))
                        IN {<<1, 1, L(2, 1)>>, <<1, 2, Add(L(2, 1), k)>>, <<1, 3, Sub(L(2, 1), k)>>,
                            <<1, 4, Mul(N(100), Div(Mul(N(2), k), L(2, 1)))>>}
    [] id = "kc_typical" -> {<<1, 1, L(2, 1)>>, <<1, 2, L(3, 1)>>, <<1, 3, L(4, 1)>>}
    [] id = "bb_middle" -> {<<1, 1, L(2, 1)>>}
    \* the square of the half width is dev^2 times (mean of squares - square of mean)
    [] id = "bb_width" -> LET d == Parse(p.window_dev) s == Sub(L(3, 1), Mul(L(2, 1), L(2, 1)))
                          IN IF \E x \in {s} : IsNum(x) /\ TRUE \in LtS(x, N(0)) THEN {}
                             ELSE {<<1, 2, Add(L(2, 1), Mul(d, Sqrt(s)))>>, <<1, 3, Sub(L(2, 1), Mul(d, Sqrt(s)))>>}
    [] id = "ichimoku" ->
         LET j == IF p.visual THEN p.window2 ELSE 0 IN
         {<<1, 1, L(2, 3)>>, <<1, 2, L(3, 3)>>, <<1, 3, Mul(Half, Add(Ago(j, 2, 3), Ago(j, 3, 3)))>>, <<1, 4, Ago(j, 4, 3)>>}
    [] id = "dc_width" -> {<<1, 4, Mul(N(100), Div(Sub(L(1, 1), L(1, 2)), L(2, 1)))>>}
    [] id = "dpo" -> LET j == (p.window \div 2) + 1 IN {<<1, 1, Sub(IF r > j THEN H[r - j].c ELSE NA, L(2, 1))>>}
    [] id = "mass" -> {<<1, 1, Mul(N(p.window_slow), L(4, 1))>>}
    [] id = "fi" -> {<<1, 1, L(2, 1)>>}
    [] id = "eom_average" -> {<<1, 2, L(2, 1)>>}
    [] id = "vpt_average" -> IF p.smoothing_factor = 0 THEN {<<1, 1, L(2, 1)>>} ELSE {<<1, 1, L(3, 1)>>}
    [] id = "tsi" -> {<<1, 1, Mul(N(100), Div(L(3, 1), L(5, 1)))>>}
    [] id = "rsi" -> IF r < p.window THEN {} 
                     ELSE {<<1, 1, Pick(EqS(L(3, 1), N(0)), N(100), Mul(N(100), Div(L(2, 1), Add(L(2, 1), L(3, 1)))))>>}
    [] id = "cmf" -> IF r < p.window THEN {}
                     ELSE {<<1, 1, Div(Sub(L(2, 1), IF r = p.window THEN N(0) ELSE Ago(p.window, 2, 1)), Mul(N(p.window), L(3, 1)))>>}
    [] id = "vwap" -> {<<1, 1, Div(L(2, 1), L(3, 1))>>}
    [] id = "cci" -> LET t == Sub(Typical(b), L(2, 1))         \* mean deviation over the window
                         W == {j \in 0..(p.window - 1) : r - j >= 1}
                         D == [j \in 1..p.window |-> IF r - j + 1 >= 1 THEN Abs(Sub(Typical(H[r - j + 1]), L(2, 1))) ELSE NA]
                     IN  IF r < p.window THEN {}
                         ELSE {<<1, 1, Div(Mul(t, N(p.window)), Mul(Parse(p.constant), SumDef(D)))>>}
    [] id = "dlr" -> {<<1, 1, Mul(N(100), Ln(Add(N(1), Div(L(2, 1), N(100)))))>>}
    [] id = "cr" -> IF r = 1 THEN {<<1, 1, N(0)>>}
                    ELSE {<<1, 1, Sub(Mul(Add(N(100), Ago(1, 1, 1)), Add(N(1), Div(L(2, 1), N(100)))), N(100))>>}
    [] id = "roc" -> {<<1, 1, L(2, 1)>>}
    [] id = "sma" -> IF r <= p.window THEN {}
                     ELSE {<<1, 1, Add(Ago(1, 1, 1), Div(Mul(H[r - p.window].c, L(2, 1)), N(100 * p.window)))>>}
    [] id = "wma" -> IF r <= p.window THEN {}
                     ELSE {<<1, 1, Add(Ago(1, 1, 1), Div(Sub(b.c, Ago(1, 2, 1)), Frac(p.window + 1, 2)))>>}
    [] id = "kama" -> LET w == p.window IN
         IF r <= w + 1 THEN {}
         ELSE LET way == Mul(N(w), L(3, 1))
                  er  == Div(Abs(Div(Mul(H[r - w].c, L(2, 1)), N(100))), way)
                  q   == Add(Mul(er, Sub(Frac(2, p.pow1 + 1), Frac(2, p.pow2 + 1))), Frac(2, p.pow2 + 1))
              IN  IF TRUE \in EqS(way, N(0)) THEN {} ELSE {<<1, 1, Add(Ago(1, 1, 1), Mul(Mul(q, q), Sub(b.c, Ago(1, 1, 1))))>>}
    [] id = "stoch" -> {<<1, 1, Mul(N(100), Div(Sub(b.c, L(2, 2)), Sub(L(2, 1), L(2, 2))))>>}
    [] id = "ui" -> IF r < p.window THEN {}
                    ELSE {<<1, 1, Sqrt(SumDef(TLCEval([j \in 1..p.window |->
                            LET d == Pct(H[r - j + 1].c, X[r - j + 1][2][1]) IN Div(Mul(d, d), N(p.window))])))>>}
    [] id = "atr" -> IF r < p.window THEN {}
                     ELSE IF r = p.window THEN {<<1, 1, Div(SumDef(TLCEval([j \in 1..r |-> X[j][2][1]])), N(r))>>}
                     ELSE {<<1, 1, Div(Add(Mul(N(p.window - 1), Ago(1, 1, 1)), L(2, 1)), N(p.window))>>}
    [] id = "vortex" -> {<<1, 1, Div(L(2, 1), L(4, 1))>>, <<1, 2, Div(L(3, 1), L(4, 1))>>}
    [] id = "mfi" -> {<<1, 1, Mul(N(100), Div(L(2, 1), Add(L(2, 1), L(3, 1))))>>}
    [] id = "adx" -> LET sm == Add(L(1, 2), L(1, 3))
                         dx == Pick(EqS(sm, N(0)), N(0), Mul(N(100), Abs(Div(Sub(L(1, 2), L(1, 3)), sm))))
                     IN  IF r <= 2 * p.window THEN {} ELSE {<<1, 1, Div(Add(Mul(N(p.window - 1), Ago(1, 1, 1)), dx), N(p.window))>>}
    [] id = "nvi" -> IF r = 1 THEN {}
                     ELSE {<<1, 1, Pick(LtS(b.v, H[r - 1].v), Mul(Ago(1, 1, 1), Add(N(1), Div(L(2, 1), N(100)))), Ago(1, 1, 1))>>}
    [] id = "vpt" -> IF r < 3 THEN {} ELSE {<<1, 1, Add(Ago(1, 1, 1), Mul(b.v, Div(L(2, 1), N(100))))>>}
    [] id = "obv" -> IF r = 1 THEN {} ELSE {<<1, 1, Add(Ago(1, 1, 1), Pick(LtS(L(2, 1), N(0)), Neg(b.v), Pick(Gt(L(2, 1), N(0)), b.v, N(0))))>>}
    [] id = "pvo_ppo" -> {<<1, k, L(2, k)>> : k \in 1..3}
    \* the close's place in its own bar
    [] id = "adi" -> LET x == Mul(b.v, Sub(Div(L(2, 1), N(50)), N(1))) IN
                     IF TRUE \in EqS(b.h, b.l) THEN IF r = 1 THEN {} ELSE {<<1, 1, Ago(1, 1, 1)>>}
                     ELSE {<<1, 1, IF r = 1 THEN x ELSE Add(Ago(1, 1, 1), x)>>}
    [] id = "kc_atr1" -> {<<1, 2, Add(L(1, 1), Mul(Parse(p.multiplier), L(2, 1)))>>}
    \* a window of twice the length is made of two windows
    [] id = "sma_twice" -> IF r <= p.window THEN {} ELSE {<<2, 1, Mul(Half, Add(L(1, 1), Ago(p.window, 1, 1)))>>}
    [] id = "roc_twice" -> IF r <= p.window THEN {}
                           ELSE {<<2, 1, Sub(Div(Mul(Add(N(100), L(1, 1)), Add(N(100), Ago(p.window, 1, 1))), N(100)), N(100))>>}
    [] id = "dc_twice" -> IF r < 2 * p.window THEN {}
                          ELSE {<<2, 1, Max(L(1, 1), Ago(p.window, 1, 1))>>, <<2, 2, Min(L(1, 2), Ago(p.window, 1, 2))>>}
    [] id \in {"vwap_twice", "cmf_twice", "vortex_twice"} ->
         IF r <= p.window THEN {}
         ELSE LET u == L(3, 1) z == Ago(p.window, 3, 1)
              IN  IF TRUE \in EqS(u, N(0)) \cup EqS(z, N(0)) THEN {}
                  ELSE {<<2, k, Div(Add(Mul(L(1, k), u), Mul(Ago(p.window, 1, k), z)), Add(u, z))>> : k \in IF m = "vortex" THEN 1..2 ELSE {1}}
    \* %R is 0 at the top; the top of both windows together is the top of one of them
    [] id = "wr_twice" -> IF r < p.lbp + 1 THEN {} ELSE IF TRUE \in EqS(L(2, 1), N(0)) /\ IsNum(L(1, 1)) THEN {<<1, 1, N(0)>>} ELSE {}
    [] id = "bb_twice" -> IF r <= p.window THEN {} ELSE {<<2, 1, Mul(Half, Add(L(1, 1), Ago(p.window, 1, 1)))>>}
    [] id = "mass_twice" -> IF r <= p.window_slow THEN {} ELSE {<<2, 1, Add(L(1, 1), Ago(p.window_slow, 1, 1))>>}
    [] id \in {"bb_dev", "kc_multiplier"} ->
         LET f == IF id = "bb_dev" THEN Div(Parse(P[2].window_dev), Parse(p.window_dev)) ELSE Div(Parse(P[2].multiplier), Parse(p.multiplier))
         IN  {<<2, 1, L(1, 1)>>} \cup {<<2, k, Add(L(1, 1), Mul(f, Sub(L(1, k), L(1, 1))))>> : k \in 2..3} \cup {<<2, 4, Mul(f, L(1, 4))>>}
    [] id = "kc_atr_window" -> same(2, {1})
    [] id = "kc_original" -> same(2, 1..7)
    [] id = "cci_constant" -> {<<2, 1, Mul(L(1, 1), Div(Parse(p.constant), Parse(P[2].constant)))>>}
    [] id = "uo_weights" ->
         LET a == Parse(p.weight1) c == Parse(p.weight2) d == Parse(p.weight3)
         IN  {<<1, 1, Div(Add(Add(Mul(a, L(2, 1)), Mul(c, L(3, 1))), Mul(d, L(4, 1))), Add(Add(a, c), d))>>}
    [] id = "uo_order" -> same(2, {1})
    \* a negative offset shows lines early: they are compared on the later row
    [] id = "dc_offset" -> IF p.offset >= 0 THEN {<<1, k, Ago(p.offset, 2, k)>> : k \in 1..5}
                           ELSE IF r + p.offset < 1 THEN {} ELSE {<<2, k, X[r + p.offset][1][k]>> : k \in 1..5}
    [] id = "ichimoku_visual" -> same(2, 1..2) \cup {<<1, k, Ago(p.window2, 2, k)>> : k \in 3..4}
    [] id = "ichimoku_window1" -> same(2, {2, 4})
    [] id = "ichimoku_window3" -> same(2, 1..3)
    [] id = "stoch_smooth" -> same(2, {1})
    [] id = "stochrsi_smooth1" -> same(2, {1})
    [] id = "stochrsi_smooth2" -> same(2, 1..2)
    [] id \in {"macd_sign", "ppo_sign", "pvo_sign", "kst_sign"} -> same(2, {1})
    [] id = "macd_swap" -> {<<2, k, Neg(L(1, k))>> : k \in 1..3}
    \* (1 + ppo) (1 + swapped ppo) = 1
    [] id = "ppo_swap" -> {<<2, 1, Sub(Div(N(10000), Add(N(100), L(1, 1))), N(100))>>}
    [] id = "ao_swap" -> {<<2, 1, Neg(L(1, 1))>>}
    [] id = "vpt_dropnans" -> same(2, {1})
    [] id = "eom_window" -> same(2, {1})
    [] OTHER -> IF SubSeq(id, 1, 5) = "fill_" THEN {<<2, k, L(1, k)>> : k \in {k \in Steady[m] : IsNum(L(1, k)) /\ (m \in {"bb", "kc"} => IsNum(L(1, IF k > 5 THEN 2 ELSE 1)))}} ELSE {}

Agreeing(x, y, loose) == IsAny(x) \/ IsAny(y) \/ (IsNum(x) /\ IsNum(y) /\ TRUE \in EqS(x, y)) \/ (IsNA(x) /\ IsNA(y))
                         \/ (loose /\ (IsNA(x) \/ IsNA(y)))
==========================================================================
