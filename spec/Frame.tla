------------------------------- MODULE Frame -------------------------------
(***************************************************************************)
(* The DataFrame helpers (add_*_ta).  A frame is a sequence of columns     *)
(* [n |-> name, v |-> provenance]; a provenance says which indicator, with *)
(* which parameters, output, fillna switch and input columns, a column     *)
(* shows.                                                                  *)
(***************************************************************************)
EXTENDS Catalog, FiniteSets

\* <<column suffix, indicator, output index, parameters that differ from the class defaults, costly>>
\* costly columns are left out when vectorized = TRUE
LOCAL Col(n, m, o, p) == [n |-> n, m |-> m, o |-> o, p |-> p, slow |-> FALSE]
LOCAL Slow(n, m, o, p) == [n |-> n, m |-> m, o |-> o, p |-> p, slow |-> TRUE]

FrameCatalog == [
  volume |-> <<
    Col("volume_adi", "adi", 1, <<>>), Col("volume_obv", "obv", 1, <<>>), Col("volume_cmf", "cmf", 1, <<>>),
    Col("volume_fi", "fi", 1, <<>>), Col("volume_em", "eom", 1, <<>>), Col("volume_sma_em", "eom", 2, <<>>),
    Col("volume_vpt", "vpt", 1, <<>>), Col("volume_vwap", "vwap", 1, <<>>),
    Slow("volume_mfi", "mfi", 1, <<>>), Slow("volume_nvi", "nvi", 1, <<>>)>>,
  volatility |-> <<
    Col("volatility_bbm", "bb", 1, <<>>), Col("volatility_bbh", "bb", 2, <<>>), Col("volatility_bbl", "bb", 3, <<>>),
    Col("volatility_bbw", "bb", 4, <<>>), Col("volatility_bbp", "bb", 5, <<>>), Col("volatility_bbhi", "bb", 6, <<>>),
    Col("volatility_bbli", "bb", 7, <<>>)>> \o
    LET K(n, o) == Col(n, "kc", o, <<<<"window", 10>>>>)
    IN  <<K("volatility_kcc", 1), K("volatility_kch", 2), K("volatility_kcl", 3), K("volatility_kcw", 4),
          K("volatility_kcp", 5), K("volatility_kchi", 6), K("volatility_kcli", 7)>> \o <<
    Col("volatility_dcl", "dc", 2, <<>>), Col("volatility_dch", "dc", 1, <<>>), Col("volatility_dcm", "dc", 3, <<>>),
    Col("volatility_dcw", "dc", 4, <<>>), Col("volatility_dcp", "dc", 5, <<>>),
    Slow("volatility_atr", "atr", 1, <<<<"window", 10>>>>), Slow("volatility_ui", "ui", 1, <<>>)>>,
  trend |-> <<
    Col("trend_macd", "macd", 1, <<>>), Col("trend_macd_signal", "macd", 2, <<>>), Col("trend_macd_diff", "macd", 3, <<>>),
    Col("trend_sma_fast", "sma", 1, <<<<"window", 12>>>>), Col("trend_sma_slow", "sma", 1, <<<<"window", 26>>>>),
    Col("trend_ema_fast", "ema", 1, <<<<"window", 12>>>>), Col("trend_ema_slow", "ema", 1, <<<<"window", 26>>>>),
    Col("trend_vortex_ind_pos", "vortex", 1, <<>>), Col("trend_vortex_ind_neg", "vortex", 2, <<>>),
    Col("trend_vortex_ind_diff", "vortex", 3, <<>>), Col("trend_trix", "trix", 1, <<>>),
    Col("trend_mass_index", "mass", 1, <<>>), Col("trend_dpo", "dpo", 1, <<>>),
    Col("trend_kst", "kst", 1, <<>>), Col("trend_kst_sig", "kst", 2, <<>>), Col("trend_kst_diff", "kst", 3, <<>>),
    Col("trend_ichimoku_conv", "ichimoku", 1, <<>>), Col("trend_ichimoku_base", "ichimoku", 2, <<>>),
    Col("trend_ichimoku_a", "ichimoku", 3, <<>>), Col("trend_ichimoku_b", "ichimoku", 4, <<>>),
    Col("trend_stc", "stc", 1, <<>>),
    Slow("trend_adx", "adx", 1, <<>>), Slow("trend_adx_pos", "adx", 2, <<>>), Slow("trend_adx_neg", "adx", 3, <<>>),
    Slow("trend_cci", "cci", 1, <<>>),
    Slow("trend_visual_ichimoku_a", "ichimoku", 3, <<<<"visual", TRUE>>>>),
    Slow("trend_visual_ichimoku_b", "ichimoku", 4, <<<<"visual", TRUE>>>>),
    Slow("trend_aroon_up", "aroon", 1, <<>>), Slow("trend_aroon_down", "aroon", 2, <<>>),
    Slow("trend_aroon_ind", "aroon", 3, <<>>),
    Slow("trend_psar_up", "psar", 2, <<>>), Slow("trend_psar_down", "psar", 3, <<>>),
    Slow("trend_psar_up_indicator", "psar", 4, <<>>), Slow("trend_psar_down_indicator", "psar", 5, <<>>)>>,
  momentum |-> <<
    Col("momentum_rsi", "rsi", 1, <<>>), Col("momentum_stoch_rsi", "stochrsi", 1, <<>>),
    Col("momentum_stoch_rsi_k", "stochrsi", 2, <<>>), Col("momentum_stoch_rsi_d", "stochrsi", 3, <<>>),
    Col("momentum_tsi", "tsi", 1, <<>>), Col("momentum_uo", "uo", 1, <<>>),
    Col("momentum_stoch", "stoch", 1, <<>>), Col("momentum_stoch_signal", "stoch", 2, <<>>),
    Col("momentum_wr", "wr", 1, <<>>), Col("momentum_ao", "ao", 1, <<>>), Col("momentum_roc", "roc", 1, <<>>),
    Col("momentum_ppo", "ppo", 1, <<>>), Col("momentum_ppo_signal", "ppo", 2, <<>>), Col("momentum_ppo_hist", "ppo", 3, <<>>),
    Col("momentum_pvo", "pvo", 1, <<>>), Col("momentum_pvo_signal", "pvo", 2, <<>>), Col("momentum_pvo_hist", "pvo", 3, <<>>),
    Slow("momentum_kama", "kama", 1, <<>>)>>,
  others |-> <<
    Col("others_dr", "dr", 1, <<>>), Col("others_dlr", "dlr", 1, <<>>), Col("others_cr", "cr", 1, <<>>)>>
]

(* ---- the frame as a machine ---- *)
Groups == {"volume", "volatility", "trend", "momentum", "others"}
\* src: the bars the call is pointed at ("": columns h, l, c, v; "2": columns h2, l2, c2, v2; "1": all prices
\* from column c; "n": columns high, low, close, volume)
Prefixes == {"", "x_"}
Sources == {"", "2", "1", "n"}
Calls == [grp : Groups \cup {"all"}, prefix : Prefixes, vec : BOOLEAN, fn : BOOLEAN, src : Sources]
         \ [grp : {"others"}, prefix : Prefixes, vec : {TRUE}, fn : BOOLEAN, src : Sources]   \* add_others_ta has no such switch

LOCAL Range(s) == {s[i] : i \in DOMAIN s}
Cols(c) == IF c.grp = "all" THEN UNION {Range(FrameCatalog[g]) : g \in Groups} ELSE Range(FrameCatalog[c.grp])
\* the columns one call writes: name -> provenance
Written(c) ==
  LET S == {x \in Cols(c) : ~(c.vec /\ x.slow)}
  IN  [n \in {c.prefix \o x.n : x \in S} |->
         LET x == CHOOSE x \in S : c.prefix \o x.n = n IN [col |-> x.n, fn |-> c.fn, src |-> c.src]]

\* frame after a call: columns written before are written anew, all others stay
After(f, c) == LET W == Written(c)
               IN  [n \in DOMAIN f \cup DOMAIN W |-> IF n \in DOMAIN W THEN W[n] ELSE f[n]]

\* columns a frame comes with; some of them have names that a call might write or mistake for its inputs
Given == {"o", "h", "l", "c", "v", "note", "h2", "l2", "c2", "v2", "high", "low", "close", "volume"}
Distractors == {"open", "x_open", "x_high", "x_low", "x_close", "x_volume", "Close", "adj_close", "close2",
                "trend_sma_fast", "x_momentum_rsi", "volume_adi", "x_volatility_bbm", "others_dr", "x_trend_ema_slow"}
GivenFrame(G) == [n \in G |-> [col |-> "=" \o n, fn |-> FALSE, src |-> ""]]
RECURSIVE AfterAll(_, _)
AfterAll(f, cs) == IF cs = <<>> THEN f ELSE AfterAll(After(f, Head(cs)), Tail(cs))
==========================================================================
