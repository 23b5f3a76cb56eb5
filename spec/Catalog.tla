------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* The public surface: every indicator class, its parameters (with the     *)
(* documented defaults), its output lines, and the module-level functions. *)
(*                                                                         *)
(* Entries                                                                 *)
(*   id         name of the machine that specifies the indicator           *)
(*   mod, cls   Python module and class                                    *)
(*   ins        input columns, in constructor order                        *)
(*   pars       <<name, kind, default>>; kind "w": window >= 1,            *)
(*              "k": count >= 0, "f": real (decimal string), "b": switch   *)
(*   outs       <<method, fill, p, v>>: with fillna on, a gap repeats the  *)
(*              last value and the leading gap shows `fill`:               *)
(*                "none": there are no gaps,  "<number>": that number,     *)
(*                "back": the first value that follows (0 if none does);   *)
(*              p, v: the output scales like price^p * volume^v            *)
(*   fns        <<function, output index, hidden parameters, defaults      *)
(*              which differ from the class>>                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL E(id, mod, cls, ins, pars, outs, fns) ==
  [id |-> id, mod |-> mod, cls |-> cls, ins |-> ins, pars |-> pars, outs |-> outs, fns |-> fns]
LOCAL C    == <<"close">>
LOCAL HL   == <<"high", "low">>
LOCAL HLC  == <<"high", "low", "close">>
LOCAL HLCV == <<"high", "low", "close", "volume">>
LOCAL CV   == <<"close", "volume">>
LOCAL W(n, d) == <<n, "w", d>>
LOCAL F(n, d) == <<n, "f", d>>
LOCAL Fs(fs, ix) == [i \in DOMAIN fs |-> <<fs[i], ix[i], <<>>, <<>>>>]
LOCAL F1(f) == <<<<f, 1, <<>>, <<>>>>>>

Catalog == <<
  (* momentum *)
  E("rsi", "momentum", "RSIIndicator", C, <<W("window", 14)>>, <<<<"rsi", "50", 0, 0>>>>, F1("rsi")),
  E("tsi", "momentum", "TSIIndicator", C, <<W("window_slow", 25), W("window_fast", 13)>>,
    <<<<"tsi", "0", 0, 0>>>>, F1("tsi")),
  E("uo", "momentum", "UltimateOscillator", HLC,
    <<W("window1", 7), W("window2", 14), W("window3", 28),
      F("weight1", "4.0"), F("weight2", "2.0"), F("weight3", "1.0")>>,
    <<<<"ultimate_oscillator", "50", 0, 0>>>>, F1("ultimate_oscillator")),
  E("stoch", "momentum", "StochasticOscillator", HLC, <<W("window", 14), W("smooth_window", 3)>>,
    <<<<"stoch", "50", 0, 0>>, <<"stoch_signal", "50", 0, 0>>>>, Fs(<<"stoch", "stoch_signal">>, <<1, 2>>)),
  E("kama", "momentum", "KAMAIndicator", C, <<W("window", 10), W("pow1", 2), W("pow2", 30)>>,
    <<<<"kama", "none", 1, 0>>>>, F1("kama")),
  E("roc", "momentum", "ROCIndicator", C, <<W("window", 12)>>, <<<<"roc", "0", 0, 0>>>>, F1("roc")),
  E("ao", "momentum", "AwesomeOscillatorIndicator", HL, <<W("window1", 5), W("window2", 34)>>,
    <<<<"awesome_oscillator", "0", 1, 0>>>>, F1("awesome_oscillator")),
  E("wr", "momentum", "WilliamsRIndicator", HLC, <<W("lbp", 14)>>, <<<<"williams_r", "-50", 0, 0>>>>,
    F1("williams_r")),
  E("stochrsi", "momentum", "StochRSIIndicator", C, <<W("window", 14), W("smooth1", 3), W("smooth2", 3)>>,
    <<<<"stochrsi", "0", 0, 0>>, <<"stochrsi_k", "0", 0, 0>>, <<"stochrsi_d", "0", 0, 0>>>>,
    Fs(<<"stochrsi", "stochrsi_k", "stochrsi_d">>, <<1, 2, 3>>)),
  E("ppo", "momentum", "PercentagePriceOscillator", C,
    <<W("window_slow", 26), W("window_fast", 12), W("window_sign", 9)>>,
    <<<<"ppo", "0", 0, 0>>, <<"ppo_signal", "0", 0, 0>>, <<"ppo_hist", "0", 0, 0>>>>,
    Fs(<<"ppo", "ppo_signal", "ppo_hist">>, <<1, 2, 3>>)),
  E("pvo", "momentum", "PercentageVolumeOscillator", <<"volume">>,
    <<W("window_slow", 26), W("window_fast", 12), W("window_sign", 9)>>,
    <<<<"pvo", "0", 0, 0>>, <<"pvo_signal", "0", 0, 0>>, <<"pvo_hist", "0", 0, 0>>>>,
    Fs(<<"pvo", "pvo_signal", "pvo_hist">>, <<1, 2, 3>>)),
  (* trend *)
  E("aroon", "trend", "AroonIndicator", HL, <<W("window", 25)>>,
    <<<<"aroon_up", "0", 0, 0>>, <<"aroon_down", "0", 0, 0>>, <<"aroon_indicator", "0", 0, 0>>>>,
    Fs(<<"aroon_up", "aroon_down">>, <<1, 2>>)),
  E("macd", "trend", "MACD", C, <<W("window_slow", 26), W("window_fast", 12), W("window_sign", 9)>>,
    <<<<"macd", "0", 1, 0>>, <<"macd_signal", "0", 1, 0>>, <<"macd_diff", "0", 1, 0>>>>,
    <<<<"macd", 1, <<"window_sign">>, <<>>>>, <<"macd_signal", 2, <<>>, <<>>>>, <<"macd_diff", 3, <<>>, <<>>>>>>),
  E("ema", "trend", "EMAIndicator", C, <<W("window", 14)>>, <<<<"ema_indicator", "none", 1, 0>>>>,
    <<<<"ema_indicator", 1, <<>>, <<<<"window", 12>>>>>>>>),
  E("sma", "trend", "SMAIndicator", C, <<W("window", 12)>>, <<<<"sma_indicator", "none", 1, 0>>>>,
    F1("sma_indicator")),
  E("wma", "trend", "WMAIndicator", C, <<W("window", 9)>>, <<<<"wma", "0", 1, 0>>>>, F1("wma_indicator")),
  E("trix", "trend", "TRIXIndicator", C, <<W("window", 15)>>, <<<<"trix", "0", 0, 0>>>>, F1("trix")),
  E("mass", "trend", "MassIndex", HL, <<W("window_fast", 9), W("window_slow", 25)>>,
    <<<<"mass_index", "0", 0, 0>>>>, F1("mass_index")),
  E("ichimoku", "trend", "IchimokuIndicator", HL,
    <<W("window1", 9), W("window2", 26), W("window3", 52), <<"visual", "b", FALSE>>>>,
    <<<<"ichimoku_conversion_line", "back", 1, 0>>, <<"ichimoku_base_line", "back", 1, 0>>,
      <<"ichimoku_a", "back", 1, 0>>, <<"ichimoku_b", "back", 1, 0>>>>,
    <<<<"ichimoku_conversion_line", 1, <<"window3">>, <<>>>>, <<"ichimoku_base_line", 2, <<"window3">>, <<>>>>,
      <<"ichimoku_a", 3, <<"window3">>, <<>>>>, <<"ichimoku_b", 4, <<"window1">>, <<>>>>>>),
  E("kst", "trend", "KSTIndicator", C,
    <<W("roc1", 10), W("roc2", 15), W("roc3", 20), W("roc4", 30), W("window1", 10), W("window2", 10),
      W("window3", 10), W("window4", 15), W("nsig", 9)>>,
    <<<<"kst", "0", 0, 0>>, <<"kst_sig", "0", 0, 0>>, <<"kst_diff", "0", 0, 0>>>>,
    <<<<"kst", 1, <<"nsig">>, <<>>>>, <<"kst_sig", 2, <<>>, <<>>>>>>),
  E("dpo", "trend", "DPOIndicator", C, <<W("window", 20)>>, <<<<"dpo", "0", 1, 0>>>>, F1("dpo")),
  E("cci", "trend", "CCIIndicator", HLC, <<W("window", 20), F("constant", "0.015")>>,
    <<<<"cci", "0", 0, 0>>>>, F1("cci")),
  E("adx", "trend", "ADXIndicator", HLC, <<W("window", 14)>>,
    <<<<"adx", "none", 0, 0>>, <<"adx_pos", "none", 0, 0>>, <<"adx_neg", "none", 0, 0>>>>,
    Fs(<<"adx", "adx_pos", "adx_neg">>, <<1, 2, 3>>)),
  E("vortex", "trend", "VortexIndicator", HLC, <<W("window", 14)>>,
    <<<<"vortex_indicator_pos", "1", 0, 0>>, <<"vortex_indicator_neg", "1", 0, 0>>,
      <<"vortex_indicator_diff", "0", 0, 0>>>>,
    Fs(<<"vortex_indicator_pos", "vortex_indicator_neg">>, <<1, 2>>)),
  E("psar", "trend", "PSARIndicator", HLC, <<F("step", "0.02"), F("max_step", "0.2")>>,
    <<<<"psar", "back", 1, 0>>, <<"psar_up", "back", 1, 0>>, <<"psar_down", "back", 1, 0>>,
      <<"psar_up_indicator", "none", 0, 0>>, <<"psar_down_indicator", "none", 0, 0>>>>,
    Fs(<<"psar_up", "psar_down", "psar_up_indicator", "psar_down_indicator">>, <<2, 3, 4, 5>>)),
  E("stc", "trend", "STCIndicator", C,
    <<W("window_slow", 50), W("window_fast", 23), W("cycle", 10), W("smooth1", 3), W("smooth2", 3)>>,
    <<<<"stc", "0", 0, 0>>>>, F1("stc")),
  (* volatility *)
  E("atr", "volatility", "AverageTrueRange", HLC, <<W("window", 14)>>,
    <<<<"average_true_range", "none", 1, 0>>>>, F1("average_true_range")),
  E("bb", "volatility", "BollingerBands", C, <<W("window", 20), F("window_dev", "2")>>,
    <<<<"bollinger_mavg", "back", 1, 0>>, <<"bollinger_hband", "back", 1, 0>>, <<"bollinger_lband", "back", 1, 0>>,
      <<"bollinger_wband", "0", 0, 0>>, <<"bollinger_pband", "0", 0, 0>>,
      <<"bollinger_hband_indicator", "none", 0, 0>>, <<"bollinger_lband_indicator", "none", 0, 0>>>>,
    <<<<"bollinger_mavg", 1, <<"window_dev">>, <<>>>>>> \o
    Fs(<<"bollinger_hband", "bollinger_lband", "bollinger_wband", "bollinger_pband",
         "bollinger_hband_indicator", "bollinger_lband_indicator">>, <<2, 3, 4, 5, 6, 7>>)),
  E("kc", "volatility", "KeltnerChannel", HLC,
    <<W("window", 20), W("window_atr", 10), <<"original_version", "b", TRUE>>, F("multiplier", "2")>>,
    <<<<"keltner_channel_mband", "back", 1, 0>>, <<"keltner_channel_hband", "back", 1, 0>>,
      <<"keltner_channel_lband", "back", 1, 0>>, <<"keltner_channel_wband", "0", 0, 0>>,
      <<"keltner_channel_pband", "0", 0, 0>>,
      <<"keltner_channel_hband_indicator", "none", 0, 0>>, <<"keltner_channel_lband_indicator", "none", 0, 0>>>>,
    LET fs == <<"keltner_channel_mband", "keltner_channel_hband", "keltner_channel_lband", "keltner_channel_wband",
                "keltner_channel_pband", "keltner_channel_hband_indicator", "keltner_channel_lband_indicator">>
    IN  [i \in 1..7 |-> <<fs[i], i, <<"multiplier">>, <<>>>>]),
  E("dc", "volatility", "DonchianChannel", HLC, <<W("window", 20), <<"offset", "k", 0>>>>,
    <<<<"donchian_channel_hband", "back", 1, 0>>, <<"donchian_channel_lband", "back", 1, 0>>,
      <<"donchian_channel_mband", "back", 1, 0>>, <<"donchian_channel_wband", "0", 0, 0>>,
      <<"donchian_channel_pband", "0", 0, 0>>>>,
    Fs(<<"donchian_channel_hband", "donchian_channel_lband">>, <<1, 2>>) \o
    LET fs == <<"donchian_channel_mband", "donchian_channel_wband", "donchian_channel_pband">>
    IN  [i \in 1..3 |-> <<fs[i], i + 2, <<>>, <<<<"window", 10>>>>>>]),
  E("ui", "volatility", "UlcerIndex", C, <<W("window", 14)>>, <<<<"ulcer_index", "0", 0, 0>>>>, F1("ulcer_index")),
  (* volume *)
  E("adi", "volume", "AccDistIndexIndicator", HLCV, <<>>, <<<<"acc_dist_index", "none", 0, 1>>>>,
    F1("acc_dist_index")),
  E("obv", "volume", "OnBalanceVolumeIndicator", CV, <<>>, <<<<"on_balance_volume", "none", 0, 1>>>>,
    F1("on_balance_volume")),
  E("cmf", "volume", "ChaikinMoneyFlowIndicator", HLCV, <<W("window", 20)>>,
    <<<<"chaikin_money_flow", "0", 0, 0>>>>, F1("chaikin_money_flow")),
  E("fi", "volume", "ForceIndexIndicator", CV, <<W("window", 13)>>, <<<<"force_index", "0", 1, 1>>>>,
    F1("force_index")),
  E("eom", "volume", "EaseOfMovementIndicator", <<"high", "low", "volume">>, <<W("window", 14)>>,
    <<<<"ease_of_movement", "0", 2, -1>>, <<"sma_ease_of_movement", "0", 2, -1>>>>,
    Fs(<<"ease_of_movement", "sma_ease_of_movement">>, <<1, 2>>)),
  E("vpt", "volume", "VolumePriceTrendIndicator", CV,
    <<<<"smoothing_factor", "k", 0>>, <<"dropnans", "b", FALSE>>>>,
    <<<<"volume_price_trend", "0", 0, 1>>>>, F1("volume_price_trend")),
  E("nvi", "volume", "NegativeVolumeIndexIndicator", CV, <<>>, <<<<"negative_volume_index", "none", 0, 0>>>>,
    F1("negative_volume_index")),
  E("mfi", "volume", "MFIIndicator", HLCV, <<W("window", 14)>>, <<<<"money_flow_index", "50", 0, 0>>>>,
    F1("money_flow_index")),
  E("vwap", "volume", "VolumeWeightedAveragePrice", HLCV, <<W("window", 14)>>,
    <<<<"volume_weighted_average_price", "0", 1, 0>>>>, F1("volume_weighted_average_price")),
  (* others *)
  E("dr", "others", "DailyReturnIndicator", C, <<>>, <<<<"daily_return", "0", 0, 0>>>>, F1("daily_return")),
  E("dlr", "others", "DailyLogReturnIndicator", C, <<>>, <<<<"daily_log_return", "0", 0, 0>>>>,
    F1("daily_log_return")),
  E("cr", "others", "CumulativeReturnIndicator", C, <<>>, <<<<"cumulative_return", "none", 0, 0>>>>,
    F1("cumulative_return"))
>>

Ids == {Catalog[i].id : i \in DOMAIN Catalog}
EntryOf == [x \in Ids |-> Catalog[CHOOSE i \in DOMAIN Catalog : Catalog[i].id = x]]
OutsOf(x) == EntryOf[x].outs

\* parameters that come after fillna in the argument list
Late(x) == CASE x = "kc" -> {"original_version", "multiplier"} [] x = "vpt" -> {"smoothing_factor", "dropnans"} [] OTHER -> {}

\* constructors without a documented default for every parameter
Demanding == {"sma"}

\* the documented default parameters, as a record
DefaultParams(x) ==
  LET ps == EntryOf[x].pars
  IN  [n \in {ps[i][1] : i \in DOMAIN ps} |-> LET i == CHOOSE i \in DOMAIN ps : ps[i][1] = n IN ps[i][3]]
==========================================================================
