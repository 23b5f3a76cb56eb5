------------------------------ MODULE Machines ------------------------------
(***************************************************************************)
(* All indicator machines behind one interface, and the fillna stage.      *)
(*   MInit(m, p)             state before the first bar                    *)
(*   MSteps(m, p, fn, s, b)  possible [s, o] after bar b                   *)
(***************************************************************************)
EXTENDS Averages, Oscillators, Channels, Directional, Flow, Catalog

MInit(m, p) ==
  CASE m = "sma" -> SMA_Init(p)     [] m = "ema" -> EMA_Init(p)       [] m = "wma" -> WMA_Init(p)
    [] m = "macd" -> MACD_Init(p)   [] m = "ppo" -> PPO_Init(p)       [] m = "pvo" -> PVO_Init(p)
    [] m = "trix" -> TRIX_Init(p)   [] m = "kama" -> KAMA_Init(p)
    [] m = "rsi" -> RSI_Init(p)     [] m = "stochrsi" -> StochRSI_Init(p)
    [] m = "tsi" -> TSI_Init(p)     [] m = "uo" -> UO_Init(p)         [] m = "stoch" -> Stoch_Init(p)
    [] m = "wr" -> WR_Init(p)       [] m = "ao" -> AO_Init(p)         [] m = "roc" -> ROC_Init(p)
    [] m = "stc" -> STC_Init(p)     [] m = "aroon" -> Aroon_Init(p)   [] m = "cci" -> CCI_Init(p)
    [] m = "kst" -> KST_Init(p)     [] m = "dpo" -> DPO_Init(p)       [] m = "mass" -> Mass_Init(p)
    [] m = "vortex" -> Vortex_Init(p)
    [] m = "atr" -> ATR_Init(p)     [] m = "bb" -> BB_Init(p)         [] m = "kc" -> KC_Init(p)
    [] m = "dc" -> DC_Init(p)       [] m = "ichimoku" -> Ichi_Init(p) [] m = "ui" -> UI_Init(p)
    [] m = "adx" -> ADX_Init(p)     [] m = "psar" -> PSAR_Init(p)
    [] m = "adi" -> ADI_Init(p)     [] m = "obv" -> OBV_Init(p)       [] m = "vpt" -> VPT_Init(p)
    [] m = "nvi" -> NVI_Init(p)     [] m = "cmf" -> CMF_Init(p)       [] m = "fi" -> FI_Init(p)
    [] m = "eom" -> EOM_Init(p)     [] m = "mfi" -> MFI_Init(p)       [] m = "vwap" -> VWAP_Init(p)
    [] m = "dr" -> DR_Init(p)       [] m = "dlr" -> DLR_Init(p)       [] m = "cr" -> CR_Init(p)

MSteps(m, p, fn, s, b) ==
  CASE m = "sma" -> SMA_Step(p, fn, s, b)     [] m = "ema" -> EMA_Step(p, fn, s, b)
    [] m = "wma" -> WMA_Step(p, fn, s, b)     [] m = "macd" -> MACD_Step(p, fn, s, b)
    [] m = "ppo" -> PPO_Step(p, fn, s, b)     [] m = "pvo" -> PVO_Step(p, fn, s, b)
    [] m = "trix" -> TRIX_Step(p, fn, s, b)   [] m = "kama" -> KAMA_Step(p, fn, s, b)
    [] m = "rsi" -> RSI_Step(p, fn, s, b)     [] m = "stochrsi" -> StochRSI_Step(p, fn, s, b)
    [] m = "tsi" -> TSI_Step(p, fn, s, b)     [] m = "uo" -> UO_Step(p, fn, s, b)
    [] m = "stoch" -> Stoch_Step(p, fn, s, b) [] m = "wr" -> WR_Step(p, fn, s, b)
    [] m = "ao" -> AO_Step(p, fn, s, b)       [] m = "roc" -> ROC_Step(p, fn, s, b)
    [] m = "stc" -> STC_Step(p, fn, s, b)     [] m = "aroon" -> Aroon_Step(p, fn, s, b)
    [] m = "cci" -> CCI_Step(p, fn, s, b)     [] m = "kst" -> KST_Step(p, fn, s, b)
    [] m = "dpo" -> DPO_Step(p, fn, s, b)     [] m = "mass" -> Mass_Step(p, fn, s, b)
    [] m = "vortex" -> Vortex_Step(p, fn, s, b)
    [] m = "atr" -> ATR_Step(p, fn, s, b)     [] m = "bb" -> BB_Step(p, fn, s, b)
    [] m = "kc" -> KC_Step(p, fn, s, b)       [] m = "dc" -> DC_Step(p, fn, s, b)
    [] m = "ichimoku" -> Ichi_Step(p, fn, s, b) [] m = "ui" -> UI_Step(p, fn, s, b)
    [] m = "adx" -> ADX_Step(p, fn, s, b)     [] m = "psar" -> PSAR_Step(p, fn, s, b)
    [] m = "adi" -> ADI_Step(p, fn, s, b)     [] m = "obv" -> OBV_Step(p, fn, s, b)
    [] m = "vpt" -> VPT_Step(p, fn, s, b)     [] m = "nvi" -> NVI_Step(p, fn, s, b)
    [] m = "cmf" -> CMF_Step(p, fn, s, b)     [] m = "fi" -> FI_Step(p, fn, s, b)
    [] m = "eom" -> EOM_Step(p, fn, s, b)     [] m = "mfi" -> MFI_Step(p, fn, s, b)
    [] m = "vwap" -> VWAP_Step(p, fn, s, b)   [] m = "dr" -> DR_Step(p, fn, s, b)
    [] m = "dlr" -> DLR_Step(p, fn, s, b)     [] m = "cr" -> CR_Step(p, fn, s, b)

(***************************************************************************)
(* The fillna stage.  last: the value shown on the previous row (NA before *)
(* the first defined one).  LEAD marks a row of the leading gap of a line  *)
(* that is filled backwards: what it shows is the first value to come.     *)
(***************************************************************************)
Shown(fill, fn, last, raw) ==
  IF ~fn \/ fill = "none" \/ ~IsNA(raw) THEN raw
  ELSE IF ~IsNA(last) THEN last
  ELSE IF fill = "back" THEN NA ELSE Parse(fill)
IsLead(fill, fn, last, raw) == fn /\ fill = "back" /\ IsNA(last) /\ IsNA(raw)
==========================================================================
