------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A user's session with one indicator: a first answer, then events, each  *)
(* followed by another answer.  What the new answer has to do with an      *)
(* earlier one depends on the event only:                                  *)
(*   extend   bars were appended          \  rows before the change stay   *)
(*   rewrite  the last bars were replaced /  (base: the answer before)     *)
(*   units    prices times 2^px, volumes times 2^vx: every line scales by  *)
(*            its degrees (base: the first answer)                         *)
(*   form     same numbers under another index, dtype, names, memory       *)
(*            layout: same rows, and the index of the input comes back     *)
(*   func     the module-level function instead of the class: same line    *)
(*   ctor     the constructor with the documented defaults left out, or    *)
(*            with positional arguments: same lines                        *)
(*   named    the lines (of the class, or of a function) carry the names   *)
(*            of Names, whatever the input is called                       *)
(* Plans(prop) are the event sequences the checks execute.                 *)
(***************************************************************************)
EXTENDS Catalog, Relations, FiniteSets

LOCAL SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}

(* ---- events ---- *)
Sizes == {"one", "window", "long"}
EditOps == {[op |-> "extend", by |-> z] : z \in Sizes} \cup {[op |-> "rewrite", by |-> z] : z \in {"one", "window"}}

UnitOps == {[op |-> "units", px |-> x, vx |-> v] : x \in {-50, -34, -20, -7, -1, 0, 1, 4, 16, 26, 40}, v \in {-40, -4, 0, 1, 9, 30}}
             \ {[op |-> "units", px |-> 0, vx |-> 0]}

IndexKinds == {"range", "date", "tz", "gaps", "down", "shuffled", "dup", "str", "float", "neg", "multi", "period", "const", "latest", "mixed",
               "spans", "category", "missing", "nodate", "objects", "dst", "between", "levels", "bool", "huge", "steps"}
Dtypes     == {"float64", "int64", "volint", "priceint",                \* 64 bit: all columns, volume, prices
               "int32", "volint32", "volint16", "voluint32", "voluint64"}
\* narrow and unsigned prices: for the indicators whose formula would leave their range, and for all in depth
NarrowDtypes   == {"int16", "int8", "uint8", "uint16", "uint32", "uint64"}
NarrowMachines == {"rsi", "stochrsi", "kama", "adi", "cmf", "eom", "kc", "cci", "mfi", "vwap", "ao", "psar", "dlr"}
Layouts    == {"own", "strided", "reversed", "frame", "readonly"}
NameKinds  == {"usual", "none", "same", "odd"}
FormOps == {[op |-> "form", index |-> i, dtype |-> d, layout |-> a, names |-> n] :
              i \in IndexKinds, d \in Dtypes \cup NarrowDtypes, a \in Layouts, n \in NameKinds}

Plans(prop) ==
  CASE prop = "history" -> SeqsUpTo(EditOps, 3)
    [] prop = "creep"   -> {[i \in 1..k |-> [op |-> "extend", by |-> "one"]] : k \in {9, 16}}  \* bar by bar
    [] prop = "units"   -> SeqsUpTo(UnitOps, 1)
    [] prop = "form"    -> SeqsUpTo(FormOps, 1)

(* ---- names of lines: a stem for each, and the windows that follow it ---- *)
Stems(m) ==
  CASE m = "stoch"    -> <<"stoch_k", "stoch_k_signal">>
    [] m = "stochrsi" -> <<"stochrsi", "stochrsi_k", "stochrsi_d">>
    [] m = "ppo"      -> <<"PPO", "PPO_sign", "PPO_hist">>
    [] m = "pvo"      -> <<"PVO", "PVO_sign", "PVO_hist">>
    [] m = "aroon"    -> <<"aroon_up", "aroon_down", "aroon_ind">>
    [] m = "macd"     -> <<"MACD", "MACD_sign", "MACD_diff">>
    [] m = "mass"     -> <<"mass_index">>
    [] m = "ichimoku" -> <<"ichimoku_conv", "ichimoku_base", "ichimoku_a", "ichimoku_b">>
    [] m = "kst"      -> <<"kst", "kst_sig", "kst_diff">>
    [] m = "adx"      -> <<"adx", "adx_pos", "adx_neg">>
    [] m = "vortex"   -> <<"vip", "vin", "vid">>
    [] m = "psar"     -> <<"psar", "psarup", "psardown", "psariup", "psaridown">>
    [] m = "bb"       -> <<"mavg", "hband", "lband", "bbiwband", "bbipband", "bbihband", "bbilband">>
    [] m = "kc"       -> <<"mavg", "kc_hband", "kc_lband", "bbiwband", "bbipband", "dcihband", "dcilband">>
    [] m = "dc"       -> <<"dchband", "dclband", "dcmband", "dcwband", "dcpband">>
    [] m = "eom"      -> <<"eom", "sma_eom">>
    [] m = "dr"       -> <<"d_ret">>
    [] m = "dlr"      -> <<"d_logret">>
    [] m = "cr"       -> <<"cum_ret">>
    [] OTHER          -> <<m>>
Suffix(m) ==
  CASE m \in {"ppo", "pvo", "macd"} -> <<"window_fast", "window_slow">>
    [] m = "mass"     -> <<"window_fast", "window_slow">>
    [] m = "ichimoku" -> <<"window1", "window2">>
    [] m \in {"aroon", "ema", "sma", "wma", "trix", "dpo", "fi", "eom", "mfi", "vwap"} -> <<"window">>
    [] OTHER          -> <<>>
RECURSIVE Tail_(_, _)
Tail_(ns, p) == IF ns = <<>> THEN "" ELSE "_" \o ToString(p[Head(ns)]) \o Tail_(Tail(ns), p)
Names(m, p) == LET t == Tail_(Suffix(m), p) IN [k \in DOMAIN Stems(m) |-> Stems(m)[k] \o t]

(* ---- what an answer has to look like ---- *)
Back(m, fn, k) == fn /\ OutsOf(m)[k][2] = "back"

\* rows <<line, row>> of answer e.o that break the relation of event e
Broken(m, fn, first, before, e) ==
  CASE e.op \in {"extend", "rewrite"} -> Retracted(before, e.o, e.keep, LAMBDA k : Back(m, fn, k))
    [] e.op = "units"        -> NotScaled(first, e.o, LAMBDA k : OutsOf(m)[k][3] * e.px + OutsOf(m)[k][4] * e.vx)
    [] e.op \in {"form", "ctor"} -> Differ(first, e.o)
    [] e.op = "named"        -> {}
    [] e.op = "func"         -> Differ(<<first[e.k]>>, e.o)

\* what else is wrong with the answer: "" if nothing
Fault(m, fn, first, before, e) ==
  IF Failed(e.o) THEN "the call failed or rows are missing"
  ELSE IF e.op = "named" THEN
         (IF e.names = (IF e.k = 0 THEN Names(m, e.p) ELSE <<Names(m, e.p)[e.k]>>) THEN "" ELSE "a line has another name")
  ELSE IF e.op = "form" /\ ~e.index_kept THEN "the answer does not carry the index of the input"
  ELSE LET W == Broken(m, fn, first, before, e)
       IN  IF W = {} THEN ""
           ELSE CASE e.op \in {"extend", "rewrite"} -> "a published row changed"
                  [] e.op = "units" -> "the line does not scale with the unit"
                  [] e.op = "form"  -> "the values depend on the form of the input"
                  [] e.op = "func"  -> "function and class differ"
                  [] e.op = "ctor"  -> "defaults or argument order differ from the documented ones"
==========================================================================
