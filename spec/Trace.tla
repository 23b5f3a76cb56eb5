------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance of recorded runs.  Each line of the batch file is one run   *)
(* of one indicator: its parameters, the bars it was given and the lines   *)
(* it returned (doubles as shortest decimal strings).  The spec machine is *)
(* run along the bars, keeping the set S of all states it may be in; a run *)
(* is rejected at the first row no state of S can explain.                 *)
(*                                                                         *)
(* MODE selects what a row is held to:                                     *)
(*   "value"  every defined value, and without fillna also where there is  *)
(*            none                                                         *)
(*   "fill"   (fillna on) every row shows a value, gaps repeat the last    *)
(*            value shown or show the neutral value / first value to come  *)
(*   "warm"   (fillna off) only where there is a value and where not:      *)
(*            none before the warm-up is over                              *)
(*   "total"  only that the call answers, with every row                   *)
(***************************************************************************)
EXTENDS Machines, Warmup, TLC, Json, IOUtils

MODE   == IOEnv.TA_MODE
Traces == ndJsonDeserialize(IOEnv.TA_TRACES)

VARIABLES ti, row, S, shown, lead, cnt, ok
vars == <<ti, row, S, shown, lead, cnt, ok>>

T      == Traces[ti]
Len_   == Len(T.o[1])
Meta(k) == OutsOf(T.m)[k]
Drops  == "dropnans" \in DOMAIN T.p /\ T.p.dropnans
Fn     == T.fn /\ ~Drops
Ks     == DOMAIN T.o

Failed_ == \E k \in Ks : T.o[k][1] \in {"raised", "absent"}
Bar(i) == [h |-> Parse(T.h[i]), l |-> Parse(T.l[i]), c |-> Parse(T.c[i]), v |-> Parse(T.v[i])]

Init ==
  /\ ti \in DOMAIN Traces
  /\ row = 1
  /\ S = {[s |-> MInit(T.m, T.p), seen |-> [k \in Ks |-> FALSE]]}
  /\ shown = [k \in Ks |-> ""]        \* value shown on the previous row
  /\ lead = [k \in Ks |-> ""]         \* value shown throughout a back-filled leading gap
  /\ cnt = [num |-> 0, na |-> 0, any |-> 0, fill |-> 0]
  /\ ok = TRUE

\* rows by which a line is shown before the bars it is computed from (negative Donchian offset)
Ahead == IF T.m = "dc" /\ T.p.offset < 0 THEN -T.p.offset ELSE 0
\* without fillna the last rows of such a line are empty
EarlyFault(k, d, F(_, _, _)) ==
  LET e == F(k, d, row - Ahead)
  IN  IF row > Ahead /\ e # "" THEN e
      ELSE IF row = Len_ /\ ~Fn /\ (\E i \in (IF Len_ > Ahead THEN Len_ - Ahead + 1 ELSE 1)..Len_ : Finite(T.o[k][i]))
           THEN "value shown although undefined" ELSE ""

(* what is wrong with output k of candidate d on this row: "" if nothing *)
FaultAt(k, d, at) ==
  LET x    == T.o[k][at]
      raw  == d.o[k]
      fill == Meta(k)[2]
      gap  == IsNA(raw)
      sc   == T.sc[k]
  IN
  CASE x = "raised"          -> "the call failed"
    [] Drops /\ x = "absent"  -> IF IsNum(raw) THEN "row dropped although it has a value" ELSE ""
    [] Drops /\ gap           -> "row without a value not dropped"
    [] x = "absent"           -> "row missing from the output"
    [] MODE = "total"         -> ""
    [] MODE = "warm" /\ row < Warm(T.m, T.p, k) -> IF Finite(x) THEN "value shown before its window is full" ELSE ""
    [] MODE = "warm" /\ row < ZeroUntil(T.m, T.p, k) -> IF Agree(x, "0", "0") THEN "" ELSE "not 0 before its window is full"
    [] MODE = "warm"          -> IF IsAny(raw) \/ Finite(x) = ~gap THEN ""
                                 ELSE IF gap THEN "value shown where there is none" ELSE "value missing"
    [] MODE = "fill" /\ Fn /\ ~Finite(x) -> "missing value with fillna on"
    [] MODE = "fill" /\ Fn /\ fill # "none" /\ gap ->
         IF d.seen[k] THEN IF Agree(x, shown[k], sc) THEN "" ELSE "gap does not repeat the last value"
         ELSE IF fill # "back" THEN IF Agree(x, fill, sc) THEN "" ELSE "leading gap does not show the neutral value"
         ELSE IF lead[k] # "" /\ ~Agree(x, lead[k], sc) THEN "leading gap is not constant"
         ELSE IF row = Len_ /\ ~Agree(x, "0", sc) THEN "line without any value does not show 0"
         ELSE ""
    [] MODE = "fill" /\ Fn    -> IF fill = "back" /\ ~d.seen[k] /\ lead[k] # "" /\ ~IsAny(raw) /\ ~Agree(x, lead[k], sc)
                                 THEN "leading gap does not show the first value to come" ELSE ""
    [] MODE = "value" /\ Fn /\ gap -> ""
    [] MODE = "value"         -> IF Matches(x, raw, sc) THEN ""
                                 ELSE IF gap THEN "value shown although undefined"
                                 ELSE IF ~Finite(x) THEN "value missing" ELSE "wrong value"
    [] OTHER -> ""

Fault(k, d) == IF Ahead = 0 THEN FaultAt(k, d, row)
               ELSE IF Failed_ THEN FaultAt(k, d, 1) ELSE EarlyFault(k, d, FaultAt)

Cand == UNION {{[s |-> r.s, o |-> r.o, seen |-> x.seen] : r \in MSteps(T.m, T.p, T.fn, x.s, Bar(row))} : x \in S}
Good(d) == \A k \in Ks : Fault(k, d) = ""

Report(D) ==
  LET d == CHOOSE d \in D : TRUE
      k == CHOOSE k \in Ks : Fault(k, d) # "" /\ \A j \in Ks : Fault(j, d) # "" => k <= j
  IN  PrintT(<<"REJECT", T.id, row - 1, Meta(k)[1], Fault(k, d), T.o[k][row], Show(d.o[k])>>)

Count(D) ==
  LET d == CHOOSE d \in D : TRUE
      n(P(_)) == LET R[k \in 0..Len(T.o)] == IF k = 0 THEN 0 ELSE R[k - 1] + (IF P(d.o[k]) THEN 1 ELSE 0) IN R[Len(T.o)]
  IN  [num |-> cnt.num + n(IsNum), na |-> cnt.na + n(IsNA), any |-> cnt.any + n(IsAny), fill |-> cnt.fill]

Step ==
  /\ ok /\ row <= Len_
  /\ LET D == Cand
         G == {d \in D : Good(d)}
     IN  /\ ok' = (G # {})
         /\ IF G = {} THEN Report(D) /\ UNCHANGED <<S, shown, lead, cnt>>
            ELSE /\ S' = {[s |-> d.s, seen |-> [k \in Ks |-> d.seen[k] \/ ~IsNA(d.o[k])]] : d \in G}
                 /\ shown' = [k \in Ks |-> T.o[k][row]]
                 /\ lead' = [k \in Ks |-> IF Fn /\ Meta(k)[2] = "back" /\ lead[k] = ""
                                              /\ \E d \in G : ~d.seen[k] /\ IsNA(d.o[k])
                                          THEN T.o[k][row] ELSE lead[k]]
                 /\ cnt' = Count(G)
                 /\ row = Len_ => PrintT(<<"DONE", T.id, row, cnt'.num, cnt'.na, cnt'.any>>)
         /\ row' = row + 1
         /\ UNCHANGED ti

Spec == Init /\ [][Step]_vars
==========================================================================
