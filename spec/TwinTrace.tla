------------------------------ MODULE TwinTrace ------------------------------
(***************************************************************************)
(* Recorded runs held to Laws: what the lines guarantee whatever the       *)
(* prices are, and how a line on other bars follows from it.  A trace has  *)
(* the bars and lines of a first run (h, l, c, v, o) and of a second       *)
(* (h2, ..., o2); T.rel says what the second has to do with the first:     *)
(*   "law"     there is none: every row obeys Law                          *)
(*   "past"    the first T.cut bars left out: once they have left all      *)
(*             windows the lines agree                                     *)
(*   "turn"    prices T.g * price + T.d: lines follow as Turned says       *)
(* The machines run along both, only to tell where a line has a value and  *)
(* how far rounding may have carried it; the observed values decide.       *)
(***************************************************************************)
EXTENDS Laws, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TA_TRACES)
VARIABLES ti, row, S, S2, po, cnt, ok
vars == <<ti, row, S, S2, po, cnt, ok>>

T  == Traces[ti]
Ks == DOMAIN T.o
Len_ == Len(T.c)
Cut == IF T.rel = "past" THEN T.cut ELSE 0
Two == T.rel # "law"
Bar1(i) == [h |-> Parse(T.h[i]), l |-> Parse(T.l[i]), c |-> Parse(T.c[i]), v |-> Parse(T.v[i])]
Bar2(i) == [h |-> Parse(T.h2[i]), l |-> Parse(T.l2[i]), c |-> Parse(T.c2[i]), v |-> Parse(T.v2[i])]
Missing(o) == \E k \in Ks : \E i \in DOMAIN o[k] : o[k][i] \in {"raised", "absent"}
Failed_ == Missing(T.o) \/ (Two /\ Missing(T.o2))

Init == /\ ti \in DOMAIN Traces /\ row = 1
        /\ S = {MInit(T.m, T.p)} /\ S2 = {MInit(T.m, T.p)}
        /\ po = <<>> /\ cnt = [held |-> 0, skipped |-> 0] /\ ok = TRUE

\* states after a bar; those that explain the observed row if there are any
After(X, bar, o, sc, i) ==
  LET D == UNION {MSteps(T.m, T.p, T.fn, s, bar) : s \in X}
      G == {d \in D : \A k \in Ks : Matches(o[k][i], d.o[k], sc[k]) \/ (T.fn /\ IsNA(d.o[k]))}
  IN  IF G = {} THEN D ELSE G

\* the observed row; a line that rounding noise decides is ANY, one without a value NA
Row(D, o, sc, i) == TLCEval([k \in Ks |->
  LET R == {d.o[k] : d \in D}
      r == CHOOSE r \in R : TRUE
  IN  IF Cardinality(R) > 1 THEN ANY ELSE IF IsNum(r) THEN Observed(o[k][i], r, sc[k])
      ELSE IF IsNA(r) /\ ~T.fn THEN Observed(o[k][i], r, sc[k]) ELSE r])

Lawful(x) ==
  LET H == TLCEval([i \in 1..row |-> Bar1(i)])
      open == T.m = "psar" /\ \E k \in Ks : IsAny(x[k]) \/ (row > 1 /\ IsAny(po[k]))     \* noise decides the side
  IN  IF open THEN {} ELSE Law(T.m, T.p, T.fn, po, x, H)

Agreeing(x, y) == IsAny(x) \/ IsAny(y) \/ (IsNA(x) /\ IsNA(y)) \/ TRUE \in EqS(x, y)
PastBroken(x, y) == {"line " \o OutsOf(T.m)[k][1] \o " remembers" : k \in {k \in Ks :
   LET f == Forgets(T.m, T.p, k) IN f > 0 /\ row - Cut >= f /\ ~(T.fn /\ (IsNA(x[k]) \/ IsNA(y[k]))) /\ ~Agreeing(x[k], y[k])}}
TurnBroken(x, y) == {"line " \o OutsOf(T.m)[k][1] \o " does not follow" : k \in {k \in Ks :
   LET t == Turned(T.m, T.p, k, T.g, Parse(T.d), TLCEval([i \in 1..row |-> Bar1(i)]))
   IN  t # <<>> /\ ~(T.fn /\ (IsNA(x[t[1]]) \/ IsNA(y[k]))) /\ ~Agreeing(y[k], Add(Mul(t[2], x[t[1]]), t[3]))}}

Held(W, D) == [held |-> cnt.held + 1, skipped |-> cnt.skipped + (IF Cardinality(D) > 1 THEN 1 ELSE 0)]

Step ==
  /\ ok /\ row <= Len_
  /\ LET D  == After(S, Bar1(row), T.o, T.sc, row)
         i2 == row - Cut
         D2 == IF Two /\ i2 >= 1 THEN After(S2, Bar2(i2), T.o2, T.sc2, i2) ELSE {}
         x  == Row(D, T.o, T.sc, row)
         y  == IF D2 = {} THEN <<>> ELSE Row(D2, T.o2, T.sc2, i2)
         W  == IF Failed_ THEN {"the call failed or rows are missing"}
               ELSE CASE T.rel = "law"  -> Lawful(x)
                      [] T.rel = "past" -> IF y = <<>> THEN {} ELSE PastBroken(x, y)
                      [] T.rel = "turn" -> TurnBroken(x, y)
     IN  /\ S' = {d.s : d \in D} /\ S2' = IF D2 = {} THEN S2 ELSE {d.s : d \in D2}
         /\ po' = x
         /\ cnt' = Held(W, D)
         /\ ok' = (W = {} /\ Cardinality(D) < 40)
         /\ IF W # {} THEN PrintT(<<"REJECT", T.id, row - 1, OutsOf(T.m)[1][1], CHOOSE w \in W : TRUE, T.o[1][row], "">>)
            ELSE row = Len_ \/ Cardinality(D) >= 40 => PrintT(<<"DONE", T.id, row, cnt'.held, cnt'.skipped>>)
         /\ row' = row + 1 /\ UNCHANGED ti

Spec == Init /\ [][Step]_vars
==========================================================================
