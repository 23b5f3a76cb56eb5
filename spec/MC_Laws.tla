------------------------------ MODULE MC_Laws ------------------------------
(***************************************************************************)
(* Exhaustive check of the machines against Laws and Warmup over small     *)
(* alphabets of bars and small windows.  Next to the machine, a twin runs: *)
(*   "units"   on the bars in other units (price * 3, volume * 5)          *)
(*   "shift"   on the bars with 4 added to every price                     *)
(*   "mirror"  on the bars turned upside down (20 minus every price)       *)
(*   "memory"  started on another first bar, the same from then on         *)
(***************************************************************************)
EXTENDS Laws, Warmup, SmallScope

VARIABLES m, p, fn, twin, s, s2, H, po, broken
vars == <<m, p, fn, twin, s, s2, H, po, broken>>

\* which part of the laws a run is about
Twins == CASE IOEnv.TA_PART = "law" -> {"none"} [] IOEnv.TA_PART = "past" -> {"memory"}
           [] IOEnv.TA_PART = "turn" -> {"shift", "mirror"} [] OTHER -> {"none", "units", "shift", "mirror", "memory"}
Init ==
  /\ m \in MachineSet /\ p \in Params(m) /\ fn \in BOOLEAN /\ twin \in Twins
  /\ s = MInit(m, p) /\ s2 = MInit(m, p) /\ H = <<>> /\ po = <<>> /\ broken = {}

TwinBar(x) ==
  CASE twin = "units" -> B(<<3 * x[1], 3 * x[2], 3 * x[3], 5 * x[4]>>)
    [] twin = "shift" -> B(<<x[1] + 4, x[2] + 4, x[3] + 4, x[4]>>)
    [] twin = "mirror" -> B(<<20 - x[2], 20 - x[1], 20 - x[3], x[4]>>)
    [] twin = "memory" -> IF H = <<>> THEN B(<<9, 7, 8, 7>>) ELSE B(x)
    [] OTHER -> B(x)

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN N(1) ELSE IF k < 0 THEN Div(Pow(a, k + 1), a) ELSE Mul(Pow(a, k - 1), a)

\* irrational values (square roots) are compared up to their 60 digits
AgreeNum(x, y) == IsAny(x) \/ IsAny(y) \/ (IsNA(x) /\ IsNA(y)) \/ TRUE \in EqS(x, y)
TurnBroken(o, o2, g, d, H1) ==
  {k \in DOMAIN o : LET t == Turned(m, p, k, g, d, H1)
                    IN  t # <<>> /\ ~AgreeNum(o2[k], Add(Mul(t[2], o[t[1]]), t[3]))}
TwinBroken(o, o2, H1) ==
  CASE twin = "units" -> {<<"units", k>> : k \in {k \in DOMAIN o :
         ~AgreeNum(o2[k], Mul(o[k], Mul(Pow(N(3), OutsOf(m)[k][3]), Pow(N(5), OutsOf(m)[k][4]))))}}
    [] twin = "shift" -> {<<"shift", k>> : k \in TurnBroken(o, o2, 1, N(4), H1)}
    [] twin = "mirror" -> {<<"mirror", k>> : k \in TurnBroken(o, o2, -1, N(20), H1)}
    [] twin = "memory" -> {<<"memory", k>> : k \in {k \in DOMAIN o :
         Memory(m, p, k) > 0 /\ Len(H) >= Memory(m, p, k) /\ ~AgreeNum(o[k], o2[k])}}
    [] OTHER -> {}

\* definedness: none before the warm-up is over (fillna off); always something after it unless 0/0
WarmBroken(o, n) ==
  IF fn THEN {} ELSE {<<"warm", k>> : k \in {k \in DOMAIN o : n < Warm(m, p, k) /\ ~IsNA(o[k])}}

\* the machines of real traces branch only where rounding could; in exact small numbers they are deterministic,
\* so the twin is stepped along the first alternative
Next ==
  /\ broken = {} /\ Len(H) < Depth(Kind_(m))
  /\ \E x \in BarSet(Kind_(m)) :
       \E r \in MSteps(m, p, fn, s, B(x)) :
         LET H1 == Append(H, B(x))
             r2 == IF twin = "none" THEN r ELSE CHOOSE q \in MSteps(m, p, fn, s2, TwinBar(x)) : TRUE
         IN  /\ s' = r.s /\ s2' = r2.s /\ H' = H1 /\ po' = r.o
             /\ broken' = IF twin = "none" THEN Law(m, p, fn, po, r.o, H1) \cup WarmBroken(r.o, Len(H1))
                          ELSE TwinBroken(r.o, r2.o, H1)
             /\ UNCHANGED <<m, p, fn, twin>>

Spec == Init /\ [][Next]_vars
Holds == broken = {}
==========================================================================
