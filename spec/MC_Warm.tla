------------------------------ MODULE MC_Warm ------------------------------
(***************************************************************************)
(* The formulas of Warmup are exactly where the machines, run without      *)
(* fillna on generic bars (no ties, no flat stretches), show their first   *)
(* value - for the documented default windows and for all combinations of  *)
(* small ones; with fillna on every output shows something on every bar    *)
(* (a value of its own, the neutral value, or the first value to come).    *)
(***************************************************************************)
EXTENDS Machines, Warmup, TLC, FiniteSets, IOUtils

Deep == IOEnv.TA_DEEP = "1"
Wide == IF Deep THEN 1..5 ELSE 1..4

Windows(m) == {i \in DOMAIN EntryOf[m].pars : EntryOf[m].pars[i][2] = "w" /\ EntryOf[m].pars[i][1] \notin {"pow1", "pow2"}}
Names(m)   == {EntryOf[m].pars[i][1] : i \in Windows(m)}

\* all combinations where there are up to three windows, otherwise one window at a time
Combos(m) ==
  LET nm == Names(m)
      d  == DefaultParams(m)
  IN
  IF nm = {} THEN {d}
  ELSE IF Cardinality(nm) <= 2 THEN {f @@ d : f \in [nm -> Wide]}
  ELSE IF Cardinality(nm) = 3 THEN {f @@ d : f \in [nm -> IF Deep THEN 1..4 ELSE 1..3]}
  ELSE {[n \in nm |-> IF n = a THEN x ELSE IF n = b THEN y ELSE 2] @@ d : a \in nm, b \in nm, x \in (IF Deep THEN 3..5 ELSE {3}), y \in {2, 5}}
Variants(m, p) ==
  IF m = "ichimoku" THEN {[p EXCEPT !.visual = v] : v \in BOOLEAN}
  ELSE IF m = "kc" THEN {[p EXCEPT !.original_version = v] : v \in BOOLEAN}
  ELSE IF m = "dc" THEN {[p EXCEPT !.offset = k] : k \in {0, 3}}
  ELSE IF m = "vpt" THEN {[p EXCEPT !.smoothing_factor = k] : k \in {0, 1, 2, 4}}
  ELSE {p}
AllParams(m) == (IF Deep \/ Names(m) = {} THEN {DefaultParams(m)} ELSE {}) \cup UNION {Variants(m, p) : p \in Combos(m)}

\* generic bars: every close, high, low and volume differs from its neighbours
Bar(i) ==
  LET c == 200 + ((37 * i) % 101) + ((11 * i) % 7)
  IN  [c |-> N(c), h |-> N(c + 3 + ((5 * i) % 11)), l |-> N(c - 2 - ((7 * i) % 13)), v |-> N(50 + ((29 * i) % 31))]

VARIABLES m, p, fn, s, n, broken
vars == <<m, p, fn, s, n, broken>>

Horizon == LET W == {Warm(m, p, k) : k \in DOMAIN OutsOf(m)} IN (CHOOSE x \in W : \A y \in W : y <= x) + 3

Init == /\ m \in Ids /\ p \in AllParams(m) /\ fn \in BOOLEAN
        /\ s = MInit(m, p) /\ n = 0 /\ broken = {}

Never(k) == \* lines that legitimately have gaps after their first value
  \/ m = "psar" /\ k \in {2, 3}
  \/ m = "kc" /\ k = 5 /\ ~p.original_version /\ p.window < p.window_atr   \* band of width 0: the ATR still is 0

\* windows of one bar, and equal averages, have no spread: 0/0
Unit(mm, pp) == (\E x \in Names(mm) : pp[x] = 1) \/ (mm = "stc" /\ pp.window_fast = pp.window_slow)

Wrong(o, i) ==
  {k \in DOMAIN o :
     IF fn THEN OutsOf(m)[k][2] = "none" /\ IsNA(o[k])
     ELSE ~Never(k) /\ ~IsAny(o[k])
          /\ IF i < Warm(m, p, k) THEN ~IsNA(o[k]) ELSE IsNA(o[k]) /\ ~Unit(m, p)}

Next == /\ n < Horizon /\ broken = {}
        /\ \E b \in {Bar(n + 1)} : \E r \in MSteps(m, p, fn, s, b) :
             /\ s' = r.s /\ n' = n + 1 /\ broken' = Wrong(r.o, n + 1)
             /\ IF broken' = {} THEN TRUE ELSE PrintT(<<"BROKEN", m, p, fn, n + 1, broken'>>)
        /\ UNCHANGED <<m, p, fn>>

Spec == Init /\ [][Next]_vars
Holds == broken = {}
==========================================================================
