----------------------------- MODULE MC_Schemes -----------------------------
(* The machines obey the schemes, on all small histories.  Rows that are    *)
(* filled are not modelled: with fillna on only rows with values compare.   *)
EXTENDS Schemes, SmallScope

Chosen == JsonDeserialize(IOEnv.TA_MACHINES)       \* scheme ids
VARIABLES id, R1, P, fn, St, H, X, ok         \* R1: the runs
vars == <<id, R1, P, fn, St, H, X, ok>>

Main(s) == LET F == [n \in {s.force[i][1] : i \in DOMAIN s.force} |-> s.force[CHOOSE i \in DOMAIN s.force : s.force[i][1] = n][2]]
           IN  {[n \in DOMAIN p |-> IF n \in DOMAIN F THEN F[n] ELSE p[n]] : p \in Params(s.m)}
\* other values
Others(n, v) == IF n \in {"window_dev", "multiplier", "constant"} THEN {"0.5", "3"} ELSE {v + 1}
Value(m, p, x, n) ==
  LET I == {i \in DOMAIN x.par : x.par[i][1] = n}
      a == x.par[CHOOSE i \in I : TRUE]
  IN  IF I = {} THEN {IF x.m = m THEN p[n] ELSE DefaultParams(x.m)[n]}
      ELSE CASE a[2] = "eq" -> {p[a[3]]} [] a[2] = "is" -> {a[3]} [] a[2] = "odd" -> {2 * p[a[3]] - 1} [] a[2] = "twice" -> {2 * p[a[3]]} [] OTHER -> Others(n, p[n])
\* zero-length averages are not run
Part(m, p, x) == LET d == DefaultParams(x.m) IN
  IF d = <<>> THEN d ELSE [n \in DOMAIN d |-> LET V == Value(m, p, x, n) v == CHOOSE v \in V : TRUE IN IF n = "window" /\ v = 0 THEN 1 ELSE v]

Init ==
  \E Sc \in {Schemes[j] : j \in {j \in DOMAIN Schemes : \E i \in DOMAIN Chosen : Chosen[i] = Schemes[j].id}} :
  /\ id = Sc.id /\ R1 = TLCEval(RunsOf(Sc))
  /\ \E p \in Main(Sc) : P = [i \in DOMAIN R1 |-> IF i = 1 THEN p ELSE Part(Sc.m, p, R1[i])]
  /\ fn \in {Sc.fns[i] : i \in DOMAIN Sc.fns}
  /\ St = [i \in DOMAIN R1 |-> MInit(R1[i].m, P[i])] /\ H = <<>> /\ X = <<>> /\ ok = {}

Bar0 == [h |-> NA, l |-> NA, c |-> NA, v |-> NA]
\* runs i.. in order after states a and lines o of the runs before
RECURSIVE Through(_, _, _, _, _)
Through(i, a, o, b, pb) ==
  IF i > Len(R1) THEN <<a, o>>
  ELSE LET q == TLCEval(CHOOSE q \in MSteps(R1[i].m, P[i], FnOf(R1[i], fn), St[i], Feed(R1[i], b, pb, o)) : TRUE)
       IN  Through(i + 1, TLCEval(Append(a, q.s)), TLCEval(Append(o, q.o)), b, pb)

Next ==
  /\ ok = {} /\ Len(H) < Depth(Kind_(R1[1].m)) - (IF Len(R1) > 4 THEN 1 ELSE 0) - (IF IOEnv.TA_PART = "quick" THEN 1 ELSE 0)
  /\ \E x \in BarSet(Kind_(R1[1].m)) :
     \E g \in {Through(1, <<>>, <<>>, B(x), IF H = <<>> THEN Bar0 ELSE H[Len(H)])} :
     \E X1 \in {Append(X, g[2])} : \E H1 \in {Append(H, B(x))} :
           /\ St' = g[1] /\ X' = X1 /\ H' = H1
           /\ ok' = {e \in Expect(id, R1[1].m, P, fn, H1, X1, Len(H1)) : ~Agreeing(g[2][e[1]][e[2]], e[3], fn)}
           /\ UNCHANGED <<id, R1, P, fn>>
Spec == Init /\ [][Next]_vars
Holds == ok = {}
==========================================================================
