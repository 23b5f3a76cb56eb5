------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* The Java override of Num against the TLA+ definitions of Num: NumPure   *)
(* is a copy of Num.tla under a name that nothing overrides (written by    *)
(* harness/numcheck.py).  All pairs of small rationals, NA and ANY through *)
(* every operator, and all short sequences through the folds.  Where the   *)
(* definition says ANY (an irrational root or logarithm) the override may  *)
(* answer with a number.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Num
P == INSTANCE NumPure

Dens == 1..4
Args == {<<"num", n, d>> : n \in -6..6, d \in Dens} \cup {<<"na", 0, 1>>, <<"any", 0, 1>>}
Few  == {<<"num", n, d>> : n \in {-3, 0, 2, 5}, d \in {1, 3}} \cup {<<"na", 0, 1>>, <<"any", 0, 1>>}
O_(a) == IF a[1] = "na" THEN NA ELSE IF a[1] = "any" THEN ANY ELSE Frac(a[2], a[3])
P_(a) == IF a[1] = "na" THEN P!NA ELSE IF a[1] = "any" THEN P!ANY ELSE P!Frac(a[2], a[3])

\* override value x is what the definition y says
Is(x, y) == IF y.k = "any" THEN ~IsNA(x) \/ FALSE ELSE Kind(x) = y.k /\ (y.k = "num" => SameNum(x, Frac(y.n, y.d)))
Is1(x, y) == IF y.k = "any" THEN IsAny(x) ELSE Is(x, y)

VARIABLES a, b
vars == <<a, b>>
Init == a \in Args /\ b \in Args
Next == UNCHANGED vars

x == O_(a) y == O_(b) px == P_(a) py == P_(b)

Binary ==
  /\ Is1(Add(x, y), P!Add(px, py)) /\ Is1(Sub(x, y), P!Sub(px, py)) /\ Is1(Mul(x, y), P!Mul(px, py))
  /\ Is1(Div(x, y), P!Div(px, py)) /\ Is1(Max(x, y), P!Max(px, py)) /\ Is1(Min(x, y), P!Min(px, py))
  /\ LtS(x, y) = P!LtS(px, py) /\ EqS(x, y) = P!EqS(px, py)
  /\ Leq(x, y) = P!Leq(px, py) /\ SameNum(x, y) = P!SameNum(px, py)
Unary ==
  /\ Is1(Neg(x), P!Neg(px)) /\ Is1(Abs(x), P!Abs(px)) /\ Is(Sqrt(x), P!Sqrt(px)) /\ Is(Ln(x), P!Ln(px))
  /\ IsNum(x) = P!IsNum(px) /\ IsNA(x) = P!IsNA(px) /\ IsAny(x) = P!IsAny(px) /\ Kind(x) = P!Kind(px)
  /\ (a[1] = "num" => Is1(N(a[2]), P!N(a[2])))
\* the folds: a, b and a third member, up to three members
Seqs == {<<>>, <<a>>, <<a, b>>} \cup {<<a, b, c>> : c \in Few}
Folds == (a \in Few /\ b \in Few) => \A s \in Seqs :
  LET os == [i \in DOMAIN s |-> O_(s[i])]
      ps == [i \in DOMAIN s |-> P_(s[i])]
  IN  /\ Is1(SumDef(os), P!SumDef(ps)) /\ Is1(MaxDef(os), P!MaxDef(ps)) /\ Is1(MinDef(os), P!MinDef(ps))
      /\ CountDef(os) = P!CountDef(ps) /\ HasAny(os) = P!HasAny(ps)
      /\ (Len(s) = 2 => Is1(Noisy(os[1], os[2]), P!Noisy(ps[1], ps[2])))
Spec == Init /\ [][Next]_vars
==========================================================================
