----------------------------- MODULE MC_History -----------------------------
(* All short edit histories (append / replace the tail) on small alphabets. *)
EXTENDS History, SmallScope

VARIABLES m, p, fn, H, pub, keep
vars == <<m, p, fn, H, pub, keep>>

MaxLen == IF Deep THEN 7 ELSE 5
Bars_(mm) == {B(x) : x \in BarSet(Kind_(mm))}
Pair(S) == LET a == CHOOSE x \in S : TRUE b == CHOOSE x \in S : x # a IN {a, b}   \* two bars are enough to differ

Init ==
  /\ m \in MachineSet /\ p \in Params(m) /\ fn \in BOOLEAN
  /\ H \in {<<x>> : x \in Pair(Bars_(m))} /\ keep = 0
  /\ pub = Answer(m, p, fn, H)

Publish(H1, k) ==
  /\ H' = H1 /\ keep' = k /\ pub' = Answer(m, p, fn, H1) /\ UNCHANGED <<m, p, fn>>
Extend  == Len(H) < MaxLen /\ \E x \in Pair(Bars_(m)) : Publish(Append(H, x), Len(H))
Rewrite == Len(H) > 1 /\ \E x \in Pair(Bars_(m)) :
             x # H[Len(H)] /\ Publish(Append(SubSeq(H, 1, Len(H) - 1), x), Len(H) - 1)
Next == Extend \/ Rewrite
Spec == Init /\ [][Next]_vars

Stable == [][StableRows(pub, pub', keep')]_vars
==========================================================================
