----------------------------- MODULE Relations -----------------------------
(***************************************************************************)
(* Relations between two answers of the implementation.  An answer is a    *)
(* sequence of lines, a line a sequence of doubles as strings; "raised"    *)
(* in place of a value: the call failed; "absent": the row is missing.     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

\* largest magnitude of every line
Scales(a) == TLCEval([k \in DOMAIN a |-> MaxAbs(a[k])])

Failed(a) == \E k \in DOMAIN a : \E i \in DOMAIN a[k] : a[k][i] \in {"raised", "absent"}

\* rows (k, i) at which two answers differ
Differ(a, b) ==
  LET sc == Scales(a)
  IN  {<<k, i>> \in (DOMAIN a) \X (1..Len(a[1])) : a[k][i] # b[k][i] /\ ~Agree(a[k][i], b[k][i], sc[k])}

\* row i of line x belongs to a leading gap that was filled backwards, or could
LeadRow(x, i) == \A j \in 1..(i - 1) : x[j] = x[i]

\* rows up to keep at which a later answer b takes back what the earlier a showed; back(k): line k fills backwards
Retracted(a, b, keep, back(_)) ==
  LET sc == Scales(a)
  IN {<<k, i>> \in (DOMAIN a) \X (1..keep) :
     /\ a[k][i] # b[k][i] /\ ~Agree(a[k][i], b[k][i], sc[k])
     /\ ~(back(k) /\ LeadRow(a[k], i) /\ LeadRow(b[k], i))}

\* b is a in units 2^e(k) times as large
NotScaled(a, b, e(_)) ==
  LET sc == Scales(b)
      x  == TLCEval([k \in DOMAIN a |-> e(k)])
  IN  {<<k, i>> \in (DOMAIN a) \X (1..Len(a[1])) : ~Agree(Times2(a[k][i], x[k]), b[k][i], sc[k])}

FirstOf(S) == CHOOSE x \in S : \A y \in S : x[2] < y[2] \/ (x[2] = y[2] /\ x[1] <= y[1])
==========================================================================
