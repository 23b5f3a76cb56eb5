------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Causality.  A user keeps a growing history and asks for an indicator    *)
(* again and again; between two answers bars are appended or the last ones *)
(* are replaced.  Whatever was published for a bar before the first one    *)
(* that changed stays published.  The only rows that may change are those  *)
(* of a leading gap that fillna fills backwards.                           *)
(*                                                                         *)
(* Here on the specification itself: an answer is a run of the machine,    *)
(* followed by the fillna stage.  MC_History checks Stable exhaustively;   *)
(* HistoryTrace holds the implementation to the same relation.             *)
(***************************************************************************)
EXTENDS Machines

\* the answer for a whole history: sequence of rows, each a sequence of lines; [v, lead]
RECURSIVE Fold(_, _, _, _, _, _, _)
Fold(m, p, fn, s, last, H, i) ==
  IF i > Len(H) THEN <<>>
  ELSE LET r   == CHOOSE r \in MSteps(m, p, fn, s, H[i]) : TRUE
           row == [k \in DOMAIN r.o |->
                     [v |-> Shown(OutsOf(m)[k][2], fn, last[k], r.o[k]),
                      lead |-> IsLead(OutsOf(m)[k][2], fn, last[k], r.o[k])]]
       IN  <<row>> \o Fold(m, p, fn, r.s, [k \in DOMAIN row |-> IF IsNA(r.o[k]) THEN last[k] ELSE r.o[k]], H, i + 1)
Answer(m, p, fn, H) == Fold(m, p, fn, MInit(m, p), [k \in DOMAIN OutsOf(m) |-> NA], H, 1)

StableRows(old, new, keep) ==
  \A i \in 1..keep : \A k \in DOMAIN old[i] :
     \/ old[i][k].lead /\ new[i][k].lead
     \/ ~old[i][k].lead /\ ~new[i][k].lead /\ (SameNum(old[i][k].v, new[i][k].v) \/ IsAny(old[i][k].v))
==========================================================================
