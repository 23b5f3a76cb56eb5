------------------------------ MODULE MC_Frame ------------------------------
(* Laws of the frame machine over all sequences of two calls. *)
EXTENDS Frame
VARIABLES f, calls
Init == f = GivenFrame(Given \cup Distractors) /\ calls = <<>>
Next == Len(calls) < 2 /\ \E c \in {d \in Calls : d.src \in {"", "n"}} : f' = After(f, c) /\ calls' = Append(calls, c)
Spec == Init /\ [][Next]_<<f, calls>>

GivenStays == /\ Given \cup Distractors \subseteq DOMAIN f
              /\ \A n \in Given : f[n].col = "=" \o n
              /\ \A n \in Distractors : f[n].col = "=" \o n \/ \E i \in DOMAIN calls : n \in DOMAIN Written(calls[i])
Idempotent == Len(calls) > 0 => After(f, calls[Len(calls)]) = f
NamesOnce  == \A g \in Groups : \A i, j \in DOMAIN FrameCatalog[g] :
                 i # j => FrameCatalog[g][i].n # FrameCatalog[g][j].n
PrefixKeepsApart == Len(calls) = 2 /\ calls[1].prefix # calls[2].prefix =>
                      \A n \in DOMAIN Written(calls[1]) : f[n] = Written(calls[1])[n]
VectorizedIsSubset == \A c \in Calls : c.vec => DOMAIN Written(c) \subseteq DOMAIN Written([c EXCEPT !.vec = FALSE])
AllIsUnion == \A p \in {"", "x_"} : \A v, b \in BOOLEAN :
   DOMAIN Written([grp |-> "all", prefix |-> p, vec |-> v, fn |-> b, src |-> ""])
     = UNION {DOMAIN Written([grp |-> g, prefix |-> p, vec |-> v, fn |-> b, src |-> ""]) : g \in Groups}
Holds == GivenStays /\ Idempotent /\ NamesOnce /\ PrefixKeepsApart
OnceHolds == calls = <<>> => VectorizedIsSubset /\ AllIsUnion
==========================================================================
