---------------------------- MODULE DropNaTrace ----------------------------
(* Exhaustive: one initial state per frame of the given shapes; the answer *)
(* the implementation gave to it is looked up in the recorded ones.        *)
EXTENDS DropNa, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TA_TRACES)
VARIABLES ti, done
Init == ti \in DOMAIN Traces /\ done = FALSE
Next ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED ti
  /\ LET T == Traces[ti] f == Fault([types |-> T.types, rows |-> T.rows], T)
     IN  IF f = "" THEN TRUE ELSE PrintT(<<"REJECT", T.id, 0, "dropna", f, T.err, "">>)
Spec == Init /\ [][Next]_<<ti, done>>
==========================================================================
