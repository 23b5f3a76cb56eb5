---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions held to Session: one state per event. *)
EXTENDS Session, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TA_TRACES)
VARIABLES ti, i, ok
vars == <<ti, i, ok>>
T == Traces[ti]

Init == ti \in DOMAIN Traces /\ i = 1 /\ ok = TRUE

First == IF Failed(T.ev[1].o) THEN "the call failed or rows are missing" ELSE ""

Report(e, f) ==
  LET W == IF Failed(e.o) \/ i = 1 THEN {} ELSE Broken(T.m, T.fn, T.ev[1].o, T.ev[i - 1].o, e)
      w == FirstOf(W)
  IN  IF W = {} THEN PrintT(<<"REJECT", T.id, -1, OutsOf(T.m)[1][1], f, IF e.op = "named" THEN ToString(e.names) ELSE T.ev[i].err, ToString(i)>>)
      ELSE PrintT(<<"REJECT", T.id, w[2] - 1, IF e.op = "func" THEN e.f ELSE OutsOf(T.m)[w[1]][1], f,
                    e.o[w[1]][w[2]], ToString(i)>>)

Step ==
  /\ ok /\ i <= Len(T.ev)
  /\ LET e == T.ev[i]
         f == IF i = 1 /\ e.op = "ask" THEN First ELSE Fault(T.m, T.fn, T.ev[1].o, T.ev[i - 1].o, e)
     IN  /\ ok' = (f = "")
         /\ IF f = "" THEN (i = Len(T.ev) => PrintT(<<"DONE", T.id, i>>)) ELSE Report(e, f)
  /\ i' = i + 1 /\ UNCHANGED ti
Spec == Init /\ [][Step]_vars
==========================================================================
