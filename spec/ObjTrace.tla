------------------------------ MODULE ObjTrace ------------------------------
(* Recorded object lives held to ObjLife. *)
EXTENDS ObjLife, Catalog, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TA_TRACES)
VARIABLES ti, i, ok
vars == <<ti, i, ok>>
T == Traces[ti]

Plan(t) == [j \in DOMAIN t.ev |-> [op |-> t.ev[j].op, obj |-> t.ev[j].obj, k |-> t.ev[j].k]]
\* what was executed is a life of ObjLife
Lawful == CASE T.plan[1] = "rounds"   -> Plan(T) = Rounds(T.plan[2], T.plan[3], T.plan[4], T.plan[5])
            [] T.plan[1] = "recycled" -> Plan(T) = Recycled(T.plan[2], T.plan[3], T.plan[4])
            [] T.plan[1] = "strangers" -> Plan(T) = Strangers(T.plan[2], T.plan[3], T.plan[4])
            [] OTHER -> TRUE
Init == ti \in DOMAIN Traces /\ i = 1 /\ ok = TRUE
Step ==
  /\ ok /\ i <= Len(T.ev)
  /\ i = 1 => Assert(Lawful /\ Legal(Plan(T)), <<"not a life of ObjLife", T.id>>)
  /\ LET e == T.ev[i] f == Fault(T.ref, e)
     IN  /\ ok' = (f = "")
         /\ IF f # "" THEN PrintT(<<"REJECT", T.id, i, IF e.op = "other" THEN e.who ELSE IF e.k = 0 THEN "constructor" ELSE OutsOf(T.m)[e.k][1], f, e.err, e.obj>>)
            ELSE i = Len(T.ev) => PrintT(<<"DONE", T.id, i>>)
  /\ i' = i + 1 /\ UNCHANGED ti
Spec == Init /\ [][Step]_vars
==========================================================================
