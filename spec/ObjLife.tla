------------------------------ MODULE ObjLife ------------------------------
(***************************************************************************)
(* Life of indicator objects.  Three objects: "a" and "b" of one class     *)
(* with different arguments (bars, parameters or fillna), "c" constructed  *)
(* exactly like "a".  An object is constructed, then asked for its lines   *)
(* in any order and any number of times.  "recycle": the caller lets go of *)
(* "a" and "c" and writes the bars of "b" into the very same series.       *)
(* "other": a stranger - an object of any class, a module-level function   *)
(* or add_all_ta_features - works on the series of "a" in between.         *)
(* Whatever the schedule,                                                  *)
(*   - an answer depends on the object's arguments and the line only,      *)
(*   - the series passed in are never modified.                            *)
(***************************************************************************)
EXTENDS Relations, FiniteSets

Objects == {"a", "b", "c"}
Twin(o) == IF o = "c" THEN "a" ELSE o           \* objects with the same arguments give the same answers

New(o)     == [op |-> "new", obj |-> o, k |-> 0]
Ask(o, k)  == [op |-> "ask", obj |-> o, k |-> k]

Other(k)   == [op |-> "other", obj |-> "d", k |-> k]
Recycle    == [op |-> "recycle", obj |-> "b", k |-> 0]

\* schedules of n events on classes with nk lines: objects are constructed once, before they are asked;
\* the series are recycled before b exists, and a and c are gone from then on
Legal(s) ==
  \A i \in DOMAIN s :
     LET before == {s[j].obj : j \in {j \in 1..(i - 1) : s[j].op = "new"}}
         gone   == IF \E j \in 1..(i - 1) : s[j].op = "recycle" THEN {"a", "c"} ELSE {}
     IN  CASE s[i].op = "new"     -> s[i].obj \notin before \cup gone
           [] s[i].op = "ask"     -> s[i].obj \in before \ gone
           [] s[i].op = "recycle" -> "b" \notin before /\ gone = {}
           [] s[i].op = "other"   -> TRUE
Useful(s) == /\ s[1] = New("a") /\ s[Len(s)].op = "ask"
             /\ Cardinality({i \in DOMAIN s : s[i].op = "ask"}) >= 2

\* prefixes are pruned while growing
RECURSIVE Grow(_, _)
Grow(n, nk) ==
  IF n = 1 THEN {<<New("a")>>}
  ELSE LET P == Grow(n - 1, nk)
       IN  {s \in {Append(s, e) : s \in P, e \in {New(o) : o \in Objects} \cup {Ask(o, k) : o \in Objects, k \in 1..nk}} :
              Legal(s)}
Plans(n, nk) == {s \in Grow(n, nk) : Useful(s)}

\* lives in rounds: every line of every object, in one order after another (the orders are drawn by the harness)
RECURSIVE Asks(_, _)
Asks(o, ks) == IF ks = <<>> THEN <<>> ELSE <<Ask(o, Head(ks))>> \o Asks(o, Tail(ks))
Rounds(x, y, z, w) == <<New("a")>> \o Asks("a", x) \o <<New("b")>> \o Asks("b", y) \o <<New("c")>> \o Asks("a", z)
                      \o Asks("c", w) \o Asks("b", x) \o Asks("a", x)
Recycled(x, y, z)  == <<New("a")>> \o Asks("a", x) \o <<Recycle, New("b")>> \o Asks("b", y) \o Asks("b", z)

\* strangers before, between and after
Strangers(x, y, z) == <<Other(1), New("a")>> \o Asks("a", x) \o <<Other(2), New("b")>> \o Asks("b", y) \o <<Other(3)>>
                      \o Asks("a", z) \o <<New("c"), Other(1)>> \o Asks("c", y) \o <<Other(2)>> \o Asks("b", z)

(* ---- the machine: known answers, filled as they are first given ---- *)
\* ref: answers given to fresh, lone objects; e: event with the answer e.o (a line) and e.frozen
Fault(ref, e) ==
  IF ~e.frozen THEN "an input series was modified"
  ELSE IF e.op = "recycle" THEN ""
  ELSE IF e.op = "new" THEN (IF e.err # "" THEN "the constructor failed" ELSE "")
  ELSE IF e.op = "other" THEN
         (IF Failed(e.o) THEN "the call failed or rows are missing"
          ELSE IF Len(e.o) # Len(ref.d[e.k]) \/ Differ(ref.d[e.k], e.o) # {} THEN "a stranger's answer depends on earlier calls" ELSE "")
  ELSE IF Failed(<<e.o>>) THEN "the call failed or rows are missing"
  ELSE IF Differ(<<ref[Twin(e.obj)][e.k]>>, <<e.o>>) # {} THEN "the answer depends on earlier calls"
  ELSE ""
==========================================================================
