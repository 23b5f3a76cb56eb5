----------------------------- MODULE FrameTrace -----------------------------
(***************************************************************************)
(* Recorded sequences of add_*_ta calls held to Frame.  T.lines: distinct  *)
(* lines; T.ref: line of every provenance "col/T", "col/F", "col/T2",      *)
(* ... and "=col" of every given column, as the indicator classes answer; T.ev: the calls, each    *)
(* with the frame that came back (column -> line).                         *)
(***************************************************************************)
EXTENDS Frame, Relations, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TA_TRACES)
VARIABLES ti, i, f, ok
vars == <<ti, i, f, ok>>
T == Traces[ti]
Init == ti \in DOMAIN Traces /\ i = 1 /\ f = GivenFrame({T.given[j] : j \in DOMAIN T.given}) /\ ok = TRUE

IsGiven(v) == v.col \in {"=" \o T.given[j] : j \in DOMAIN T.given}
RefOf(v) == IF IsGiven(v) THEN v.col ELSE v.col \o (IF v.fn THEN "/T" ELSE "/F") \o v.src
SameLine(x, y) == x = y \/ (/\ T.lines[x] # <<>> /\ Len(T.lines[x]) = Len(T.lines[y])
                            /\ Differ(<<T.lines[x]>>, <<T.lines[y]>>) = {})
\* given columns come back bit for bit
SameGiven(x, y) == x = y

Wrong(e, g) ==
  IF e.err # "" THEN <<"the call failed", e.err>>
  ELSE IF ~e.index_kept THEN <<"rows or index changed", "">>
  ELSE LET names == DOMAIN e.cols
           missing == DOMAIN g \ names
           extra   == names \ DOMAIN g
           bad == {n \in DOMAIN g \cap names :
                     IF IsGiven(g[n]) THEN ~SameGiven(e.cols[n], T.ref[g[n].col])
                     ELSE ~SameLine(T.ref[RefOf(g[n])], e.cols[n])}
       IN  IF missing # {} THEN <<"column missing", CHOOSE n \in missing : TRUE>>
           ELSE IF extra # {} THEN <<"unexpected column", CHOOSE n \in extra : TRUE>>
           ELSE IF bad # {} THEN <<"column does not show its indicator", CHOOSE n \in bad : TRUE>>
           ELSE <<>>

Step ==
  /\ ok /\ i <= Len(T.ev)
  /\ LET e == T.ev[i]
         g == After(f, e.call)
         w == Wrong(e, g)
     IN  /\ f' = g /\ ok' = (w = <<>>)
         /\ IF w # <<>> THEN PrintT(<<"REJECT", T.id, i, w[2], w[1], e.call.grp, "">>)
            ELSE i = Len(T.ev) => PrintT(<<"DONE", T.id, i>>)
  /\ i' = i + 1 /\ UNCHANGED ti
Spec == Init /\ [][Step]_vars
==========================================================================
