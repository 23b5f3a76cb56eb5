---------------------------- MODULE SchemeTrace ----------------------------
(***************************************************************************)
(* Recorded runs held to Schemes.  A trace has the runs of one scheme, each*)
(* with its parameters, the bars it was given and the lines it returned.   *)
(* First the trace must be what the scheme asks for: parameters that fit,  *)
(* and bars that are those of the first run, lines of earlier runs or the  *)
(* quantities named.  Then the lines must follow from each other.  The     *)
(* machines run along every run, only to tell where a line has a value and *)
(* how far rounding may have carried it; the observed values decide.       *)
(***************************************************************************)
EXTENDS Schemes, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TA_TRACES)
VARIABLES ti, row, R1, S, H, X, cnt, ok              \* S: sets of states of the runs
vars == <<ti, row, R1, S, H, X, cnt, ok>>

T    == Traces[ti]
Runs    == T.runs
Len_ == Len(Runs[1].c)
Dropping(i) == "dropnans" \in DOMAIN Runs[i].p /\ Runs[i].p.dropnans
Lines(i) == DOMAIN Runs[i].o
Failed_ == \E i \in DOMAIN Runs : \E k \in Lines(i) : Runs[i].o[k][1] = "raised" \/ (~Dropping(i) /\ Runs[i].o[k][1] = "absent")

Init == /\ ti \in DOMAIN Traces /\ row = 1
        /\ R1 = TLCEval(RunsOf(CHOOSE s \in {Schemes[j] : j \in DOMAIN Schemes} : s.id = T.scheme))
        /\ S = [i \in DOMAIN Runs |-> {MInit(Runs[i].m, Runs[i].p)}]
        /\ H = <<>> /\ X = <<>> /\ cnt = [held |-> 0, values |-> 0, skipped |-> 0] /\ ok = TRUE

\* is the trace a recording of the scheme?
Posed == /\ Len(R1) = Len(Runs)
         /\ \A i \in DOMAIN Runs : Runs[i].m = R1[i].m /\ Len(Runs[i].c) = Len_ /\ (i > 1 => Runs[i].fn = FnOf(R1[i], Runs[1].fn))
         /\ \A i \in 2..Len(Runs) : Fits(Runs[1].m, Runs[1].p, R1[i], Runs[i].p)

BarOf(i) == [h |-> Parse(Runs[i].h[row]), l |-> Parse(Runs[i].l[row]), c |-> Parse(Runs[i].c[row]), v |-> Parse(Runs[i].v[row])]
Gap(t) == t \in {"nan", "absent", "inf", "-inf"}
Quiet(a, b) == a = "nan" \/ a = b                    \* inputs a machine does not read are not recorded
\* is run i given what it should be?
Sourced(i, b, pb, o) ==
  LET x == R1[i] q == Runs[i] IN
  CASE x.src[1] = "bar" -> Quiet(q.h[row], T.h[row]) /\ Quiet(q.l[row], T.l[row]) /\ Quiet(q.c[row], T.c[row]) /\ Quiet(q.v[row], T.v[row])
    [] x.src[1] = "on" -> LET t == Runs[x.src[2]].o[x.src[3]][row]
                          IN  (IF Gap(t) THEN q.c[row] = "nan" ELSE q.c[row] = t) /\ Quiet(q.h[row], q.c[row]) /\ Quiet(q.l[row], q.c[row])
    [] OTHER -> LET f == Feed(x, b, pb, o).c
                IN  IsAny(f) \/ (IF IsNA(f) THEN q.c[row] = "nan" ELSE Matches(q.c[row], f, "0.0"))

\* what the machine of run i says after a bar; alternatives that explain the observed row if there are any
After(i, bar) ==
  LET q == Runs[i]
      D == UNION {MSteps(q.m, q.p, q.fn, s, bar) : s \in S[i]}
      G == {d \in D : \A k \in Lines(i) : IF q.o[k][row] = "absent" THEN IsNA(d.o[k])
                                          ELSE (q.fn /\ IsNA(d.o[k])) \/ Matches(q.o[k][row], d.o[k], q.sc[k])}
  IN  IF G = {} THEN D ELSE G
\* the observed row; a line that rounding noise decides is ANY, one without a value NA
RowOf(i, D) == TLCEval([k \in Lines(i) |->
  LET r == {d.o[k] : d \in D}
      x == CHOOSE y \in r : TRUE
      t == IF Runs[i].o[k][row] = "absent" THEN "nan" ELSE Runs[i].o[k][row]
  IN  IF Cardinality(r) > 1 THEN ANY ELSE IF IsNA(x) /\ Runs[i].fn THEN x ELSE Observed(t, x, Runs[i].sc[k])])

Bar1 == [h |-> Parse(T.h[row]), l |-> Parse(T.l[row]), c |-> Parse(T.c[row]), v |-> Parse(T.v[row])]
Bar0 == [h |-> NA, l |-> NA, c |-> NA, v |-> NA]
\* runs i.. in order: <<sets of states, lines, well posed>>
RECURSIVE Through(_, _, _, _, _, _)
Through(i, a, o, well, b, pb) ==
  IF i > Len(Runs) THEN <<a, o, well>>
  ELSE LET D == TLCEval(After(i, BarOf(i)))
       IN  Through(i + 1, TLCEval(Append(a, {d.s : d \in D})), TLCEval(Append(o, RowOf(i, D))), well /\ Sourced(i, b, pb, o), b, pb)

Kinds(o, E) == [held |-> cnt.held + 1, values |-> cnt.values + Cardinality({e \in E : IsNum(e[3])}),
                skipped |-> cnt.skipped + Cardinality({e \in E : IsAny(e[3]) \/ IsAny(o[e[1]][e[2]])})]
Step ==
  /\ ok /\ row <= Len_
  /\ \E g \in {IF Failed_ THEN <<S, <<>>, TRUE>> ELSE Through(1, <<>>, <<>>, row > 1 \/ Posed, Bar1, IF H = <<>> THEN Bar0 ELSE H[Len(H)])} :
     \E X1 \in {Append(X, g[2])} : \E H1 \in {Append(H, Bar1)} :
     LET E == TLCEval(IF Failed_ THEN {} ELSE Expect(T.scheme, Runs[1].m, [i \in DOMAIN Runs |-> Runs[i].p], Runs[1].fn, H1, X1, row))
         W == {e \in E : ~Agreeing(g[2][e[1]][e[2]], e[3], Runs[1].fn)}
         w == CHOOSE e \in W : TRUE
         crowd == \E i \in DOMAIN Runs : Cardinality(g[1][i]) >= 40
         why == IF Failed_ THEN "the call failed or rows are missing"
                ELSE IF ~g[3] THEN "the recording is not one of the scheme"
                ELSE IF W # {} THEN "run " \o ToString(w[1]) \o " line " \o OutsOf(Runs[w[1]].m)[w[2]][1] \o " does not follow" ELSE ""
     IN  /\ S' = g[1] /\ X' = X1 /\ H' = H1 /\ cnt' = Kinds(g[2], E)
         /\ ok' = (why = "" /\ ~crowd)
         /\ IF why # "" THEN PrintT(<<"REJECT", T.id, row - 1, OutsOf(Runs[1].m)[1][1], why,
                                      IF W = {} THEN "" ELSE Runs[w[1]].o[w[2]][row], IF W = {} THEN "" ELSE Show(w[3])>>)
            ELSE row = Len_ \/ crowd => PrintT(<<"DONE", T.id, row, cnt'.held, cnt'.values, cnt'.skipped>>)
         /\ row' = row + 1 /\ UNCHANGED <<ti, R1>>

Spec == Init /\ [][Step]_vars
==========================================================================
