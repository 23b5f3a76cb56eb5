------------------------------ MODULE NumTrace ------------------------------
(***************************************************************************)
(* Straight-line programs over doubles, executed by the machine, held to   *)
(* Num: the value of every step lies within the error bound of the exact   *)
(* value, and a comparison has the outcome the machine saw.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Num, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TA_TRACES)
VARIABLES ti, i, reg, ok
vars == <<ti, i, reg, ok>>
T == Traces[ti]
Init == ti \in DOMAIN Traces /\ i = 1 /\ reg = ParseSeq(Traces[ti].given) /\ ok = TRUE

Eval(s) == LET x == reg[s.a] y == reg[s.b] IN
  CASE s.op = "add" -> Add(x, y) [] s.op = "sub" -> Sub(x, y) [] s.op = "mul" -> Mul(x, y) [] s.op = "div" -> Div(x, y)
    [] s.op = "max" -> Max(x, y) [] s.op = "min" -> Min(x, y) [] s.op = "abs" -> Abs(x) [] s.op = "neg" -> Neg(x)
    [] s.op = "sqrt" -> Sqrt(Abs(x)) [] s.op = "sum" -> SumDef(reg) [] s.op = "ln" -> Ln(Add(N(1), Abs(x)))
Step ==
  /\ ok /\ i <= Len(T.steps)
  /\ LET s == T.steps[i]
         v == Eval(s)
         good == /\ WithinBound(s.r, v)
                 /\ (s.lt \in LtS(reg[s.a], reg[s.b]))
                 /\ (s.eq \in EqS(reg[s.a], reg[s.b]))
     IN  /\ ok' = good /\ reg' = Append(reg, v)
         /\ IF ~good THEN PrintT(<<"REJECT", T.id, i, s.op, s.r, Show(v)>>)
            ELSE i = Len(T.steps) => PrintT(<<"DONE", T.id, i>>)
  /\ i' = i + 1 /\ UNCHANGED ti
Spec == Init /\ [][Step]_vars
==========================================================================
