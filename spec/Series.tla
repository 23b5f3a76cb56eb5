------------------------------ MODULE Series ------------------------------
(***************************************************************************)
(* Registers from which the online indicator machines are built: bounded   *)
(* windows, exponential averages and delay lines.  Each register consumes  *)
(* one value per bar, so everything built from them sees the past only.    *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Q(i)      == N(i)
Hundred   == N(100)
Half      == Frac(1, 2)

(* ---- window register: last w values and the L1 norm of all history ---- *)
RInit        == [b |-> <<>>, l |-> N(0)]
RPush(r, x, w) ==
  LET b1 == Append(r.b, x)
  IN  [b |-> IF Len(b1) > w THEN SubSeq(b1, Len(b1) - w + 1, Len(b1)) ELSE b1,
       l |-> IF IsNum(x) /\ IsNum(r.l) THEN Add(r.l, Abs(x)) ELSE r.l]

\* fewer than mp defined members: no value
RGate(r, mp, v) == IF HasAny(r.b) THEN ANY ELSE IF CountDef(r.b) >= mp THEN v ELSE NA

RSum(r, mp)  == RGate(r, mp, Noisy(SumDef(r.b), r.l))
RMean(r, mp) == RGate(r, IF mp > 1 THEN mp ELSE 1,
                      Div(Noisy(SumDef(r.b), r.l), N(CountDef(r.b))))
RMax(r, mp)  == RGate(r, IF mp > 1 THEN mp ELSE 1, MaxDef(r.b))
RMin(r, mp)  == RGate(r, IF mp > 1 THEN mp ELSE 1, MinDef(r.b))

Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]

\* population variance of the defined members; pk: largest magnitude the history has seen
RVar(r, mp, pk) ==
  RGate(r, IF mp > 1 THEN mp ELSE 1,
        LET c == N(CountDef(r.b))
            m == Div(SumDef(r.b), c)
            D(x) == LET y == Sub(x, m) IN Mul(y, y)
        IN  IF \A i \in DOMAIN r.b : SameNum(r.b[1], r.b[i])
            THEN N(0)
            \* a running variance carries noise even where every value and mean is exact
            ELSE Noisy(Div(SumDef(Map(r.b, D)), c), Mul(Mul(r.l, pk), Frac(4, 3))))

\* mean absolute deviation from the mean
RMad(r, mp) ==
  RGate(r, IF mp > 1 THEN mp ELSE 1,
        LET c == N(CountDef(r.b))
            m == Div(SumDef(r.b), c)
            D(x) == Abs(Sub(x, m))
        IN  Div(SumDef(Map(r.b, D)), c))

\* position (0-based) of the first largest / smallest member of a window without gaps
ArgMax(b) == (CHOOSE i \in DOMAIN b :
                 /\ \A j \in DOMAIN b : Leq(b[j], b[i])
                 /\ \A j \in 1..(i - 1) : ~Leq(b[i], b[j])) - 1
ArgMin(b) == (CHOOSE i \in DOMAIN b :
                 /\ \A j \in DOMAIN b : Leq(b[i], b[j])
                 /\ \A j \in 1..(i - 1) : ~Leq(b[j], b[i])) - 1

(* ---- exponential average with unadjusted weights ---- *)
\* v: average (NA before the first value), ow: weight of the old average
\* (decays further over gaps), n: number of values seen
EInit == [v |-> NA, ow |-> N(1), n |-> 0]
EPush(e, x, alpha) ==
  IF IsNA(e.v) THEN IF IsNA(x) THEN e ELSE [v |-> x, ow |-> N(1), n |-> 1]
  ELSE LET ow1 == Mul(e.ow, Sub(N(1), alpha))
       IN  IF IsNA(x) THEN [e EXCEPT !.ow = ow1]
           ELSE [v  |-> Div(Add(Mul(ow1, e.v), Mul(alpha, x)), Add(ow1, alpha)),
                 ow |-> N(1), n |-> e.n + 1]
EOut(e, mp) == IF IsAny(e.v) THEN ANY ELSE IF e.n >= mp THEN e.v ELSE NA
SpanAlpha(w) == Frac(2, w + 1)

(* ---- delay line: value k bars ago, NA before that ---- *)
DInit == <<>>
DPush(d, x, k) == LET b == Append(d, x)
                  IN  IF Len(b) > k + 1 THEN SubSeq(b, Len(b) - k, Len(b)) ELSE b
DOut(d, k) == IF Len(d) = k + 1 THEN d[1] ELSE NA

(* ---- choice between values on a comparison that noise may flip ---- *)
Pick(S, a, b) == IF S = {TRUE} THEN a ELSE IF S = {FALSE} THEN b
                 ELSE IF SameNum(a, b) THEN a ELSE ANY
Gt(a, b)      == LtS(b, a)
\* 1 where the comparison holds, else 0
Flag(S)       == Pick(S, N(1), N(0))
OrElse(a, v)  == IF IsNA(a) THEN v ELSE a
\* relative change from b to a, as uncertain as a quotient less one is, however it is computed
Change(a, b)  == Sub(Div(a, b), N(1))
Pct(a, b)     == Mul(Change(a, b), N(100))          \* percentage by which a exceeds b

\* largest true range of a bar given the previous close (NA before the first)
TrueRange(b, pc) ==
  LET r == Sub(b.h, b.l)
  IN  IF IsNA(pc) THEN r ELSE Max(r, Max(Abs(Sub(b.h, pc)), Abs(Sub(b.l, pc))))
Sum3(b)    == Add(Add(b.h, b.l), b.c)
Typical(b) == Div(Sum3(b), N(3))

\* observations needed before an average over w bars is shown
Need(fn, w)  == IF fn THEN 0 ELSE w
Need1(fn, w) == IF fn THEN 1 ELSE w

\* the result of one step of a machine without choices
Out(s, o) == {[s |-> s, o |-> o]}
==========================================================================
