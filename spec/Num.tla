------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* Numbers of the specification: exact rationals, plus                     *)
(*   NA  - no value (the implementation shows NaN or an infinity),         *)
(*   ANY - a value that only rounding noise decides (0/0 up to noise), so  *)
(*         the specification claims nothing about it.                      *)
(*                                                                         *)
(* The definitions below are the meaning of every operator in exact        *)
(* arithmetic.  TLC integers are 32 bit, so for real traces the operators  *)
(* are replaced (taspec.NumOps, java/) by big rationals which carry, next  *)
(* to the exact value, a first-order bound e on the rounding error that a  *)
(* double precision evaluation of the same expression may accumulate.      *)
(* The bound only matters in three places: Matches (conformance is         *)
(* |observed - exact| <= K*e + tiny), LtS/EqS (a comparison that noise can *)
(* flip has both outcomes), and Div (a denominator that is zero up to      *)
(* noise yields ANY).  MC_Num cross-checks override and definitions.       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

NA  == [k |-> "na",  n |-> 0, d |-> 1]
ANY == [k |-> "any", n |-> 0, d |-> 1]

Kind(a)  == a.k
IsNum(a) == a.k = "num"
IsNA(a)  == a.k = "na"
IsAny(a) == a.k = "any"

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
LOCAL IAbs(a) == IF a < 0 THEN -a ELSE a

\* the reduced fraction a/b, b # 0
Frac(a, b) ==
  LET s == IF b < 0 THEN -1 ELSE 1
      g == Gcd(IAbs(a), IAbs(b))
  IN  [k |-> "num", n |-> (s * a) \div g, d |-> (s * b) \div g]
N(a) == [k |-> "num", n |-> a, d |-> 1]

\* NA absorbs everything, then ANY absorbs every number
LOCAL Lift(a, b, v) ==
  IF a.k = "na" \/ b.k = "na" THEN NA
  ELSE IF a.k = "any" \/ b.k = "any" THEN ANY ELSE v

Add(a, b) == Lift(a, b, Frac(a.n * b.d + b.n * a.d, a.d * b.d))
Sub(a, b) == Lift(a, b, Frac(a.n * b.d - b.n * a.d, a.d * b.d))
Mul(a, b) == Lift(a, b, Frac(a.n * b.n, a.d * b.d))
\* an exactly zero denominator gives no (finite) value
Div(a, b) ==
  IF a.k = "na" \/ b.k = "na" \/ (b.k = "num" /\ b.n = 0) THEN NA
  ELSE IF a.k = "any" \/ b.k = "any" THEN ANY
  ELSE Frac(a.n * b.d, a.d * b.n)
Neg(a) == IF a.k = "num" THEN [a EXCEPT !.n = -@] ELSE a
Abs(a) == IF a.k = "num" THEN [a EXCEPT !.n = IAbs(@)] ELSE a

LOCAL Lt0(a, b) == a.n * b.d < b.n * a.d
LOCAL Eq0(a, b) == a.n * b.d = b.n * a.d

\* the possible outcomes of a comparison (undefined operands compare false)
LtS(a, b) == IF a.k = "na" \/ b.k = "na" THEN {FALSE}
             ELSE IF a.k = "any" \/ b.k = "any" THEN BOOLEAN ELSE {Lt0(a, b)}
EqS(a, b) == IF a.k = "na" \/ b.k = "na" THEN {FALSE}
             ELSE IF a.k = "any" \/ b.k = "any" THEN BOOLEAN ELSE {Eq0(a, b)}
\* exact comparison, used by design-level laws on defined values
Leq(a, b)     == a.k = "num" /\ b.k = "num" /\ ~Lt0(b, a)
SameNum(a, b) == a.k = b.k /\ (a.k = "num" => Eq0(a, b))

Max(a, b) == Lift(a, b, IF Lt0(a, b) THEN b ELSE a)
Min(a, b) == Lift(a, b, IF Lt0(b, a) THEN b ELSE a)

LOCAL IRoot(x) == IF \E r \in 0..x : r * r = x THEN CHOOSE r \in 0..x : r * r = x ELSE -1
\* non-negative square root; exact where it is rational
Sqrt(a) == IF a.k # "num" THEN a
           ELSE IF a.n < 0 THEN NA
           ELSE IF IRoot(a.n) >= 0 /\ IRoot(a.d) >= 0 THEN Frac(IRoot(a.n), IRoot(a.d))
           ELSE ANY
\* natural logarithm (transcendental: only ln 1 is rational)
Ln(a) == IF a.k # "num" THEN a
         ELSE IF a.n <= 0 THEN NA
         ELSE IF a.n = a.d THEN N(0) ELSE ANY

(* ---- folds over the defined members of a sequence ---- *)
HasAny(s) == \E i \in DOMAIN s : IsAny(s[i])
RECURSIVE Defd(_)
Defd(s) == IF s = <<>> THEN <<>>
                 ELSE IF IsNA(Head(s)) THEN Defd(Tail(s)) ELSE <<Head(s)>> \o Defd(Tail(s))
CountDef(s) == Len(Defd(s))
RECURSIVE Sum0(_)
Sum0(s) == IF s = <<>> THEN N(0) ELSE Add(Head(s), Sum0(Tail(s)))
SumDef(s) == Sum0(Defd(s))
RECURSIVE Ext(_, _)
Ext(s, up) == IF Len(s) = 1 THEN s[1]
                    ELSE IF up THEN Max(Head(s), Ext(Tail(s), up)) ELSE Min(Head(s), Ext(Tail(s), up))
MaxDef(s) == IF HasAny(s) THEN ANY ELSE IF CountDef(s) = 0 THEN NA ELSE Ext(Defd(s), TRUE)
MinDef(s) == IF HasAny(s) THEN ANY ELSE IF CountDef(s) = 0 THEN NA ELSE Ext(Defd(s), FALSE)
\* exact arithmetic carries no noise
Noisy(a, l) == a

(* ---- operators that exist only next to an implementation ---- *)
\* the number a decimal/shortest-repr string of a double denotes ("nan", "inf" -> NA)
Parse(s)          == Assert(FALSE, "Parse needs the override")
ParseSeq(s)       == [i \in DOMAIN s |-> Parse(s[i])]
\* is the observed double an admissible image of model value x?
Matches(s, x, sc) == Assert(FALSE, "Matches needs the override")
\* the observed double as a number that is uncertain by the tolerance Matches allows it
Observed(s, x, sc) == Assert(FALSE, "Observed needs the override")
\* is the observed double inside the error bound of x (no further tolerance)?
WithinBound(s, x) == Assert(FALSE, "WithinBound needs the override")
\* do two observed doubles agree?
Agree(s, t, sc)   == Assert(FALSE, "Agree needs the override")
RLeq(s, t, sc)    == Assert(FALSE, "RLeq needs the override")
MaxAbs(line)      == Assert(FALSE, "MaxAbs needs the override")
Times2(s, k)      == Assert(FALSE, "Times2 needs the override")
Finite(s)         == Assert(FALSE, "Finite needs the override")
Show(a)           == IF a.k = "num" THEN ToString(a.n) \o "/" \o ToString(a.d) ELSE a.k
==========================================================================
