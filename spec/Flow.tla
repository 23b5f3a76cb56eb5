------------------------------- MODULE Flow -------------------------------
(***************************************************************************)
(* Volume lines (cumulative and windowed) and return lines.                *)
(***************************************************************************)
EXTENDS Series

\* where the close lies in the bar's range, -1 (low) .. 1 (high); 0 for a bar without range
LOCAL Clv(b) == OrElse(Div(Sub(Sub(b.c, b.l), Sub(b.h, b.c)), Sub(b.h, b.l)), N(0))

(* ---- cumulative ---- *)
ADI_Init(p) == N(0)
ADI_Step(p, fn, s, b) == LET v == Add(s, Mul(Clv(b), b.v)) IN Out(v, <<v>>)

\* volume counts with the sign of the price change; the first bar starts the line
OBV_Init(p) == [t |-> N(0), pc |-> NA]
OBV_Step(p, fn, s, b) ==
  LET v == IF IsNA(s.pc) THEN b.v
           ELSE Pick(LtS(b.c, s.pc), Neg(b.v), Pick(Gt(b.c, s.pc), b.v, N(0)))
      t == Add(s.t, v)
  IN  Out([t |-> t, pc |-> b.c], <<t>>)

VPT_Init(p) == [t |-> N(0), pc |-> NA, r |-> RInit]
VPT_Step(p, fn, s, b) ==
  LET x == Mul(Change(b.c, s.pc), b.v)
      t == IF IsNA(x) THEN s.t ELSE Add(s.t, x)
      v == IF IsNA(x) THEN NA ELSE t
      k == p.smoothing_factor
      r == IF k = 0 THEN s.r ELSE RPush(s.r, v, k)
  IN  Out([t |-> t, pc |-> b.c, r |-> r], <<IF k = 0 THEN v ELSE RMean(r, Need(fn, k))>>)

NVI_Init(p) == [x |-> NA, pb |-> [c |-> NA, v |-> NA]]
NVI_Step(p, fn, s, b) ==
  LET x == IF IsNA(s.x) THEN N(1000)
           ELSE Pick(LtS(b.v, s.pb.v),
                     Mul(s.x, Add(N(1), Change(b.c, s.pb.c))), s.x)
  IN  Out([x |-> x, pb |-> [c |-> b.c, v |-> b.v]], <<x>>)

(* ---- windowed ---- *)
CMF_Init(p) == [m |-> RInit, v |-> RInit]
CMF_Step(p, fn, s, b) ==
  LET m == RPush(s.m, Mul(Clv(b), b.v), p.window)
      v == RPush(s.v, b.v, p.window)
      n == Need(fn, p.window)
  IN  Out([m |-> m, v |-> v], <<Div(RSum(m, n), RSum(v, n))>>)

FI_Init(p) == [e |-> EInit, pc |-> NA]
FI_Step(p, fn, s, b) ==
  LET e == EPush(s.e, Mul(Sub(b.c, s.pc), b.v), SpanAlpha(p.window))
  IN  Out([e |-> e, pc |-> b.c], <<EOut(e, Need(fn, p.window))>>)

EOM_Init(p) == [r |-> RInit, pb |-> [h |-> NA, l |-> NA]]
EOM_Step(p, fn, s, b) ==
  LET d == Add(Sub(b.h, s.pb.h), Sub(b.l, s.pb.l))
      x == Mul(Div(Mul(d, Sub(b.h, b.l)), Mul(N(2), b.v)), N(100000000))
      r == RPush(s.r, x, p.window)
  IN  Out([r |-> r, pb |-> [h |-> b.h, l |-> b.l]], <<x, RMean(r, Need(fn, p.window))>>)

\* money flow: typical price times volume, signed by the change of the typical price
MFI_Init(p) == [r |-> RInit, ps |-> NA]
MFI_Step(p, fn, s, b) ==
  LET f   == Mul(Typical(b), b.v)
      x   == Pick(Gt(Sum3(b), s.ps), f, Pick(LtS(Sum3(b), s.ps), Neg(f), N(0)))
      r   == RPush(s.r, x, p.window)
      n   == Need(fn, p.window)
      pos == SumDef(Map(r.b, LAMBDA y : IF IsNum(y) THEN Max(y, N(0)) ELSE y))
      neg == SumDef(Map(r.b, LAMBDA y : IF IsNum(y) THEN Max(Neg(y), N(0)) ELSE y))
      v   == RGate(r, n, Pick(EqS(neg, N(0)), Pick(EqS(pos, N(0)), NA, N(100)),
                              Sub(N(100), Div(N(100), Add(N(1), Div(pos, neg))))))
  IN  Out([r |-> r, ps |-> Sum3(b)], <<v>>)

VWAP_Init(p) == [x |-> RInit, v |-> RInit]
VWAP_Step(p, fn, s, b) ==
  LET x == RPush(s.x, Mul(Typical(b), b.v), p.window)
      v == RPush(s.v, b.v, p.window)
      n == Need(fn, p.window)
  IN  Out([x |-> x, v |-> v], <<Div(RSum(x, n), RSum(v, n))>>)

(* ---- returns ---- *)
DR_Init(p) == NA
DR_Step(p, fn, s, b) == Out(b.c, <<Mul(Sub(Div(b.c, s), N(1)), N(100))>>)

DLR_Init(p) == NA
DLR_Step(p, fn, s, b) == LET x == Ln(b.c) IN Out(x, <<Mul(Sub(x, s), N(100))>>)

CR_Init(p) == NA
CR_Step(p, fn, s, b) ==
  LET c0 == IF IsNA(s) THEN b.c ELSE s
  IN  Out(c0, <<Mul(Sub(Div(b.c, c0), N(1)), N(100))>>)
==========================================================================
