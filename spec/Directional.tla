---------------------------- MODULE Directional ----------------------------
(***************************************************************************)
(* Wilder's directional movement system and the parabolic SAR.             *)
(***************************************************************************)
EXTENDS Series

(* ---- ADX, +DI, -DI: all 0 until enough bars have been seen ---- *)
ADX_Init(p) == [t |-> 0, pb |-> [h |-> NA, l |-> NA, c |-> NA, v |-> NA],
                tr |-> N(0), up |-> N(0), dn |-> N(0), dx |-> RInit, a |-> N(0)]
ADX_Step(p, fn, s, b) ==
  IF s.t = 0 THEN Out([s EXCEPT !.t = 1, !.pb = b], <<N(0), N(0), N(0)>>)
  ELSE
  LET w   == p.window
      t   == s.t                                   \* row, counted from 0
      tr  == Sub(Max(b.h, s.pb.c), Min(b.l, s.pb.c))
      du  == Sub(b.h, s.pb.h)
      dd  == Sub(s.pb.l, b.l)
      pos == Pick(Gt(du, dd), Max(du, N(0)), N(0))
      neg == Pick(Gt(dd, du), Max(dd, N(0)), N(0))
      W(a, x) == IF t <= w THEN Add(a, x) ELSE Add(Mul(a, Frac(w - 1, w)), x)
      T   == W(s.tr, tr)
      U   == W(s.up, pos)
      D   == W(s.dn, neg)
      Of(x) == Pick(EqS(T, N(0)), N(0), Mul(N(100), Div(x, T)))
      pdi == Of(U)
      ndi == Of(D)
      sm  == Add(pdi, ndi)
      dxv == Pick(EqS(sm, N(0)), N(0), Mul(N(100), Abs(Div(Sub(pdi, ndi), sm))))
      dx  == IF t >= w THEN RPush(s.dx, dxv, w) ELSE s.dx
      a   == IF t < 2 * w - 1 THEN N(0)
             ELSE IF t = 2 * w - 1 THEN RMean(dx, w)
             ELSE Div(Add(Mul(s.a, N(w - 1)), dxv), N(w))
  IN  Out([t |-> t + 1, pb |-> b, tr |-> T, up |-> U, dn |-> D,
           dx |-> IF t < 2 * w - 1 THEN dx ELSE RInit, a |-> a],
          <<a, IF t > w THEN pdi ELSE N(0), IF t > w THEN ndi ELSE N(0)>>)

(* ---- parabolic stop and reverse ---- *)
\* up: long trend; af: acceleration; uh/dl: extreme points; ps: stop;
\* p1/p2: the last two bars; pu/pd: was the up/down stop shown on the last bar
PSAR_Init(p) == [t |-> 0, up |-> TRUE, af |-> Parse(p.step), uh |-> NA, dl |-> NA, ps |-> NA,
                 p1 |-> [h |-> NA, l |-> NA], p2 |-> [h |-> NA, l |-> NA], pu |-> FALSE, pd |-> FALSE]

\* value after limiting x to the two previous lows (highs): the older one first
LOCAL ClampLo(x, l1, l2) ==
  UNION {IF q2 THEN {l2} ELSE {IF q1 THEN l1 ELSE x : q1 \in LtS(l1, x)} : q2 \in LtS(l2, x)}
LOCAL ClampHi(x, h1, h2) ==
  UNION {IF q2 THEN {h2} ELSE {IF q1 THEN h1 ELSE x : q1 \in Gt(h1, x)} : q2 \in Gt(h2, x)}

\* the point a fraction q of the way from x to y
LOCAL Toward(x, y, q) == IF SameNum(x, y) THEN x ELSE Add(Mul(Sub(N(1), q), x), Mul(q, y))

PSAR_Step(p, fn, s, b) ==
  LET p1 == [h |-> b.h, l |-> b.l]
      Res(up, af, uh, dl, ps) ==
        [s |-> [t |-> 3, up |-> up, af |-> af, uh |-> uh, dl |-> dl, ps |-> ps,
                p1 |-> p1, p2 |-> s.p1, pu |-> up, pd |-> ~up],
         o |-> <<ps, IF up THEN ps ELSE NA, IF up THEN NA ELSE ps,
                 N(IF up /\ ~s.pu THEN 1 ELSE 0), N(IF ~up /\ ~s.pd THEN 1 ELSE 0)>>]
  IN
  IF s.t < 2
  THEN Out([s EXCEPT !.t = @ + 1, !.uh = IF s.t = 0 THEN b.h ELSE @, !.dl = IF s.t = 0 THEN b.l ELSE @,
                     !.ps = b.c, !.p1 = p1, !.p2 = s.p1],
           <<b.c, NA, NA, N(0), N(0)>>)
  ELSE IF s.up
  THEN LET x == Toward(s.ps, s.uh, s.af)
       IN  UNION { IF rev THEN {Res(FALSE, Parse(p.step), s.uh, b.l, s.uh)}
                   ELSE LET nh == Gt(b.h, s.uh) = {TRUE}
                            uh == IF nh THEN b.h ELSE s.uh
                            af == IF nh THEN Min(Add(s.af, Parse(p.step)), Parse(p.max_step)) ELSE s.af
                        IN  {Res(TRUE, af, uh, s.dl, y) : y \in ClampLo(x, s.p1.l, s.p2.l)}
                   : rev \in LtS(b.l, x) }
  ELSE LET x == Toward(s.ps, s.dl, s.af)
       IN  UNION { IF rev THEN {Res(TRUE, Parse(p.step), b.h, s.dl, s.dl)}
                   ELSE LET nl == LtS(b.l, s.dl) = {TRUE}
                            dl == IF nl THEN b.l ELSE s.dl
                            af == IF nl THEN Min(Add(s.af, Parse(p.step)), Parse(p.max_step)) ELSE s.af
                        IN  {Res(FALSE, af, s.uh, dl, y) : y \in ClampHi(x, s.p1.h, s.p2.h)}
                   : rev \in Gt(b.h, x) }
==========================================================================
