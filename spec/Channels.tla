----------------------------- MODULE Channels -----------------------------
(***************************************************************************)
(* Price channels, dispersion and the Ichimoku lines.                      *)
(***************************************************************************)
EXTENDS Series

(* ---- Wilder's average true range (0 until window bars have been seen) ---- *)
ATR_Init(p) == [n |-> 0, a |-> N(0), pc |-> NA]
ATR_Step0(w, s, b) ==
  LET n  == s.n + 1
      tr == TrueRange(b, s.pc)
      \* a: sum of true ranges before the window is full, the average afterwards
      a  == IF n < w THEN Add(s.a, tr)
            ELSE IF n = w THEN Div(Add(s.a, tr), N(w))
            ELSE Div(Add(Mul(s.a, N(w - 1)), tr), N(w))
  IN  [n |-> n, a |-> a, pc |-> b.c]
ATR_Val(w, s) == IF s.n < w THEN N(0) ELSE s.a
ATR_Step(p, fn, s, b) ==
  LET t == ATR_Step0(p.window, s, b) IN Out(t, <<ATR_Val(p.window, t)>>)

(* ---- Bollinger bands ---- *)
\* pk: largest magnitude so far, it decides the noise of a running variance
BB_Init(p) == [r |-> RInit, pk |-> N(0)]
BB_Step(p, fn, s, b) ==
  LET w == p.window
      r == RPush(s.r, b.c, w)
      pk == IF IsNum(b.c) THEN Max(s.pk, Abs(b.c)) ELSE s.pk
      m == RMean(r, Need(fn, w))
      k == Mul(Parse(p.window_dev), Sqrt(RVar(r, Need(fn, w), pk)))
      h == Add(m, k)
      l == Sub(m, k)
      g == Sub(h, l)
  IN  Out([r |-> r, pk |-> pk],
          <<m, h, l, Mul(Div(g, m), N(100)),
               Pick(EqS(h, l), NA, Div(Sub(b.c, l), g)),
               Flag(Gt(b.c, h)), Flag(LtS(b.c, l))>>)

(* ---- Keltner channel: typical price averages, or EMA -/+ multiples of ATR ---- *)
KC_Init(p) == [m |-> RInit, h |-> RInit, l |-> RInit, e |-> EInit, a |-> ATR_Init(p)]
KC_Step(p, fn, s, b) ==
  LET w  == p.window
      n  == Need1(fn, w)
      m1 == RPush(s.m, Typical(b), w)
      h1 == RPush(s.h, Div(Add(Sub(Mul(N(4), b.h), Mul(N(2), b.l)), b.c), N(3)), w)
      l1 == RPush(s.l, Div(Add(Add(Mul(N(-2), b.h), Mul(N(4), b.l)), b.c), N(3)), w)
      e1 == EPush(s.e, b.c, SpanAlpha(w))
      a1 == ATR_Step0(p.window_atr, s.a, b)
      x  == Mul(Parse(p.multiplier), ATR_Val(p.window_atr, a1))
      m  == IF p.original_version THEN RMean(m1, n) ELSE EOut(e1, n)
      h  == IF p.original_version THEN RMean(h1, n) ELSE Add(m, x)
      l  == IF p.original_version THEN RMean(l1, n) ELSE Sub(m, x)
  IN  Out(IF p.original_version
            THEN [s EXCEPT !.m = m1, !.h = h1, !.l = l1]
            ELSE [s EXCEPT !.e = e1, !.a = a1],
          <<m, h, l, Mul(Div(Sub(h, l), m), N(100)), Div(Sub(b.c, l), Sub(h, l)),
            Flag(Gt(b.c, h)), Flag(LtS(b.c, l))>>)

(* ---- Donchian channel, optionally shown offset bars later.  A negative offset shows it earlier, which no
   machine that sees one bar at a time can do: the machine answers as with offset 0, and Trace compares with the
   row -offset bars before. ---- *)
DC_Init(p) == [h |-> RInit, l |-> RInit, c |-> RInit, d |-> DInit]
DC_Step(p, fn, s, b) ==
  LET w  == p.window
      n  == Need1(fn, w)
      h1 == RPush(s.h, b.h, w)
      l1 == RPush(s.l, b.l, w)
      c1 == RPush(s.c, b.c, w)
      h  == RMax(h1, n)
      l  == RMin(l1, n)
      g  == Sub(h, l)
      o  == <<h, l, Add(Div(g, N(2)), l), Mul(Div(g, RMean(c1, n)), N(100)), Div(Sub(b.c, l), g)>>
      d  == IF p.offset <= 0 THEN s.d ELSE DPush(s.d, o, p.offset)
  IN  Out([h |-> h1, l |-> l1, c |-> c1, d |-> d],
          IF p.offset <= 0 THEN o
          ELSE IF Len(d) = p.offset + 1 THEN d[1] ELSE <<NA, NA, NA, NA, NA>>)

(* ---- Ichimoku lines: mid-ranges over three windows ---- *)
Ichi_Init(p) == [h1 |-> RInit, l1 |-> RInit, h2 |-> RInit, l2 |-> RInit, h3 |-> RInit, l3 |-> RInit,
                 a |-> DInit, b |-> DInit]
Ichi_Step(p, fn, s, b) ==
  LET h1 == RPush(s.h1, b.h, p.window1)  l1 == RPush(s.l1, b.l, p.window1)
      h2 == RPush(s.h2, b.h, p.window2)  l2 == RPush(s.l2, b.l, p.window2)
      h3 == RPush(s.h3, b.h, p.window3)  l3 == RPush(s.l3, b.l, p.window3)
      M(h, l, w) == Mul(Half, Add(RMax(h, Need(fn, w)), RMin(l, Need(fn, w))))
      conv == M(h1, l1, p.window1)
      base == M(h2, l2, p.window2)
      sa   == Mul(Half, Add(conv, base))
      sb   == M(h3, l3, p.window3)
      a    == IF p.visual THEN DPush(s.a, sa, p.window2) ELSE s.a
      bb   == IF p.visual THEN DPush(s.b, sb, p.window2) ELSE s.b
  IN  Out([h1 |-> h1, l1 |-> l1, h2 |-> h2, l2 |-> l2, h3 |-> h3, l3 |-> l3, a |-> a, b |-> bb],
          <<conv, base, IF p.visual THEN DOut(a, p.window2) ELSE sa,
                        IF p.visual THEN DOut(bb, p.window2) ELSE sb>>)

(* ---- ulcer index: root mean square drawdown from the window's high ---- *)
UI_Init(p) == [m |-> RInit, r |-> RInit]
UI_Step(p, fn, s, b) ==
  LET w == p.window
      m == RPush(s.m, b.c, w)
      r == RPush(s.r, Pct(b.c, RMax(m, 1)), w)
      v == IF CountDef(r.b) < w THEN NA
           ELSE Sqrt(SumDef([i \in DOMAIN r.b |-> Div(Mul(r.b[i], r.b[i]), N(w))]))
  IN  Out([m |-> m, r |-> r], <<v>>)
==========================================================================
