----------------------------- MODULE Averages -----------------------------
(***************************************************************************)
(* Moving averages and the lines that are differences or ratios of them.   *)
(* X_Init(p) is the state before the first bar; X_Step(p, fn, s, b) the    *)
(* possible [s |-> next state, o |-> outputs] after bar b.  fn is the      *)
(* fillna switch (partial windows are shown only when it is on).           *)
(***************************************************************************)
EXTENDS Series

(* simple / exponential / linearly weighted average of the close *)
SMA_Init(p) == RInit
SMA_Step(p, fn, s, b) ==
  LET r == RPush(s, b.c, p.window) IN Out(r, <<RMean(r, Need(fn, p.window))>>)

EMA_Init(p) == EInit
EMA_Step(p, fn, s, b) ==
  LET e == EPush(s, b.c, SpanAlpha(p.window)) IN Out(e, <<EOut(e, Need(fn, p.window))>>)

WMA_Init(p) == RInit
WMA_Step(p, fn, s, b) ==
  LET w == p.window
      r == RPush(s, b.c, w)
      v == IF Len(r.b) < w THEN NA
           ELSE SumDef([i \in 1..w |-> Mul(Frac(2 * i, w * (w + 1)), r.b[i])])
  IN  Out(r, <<v>>)

(* fast minus slow average, its own average (signal), and their gap *)
LOCAL Osc_Init == [f |-> EInit, s |-> EInit, g |-> EInit]
LOCAL Osc_Step(p, fn, s, x, ratio) ==
  LET f1 == EPush(s.f, x, SpanAlpha(p.window_fast))
      s1 == EPush(s.s, x, SpanAlpha(p.window_slow))
      f  == EOut(f1, Need(fn, p.window_fast))
      sl == EOut(s1, Need(fn, p.window_slow))
      m  == IF ratio THEN Pct(f, sl) ELSE Sub(f, sl)
      g1 == EPush(s.g, m, SpanAlpha(p.window_sign))
      g  == EOut(g1, Need(fn, p.window_sign))
  IN  Out([f |-> f1, s |-> s1, g |-> g1], <<m, g, Sub(m, g)>>)

MACD_Init(p) == Osc_Init
MACD_Step(p, fn, s, b) == Osc_Step(p, fn, s, b.c, FALSE)
PPO_Init(p)  == Osc_Init
PPO_Step(p, fn, s, b)  == Osc_Step(p, fn, s, b.c, TRUE)
PVO_Init(p)  == Osc_Init
PVO_Step(p, fn, s, b)  == Osc_Step(p, fn, s, b.v, TRUE)

(* rate of change of a triple exponential average *)
TRIX_Init(p) == [e1 |-> EInit, e2 |-> EInit, e3 |-> EInit, pv |-> NA]
TRIX_Step(p, fn, s, b) ==
  LET w  == p.window
      a  == SpanAlpha(w)
      n  == Need(fn, w)
      e1 == EPush(s.e1, b.c, a)
      e2 == EPush(s.e2, EOut(e1, n), a)
      e3 == EPush(s.e3, EOut(e2, n), a)
      v  == EOut(e3, n)
  IN  Out([e1 |-> e1, e2 |-> e2, e3 |-> e3, pv |-> v], <<Pct(v, s.pv)>>)

(* Kaufman's adaptive average; d: last window+1 closes *)
KAMA_Init(p) == [d |-> <<>>, k |-> NA, n |-> 0, l |-> N(0)]
KAMA_Step(p, fn, s, b) ==
  LET w   == p.window
      d   == DPush(s.d, b.c, w)
      n   == s.n + 1
      l   == Add(s.l, Abs(b.c))
      net == Abs(Sub(b.c, d[1]))
      vol == Noisy(SumDef([i \in 1..(Len(d) - 1) |-> Abs(Sub(d[i + 1], d[i]))]), l)
      er  == Pick(EqS(vol, N(0)), N(0), Div(net, vol))
      fa  == Frac(2, p.pow1 + 1)
      sl  == Frac(2, p.pow2 + 1)
      r   == Add(Mul(er, Sub(fa, sl)), sl)
      v   == IF n < Need1(fn, w) THEN NA
             ELSE IF IsNA(s.k) THEN b.c
             ELSE LET q == Mul(r, r) IN Add(Mul(Sub(N(1), q), s.k), Mul(q, b.c))
  IN  Out([d |-> d, k |-> v, n |-> n, l |-> l], <<v>>)
==========================================================================
