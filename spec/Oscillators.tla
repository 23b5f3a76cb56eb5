---------------------------- MODULE Oscillators ----------------------------
(***************************************************************************)
(* Oscillators (see Averages for the shape of the operators).              *)
(***************************************************************************)
EXTENDS Series

(* ---- relative strength: averages of rises and falls, weight 1/window ---- *)
RSI_Init(p) == [u |-> EInit, d |-> EInit, pc |-> NA]
LOCAL RsiNext(w, s, b) ==
  LET df == Sub(b.c, s.pc)
      \* the first bar counts as an unchanged bar
      up == IF IsNA(df) THEN N(0) ELSE Max(df, N(0))
      dn == IF IsNA(df) THEN N(0) ELSE Max(Neg(df), N(0))
  IN  [u |-> EPush(s.u, up, Frac(1, w)), d |-> EPush(s.d, dn, Frac(1, w)), pc |-> b.c]
LOCAL RsiVal(w, fn, s) ==
  LET u == EOut(s.u, Need(fn, w))
      d == EOut(s.d, Need(fn, w))
  IN  IF IsNA(d) THEN NA
      ELSE Pick(EqS(d, N(0)), N(100),
                Sub(N(100), Div(N(100), Add(N(1), Div(u, d)))))
RSI_Step(p, fn, s, b) ==
  LET t == RsiNext(p.window, s, b) IN Out(t, <<RsiVal(p.window, fn, t)>>)

(* ---- position of RSI inside its own recent range ---- *)
StochRSI_Init(p) == [r |-> RSI_Init(p), w |-> RInit, k |-> RInit, d |-> RInit]
StochRSI_Step(p, fn, s, b) ==
  LET r  == RsiNext(p.window, s.r, b)
      v  == RsiVal(p.window, fn, r)
      w  == RPush(s.w, v, p.window)
      lo == RMin(w, p.window)
      hi == RMax(w, p.window)
      x  == Div(Sub(v, lo), Sub(hi, lo))
      k  == RPush(s.k, x, p.smooth1)
      kv == RMean(k, p.smooth1)
      d  == RPush(s.d, kv, p.smooth2)
  IN  Out([r |-> r, w |-> w, k |-> k, d |-> d], <<x, kv, RMean(d, p.smooth2)>>)

(* ---- true strength: doubly smoothed change over doubly smoothed |change| ---- *)
TSI_Init(p) == [a |-> EInit, b |-> EInit, c |-> EInit, d |-> EInit, pc |-> NA]
TSI_Step(p, fn, s, b) ==
  LET df == Sub(b.c, s.pc)
      sl == SpanAlpha(p.window_slow)
      fa == SpanAlpha(p.window_fast)
      ns == Need(fn, p.window_slow)
      nf == Need(fn, p.window_fast)
      a  == EPush(s.a, df, sl)
      bb == EPush(s.b, EOut(a, ns), fa)
      c  == EPush(s.c, Abs(df), sl)
      d  == EPush(s.d, EOut(c, ns), fa)
  IN  Out([a |-> a, b |-> bb, c |-> c, d |-> d, pc |-> b.c],
          <<Mul(Div(EOut(bb, nf), EOut(d, nf)), N(100))>>)

(* ---- ultimate oscillator: buying pressure over true range, three windows ---- *)
UO_Init(p) == [b1 |-> RInit, b2 |-> RInit, b3 |-> RInit,
               t1 |-> RInit, t2 |-> RInit, t3 |-> RInit, pc |-> NA]
UO_Step(p, fn, s, b) ==
  LET tr == TrueRange(b, s.pc)
      bp == Sub(b.c, Min(b.l, s.pc))
      b1 == RPush(s.b1, bp, p.window1)  t1 == RPush(s.t1, tr, p.window1)
      b2 == RPush(s.b2, bp, p.window2)  t2 == RPush(s.t2, tr, p.window2)
      b3 == RPush(s.b3, bp, p.window3)  t3 == RPush(s.t3, tr, p.window3)
      A(x, y, w) == Div(RSum(x, Need(fn, w)), RSum(y, Need(fn, w)))
      w1 == Parse(p.weight1)  w2 == Parse(p.weight2)  w3 == Parse(p.weight3)
      v  == Div(Mul(N(100), Add(Add(Mul(w1, A(b1, t1, p.window1)), Mul(w2, A(b2, t2, p.window2))),
                                Mul(w3, A(b3, t3, p.window3)))),
                Add(Add(w1, w2), w3))
  IN  Out([b1 |-> b1, b2 |-> b2, b3 |-> b3, t1 |-> t1, t2 |-> t2, t3 |-> t3, pc |-> b.c], <<v>>)

(* ---- stochastic oscillator and its average ---- *)
Stoch_Init(p) == [h |-> RInit, l |-> RInit, k |-> RInit]
Stoch_Step(p, fn, s, b) ==
  LET h  == RPush(s.h, b.h, p.window)
      l  == RPush(s.l, b.l, p.window)
      hi == RMax(h, Need(fn, p.window))
      lo == RMin(l, Need(fn, p.window))
      k  == Mul(N(100), Div(Sub(b.c, lo), Sub(hi, lo)))
      kr == RPush(s.k, k, p.smooth_window)
  IN  Out([h |-> h, l |-> l, k |-> kr], <<k, RMean(kr, Need(fn, p.smooth_window))>>)

WR_Init(p) == [h |-> RInit, l |-> RInit]
WR_Step(p, fn, s, b) ==
  LET h  == RPush(s.h, b.h, p.lbp)
      l  == RPush(s.l, b.l, p.lbp)
      hi == RMax(h, Need(fn, p.lbp))
      lo == RMin(l, Need(fn, p.lbp))
  IN  Out([h |-> h, l |-> l], <<Mul(N(-100), Div(Sub(hi, b.c), Sub(hi, lo)))>>)

(* ---- awesome oscillator: short minus long average of the mid price ---- *)
AO_Init(p) == [a |-> RInit, b |-> RInit]
AO_Step(p, fn, s, b) ==
  LET m == Mul(Half, Add(b.h, b.l))
      x == RPush(s.a, m, p.window1)
      y == RPush(s.b, m, p.window2)
  IN  Out([a |-> x, b |-> y], <<Sub(RMean(x, Need(fn, p.window1)), RMean(y, Need(fn, p.window2)))>>)

(* ---- rate of change over window bars ---- *)
ROC_Init(p) == DInit
ROC_Step(p, fn, s, b) ==
  LET d == DPush(s, b.c, p.window) IN Out(d, <<Pct(b.c, DOut(d, p.window))>>)

(* ---- Schaff trend cycle: twice stochastic of the MACD line ---- *)
STC_Init(p) == [f |-> EInit, s |-> EInit, m |-> RInit, d |-> EInit, dw |-> RInit, o |-> EInit]
STC_Step(p, fn, s, b) ==
  LET f1 == EPush(s.f, b.c, SpanAlpha(p.window_fast))
      s1 == EPush(s.s, b.c, SpanAlpha(p.window_slow))
      m  == Sub(EOut(f1, Need(fn, p.window_fast)), EOut(s1, Need(fn, p.window_slow)))
      mw == RPush(s.m, m, p.cycle)
      K(r, x) == LET lo == RMin(r, p.cycle) IN Mul(N(100), Div(Sub(x, lo), Sub(RMax(r, p.cycle), lo)))
      d1 == EPush(s.d, K(mw, m), SpanAlpha(p.smooth1))
      d  == EOut(d1, Need(fn, p.smooth1))
      dw == RPush(s.dw, d, p.cycle)
      o1 == EPush(s.o, K(dw, d), SpanAlpha(p.smooth2))
  IN  Out([f |-> f1, s |-> s1, m |-> mw, d |-> d1, dw |-> dw, o |-> o1],
          <<EOut(o1, Need(fn, p.smooth2))>>)

(* ---- Aroon: bars since the extreme of the last window+1 bars ---- *)
Aroon_Init(p) == [h |-> RInit, l |-> RInit]
Aroon_Step(p, fn, s, b) ==
  LET w == p.window
      h == RPush(s.h, b.h, w + 1)
      l == RPush(s.l, b.l, w + 1)
      n == Len(h.b)
      V(k) == IF n < Need1(fn, w + 1) THEN NA ELSE Mul(N(100), Frac(w - (n - 1 - k), w))
      \* a missing input: no value before the window is full of inputs; with fillna the rest is open
      G(r, A(_)) == IF CountDef(r.b) = n THEN V(A(r.b)) ELSE IF fn THEN ANY ELSE NA
      u == G(h, ArgMax)
      d == G(l, ArgMin)
  IN  Out([h |-> h, l |-> l], <<u, d, Sub(u, d)>>)

(* ---- commodity channel index ---- *)
CCI_Init(p) == RInit
CCI_Step(p, fn, s, b) ==
  LET tp == Typical(b)
      r  == RPush(s, tp, p.window)
      n  == Need(fn, p.window)
  IN  Out(r, <<Div(Sub(tp, RMean(r, n)), Mul(Parse(p.constant), RMad(r, n)))>>)

(* ---- know sure thing: four smoothed rates of change ---- *)
KST_Init(p) == [d |-> DInit, a |-> RInit, b |-> RInit, c |-> RInit, e |-> RInit, g |-> RInit]
KST_Step(p, fn, s, b) ==
  LET mx == LET M(x, y) == IF x > y THEN x ELSE y IN M(M(p.roc1, p.roc2), M(p.roc3, p.roc4))
      d  == DPush(s.d, b.c, mx)
      At(k) == IF Len(d) > k THEN d[Len(d) - k] ELSE NA
      R(k)  == Change(b.c, At(k))
      r1 == RPush(s.a, R(p.roc1), p.window1)
      r2 == RPush(s.b, R(p.roc2), p.window2)
      r3 == RPush(s.c, R(p.roc3), p.window3)
      r4 == RPush(s.e, R(p.roc4), p.window4)
      v  == Mul(N(100), Add(Add(RMean(r1, Need(fn, p.window1)), Mul(N(2), RMean(r2, Need(fn, p.window2)))),
                            Add(Mul(N(3), RMean(r3, Need(fn, p.window3))), Mul(N(4), RMean(r4, Need(fn, p.window4))))))
      g  == RPush(s.g, v, p.nsig)
      gv == RMean(g, Need(fn, p.nsig))
  IN  Out([d |-> d, a |-> r1, b |-> r2, c |-> r3, e |-> r4, g |-> g], <<v, gv, Sub(v, gv)>>)

(* ---- detrended price: an earlier close minus the current average ---- *)
DPO_Init(p) == [d |-> DInit, r |-> RInit]
DPO_Step(p, fn, s, b) ==
  LET k == (p.window \div 2) + 1
      d == DPush(s.d, b.c, k)
      r == RPush(s.r, b.c, p.window)
  IN  Out([d |-> d, r |-> r], <<Sub(DOut(d, k), RMean(r, Need(fn, p.window)))>>)

(* ---- mass index: summed ratio of single to double smoothed range ---- *)
Mass_Init(p) == [a |-> EInit, b |-> EInit, r |-> RInit]
Mass_Step(p, fn, s, b) ==
  LET al == SpanAlpha(p.window_fast)
      n  == Need(fn, p.window_fast)
      a  == EPush(s.a, Sub(b.h, b.l), al)
      e1 == EOut(a, n)
      c  == EPush(s.b, e1, al)
      r  == RPush(s.r, Div(e1, EOut(c, n)), p.window_slow)
  IN  Out([a |-> a, b |-> c, r |-> r], <<RSum(r, Need(fn, p.window_slow))>>)

(* ---- vortex: cross-bar movement over true range ---- *)
Vortex_Init(p) == [p |-> RInit, n |-> RInit, t |-> RInit, pb |-> [h |-> NA, l |-> NA, c |-> NA, v |-> NA]]
Vortex_Step(p, fn, s, b) ==
  LET w  == p.window
      x  == RPush(s.p, Abs(Sub(b.h, s.pb.l)), w)
      y  == RPush(s.n, Abs(Sub(b.l, s.pb.h)), w)
      t  == RPush(s.t, TrueRange(b, s.pb.c), w)
      T  == RSum(t, Need(fn, w))
      vp == Div(RSum(x, Need(fn, w)), T)
      vn == Div(RSum(y, Need(fn, w)), T)
  IN  Out([p |-> x, n |-> y, t |-> t, pb |-> b], <<vp, vn, Sub(vp, vn)>>)
==========================================================================
