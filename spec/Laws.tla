------------------------------- MODULE Laws -------------------------------
(***************************************************************************)
(* What the indicators guarantee whatever the prices are: ranges, order of *)
(* bands, averages between the extremes of what they average, identities   *)
(* between lines.  Law(...) is the set of guarantees broken by output o on *)
(* the last bar of history H (a sequence of well-formed bars: low <= close *)
(* <= high, volume >= 0); po is the output on the bar before.              *)
(***************************************************************************)
EXTENDS Machines, FiniteSets

\* comparisons are those of LtS, EqS: on exact numbers exact, on observed ones up to their rounding errors
LOCAL LE(x, y)       == IsNum(x) /\ IsNum(y) => FALSE \in LtS(y, x)
LOCAL Below(x, y)    == IsNum(x) /\ IsNum(y) /\ LtS(x, y) = {TRUE}          \* certainly
LOCAL Same(x, y)     == IsNum(x) /\ IsNum(y) => TRUE \in EqS(x, y)
LOCAL In(x, lo, hi)  == LE(N(lo), x) /\ LE(x, N(hi))
LOCAL Both(x, y)     == IsAny(x) \/ IsAny(y) \/ (IsNA(x) <=> IsNA(y))
LOCAL Is1(x)         == IsNum(x) /\ Same(x, N(1))
LOCAL Is0(x)         == IsNum(x) /\ Same(x, N(0))
LOCAL Last(H, w)     == IF Len(H) > w THEN SubSeq(H, Len(H) - w + 1, Len(H)) ELSE H
LOCAL HiOf(H)        == MaxDef([i \in DOMAIN H |-> H[i].h])
LOCAL LoOf(H)        == MinDef([i \in DOMAIN H |-> H[i].l])
LOCAL HiC(H)         == MaxDef([i \in DOMAIN H |-> H[i].c])
LOCAL LoC(H)         == MinDef([i \in DOMAIN H |-> H[i].c])
LOCAL Between(x, lo, hi) == LE(lo, x) /\ LE(x, hi)
\* flag f is 1 exactly if x < y
LOCAL FlagIff(f, x, y) == IsNum(x) /\ IsNum(y) /\ ~IsAny(f) =>
                            (Is1(f) /\ TRUE \in LtS(x, y)) \/ (Is0(f) /\ FALSE \in LtS(x, y))
\* width and position lines belong to the bands: o = <<middle, upper, lower, width, position>>
LOCAL Widths(mid, up, lo, wid, pos, c) ==
  /\ Same(Mul(wid, mid), Mul(N(100), Sub(up, lo)))
  /\ Same(Mul(pos, Sub(up, lo)), Sub(c, lo))
\* x has the sign of the change from a to b
LOCAL SignOf(x, a, b) == (Leq(a, b) => LE(N(0), x)) /\ (Leq(b, a) => LE(x, N(0)))

Law(m, p, fn, po, o, H) ==
  LET n == Len(H)
      b == H[n]
      B(name, holds) == IF holds THEN {} ELSE {name}
      rising(F(_)) == \A i \in 2..n : Leq(F(H[i-1]), F(H[i]))
      falling(F(_)) == \A i \in 2..n : ~Leq(F(H[i-1]), F(H[i]))
      close(x) == x.c
  IN
  CASE m \in {"sma", "wma"} -> B("between closes of the window", Between(o[1], LoC(Last(H, p.window)), HiC(Last(H, p.window))))
    [] m \in {"ema", "kama"} -> B("between closes so far", Between(o[1], LoC(H), HiC(H)))
    [] m \in {"macd", "ppo", "pvo"} -> B("never below -100 percent", m # "macd" => LE(N(-100), o[1])) \cup B("histogram is line minus signal", Same(o[3], Sub(o[1], o[2])))
         \cup B("no signal before the line", (m = "macd" /\ IsNA(o[1])) => IsNA(o[2]))
         \cup (IF p.window_fast = p.window_slow THEN B("equal windows give 0", Same(o[1], N(0))) ELSE {})
         \cup (IF m # "pvo" /\ rising(close) /\ p.window_fast < p.window_slow
               THEN B("not negative while prices only rise", LE(N(0), o[1])) ELSE {})
         \cup (IF m # "pvo" /\ falling(close) /\ p.window_fast < p.window_slow
               THEN B("not positive while prices only fall", LE(o[1], N(0))) ELSE {})
    [] m = "trix" -> B("constant prices give 0", (\A i \in 1..n : SameNum(H[i].c, b.c)) => Same(o[1], N(0)))
         \cup B("not negative while prices only rise", rising(close) => LE(N(0), o[1]))
         \cup B("not positive while prices only fall", falling(close) => LE(o[1], N(0)))
    [] m = "rsi" -> B("0..100", In(o[1], 0, 100))
         \cup B("only rises give 100", rising(close) => Same(o[1], N(100)))
         \cup B("only falls give 0", (n > 1 /\ falling(close)) => Same(o[1], N(0)))
    [] m = "stochrsi" -> B("0..1", \A k \in 1..3 : In(o[k], 0, 1))
    [] m = "tsi" -> B("-100..100", In(o[1], -100, 100))
         \cup B("only rises give 100", rising(close) => Same(o[1], N(100)))
         \cup B("only falls give -100", falling(close) => Same(o[1], N(-100)))
    [] m = "uo" -> B("0..100", In(o[1], 0, 100))
         \cup (IF n <= p.window1 \/ n <= p.window2 \/ n <= p.window3 THEN {} ELSE
               B("100 if every bar closes at its top", (\A i \in 2..n : SameNum(H[i].c, Max(H[i].h, H[i-1].c))) => Same(o[1], N(100)))
               \cup B("0 if every bar closes at its bottom", (\A i \in 2..n : SameNum(H[i].c, Min(H[i].l, H[i-1].c))) => Same(o[1], N(0))))
    [] m = "stoch" -> B("0..100", In(o[1], 0, 100) /\ In(o[2], 0, 100))
         \cup B("100 at the top of the window", SameNum(b.c, HiOf(Last(H, p.window))) => Same(o[1], N(100)))
         \cup B("0 at the bottom of the window", SameNum(b.c, LoOf(Last(H, p.window))) => Same(o[1], N(0)))
    [] m = "wr" -> B("-100..0", In(o[1], -100, 0))
         \cup B("stoch - 100",
                LET W == Last(H, p.lbp) IN IF IsNum(o[1])
                THEN Same(o[1], Sub(Mul(N(100), Div(Sub(b.c, LoOf(W)), Sub(HiOf(W), LoOf(W)))), N(100))) ELSE TRUE)
    [] m = "ao" -> LET mid(x) == Add(x.h, x.l) IN
         (IF p.window1 = p.window2 THEN B("equal windows give 0", Same(o[1], N(0))) ELSE {})
         \cup (IF p.window1 < p.window2
               THEN B("not negative while middles only rise", rising(mid) => LE(N(0), o[1]))
                    \cup B("not positive while middles only fall", falling(mid) => LE(o[1], N(0))) ELSE {})
 [] m = "roc" -> B("no loss above 100 percent", LE(N(-100), o[1])) \cup B("sign of the change", IsNum(o[1]) /\ n > p.window => SignOf(o[1], H[n - p.window].c, b.c))
    [] m = "stc" -> B("0..100", In(o[1], 0, 100))
    [] m = "aroon" -> B("0..100", In(o[1], 0, 100) /\ In(o[2], 0, 100))
         \cup B("indicator is up minus down", Same(o[3], Sub(o[1], o[2])) /\ Both(o[1], o[3]))
         \cup B("new strict high gives 100", (n > 1 /\ ~Leq(b.h, HiOf(Last(SubSeq(H, 1, n - 1), p.window)))) => Same(o[1], N(100)))
         \cup B("new strict low gives 100", (n > 1 /\ ~Leq(LoOf(Last(SubSeq(H, 1, n - 1), p.window)), b.l)) => Same(o[2], N(100)))
         \cup B("100 only at an extreme of the window", n > p.window =>
                /\ (IsNum(o[1]) /\ ~SameNum(b.h, HiOf(Last(H, p.window + 1))) => ~Same(o[1], N(100)))
                /\ (IsNum(o[2]) /\ ~SameNum(b.l, LoOf(Last(H, p.window + 1))) => ~Same(o[2], N(100))))
    [] m = "cci" -> B("sign of the distance to the mean",
         IsNum(o[1]) => LET W == Last(H, p.window)
                            a == Div(SumDef([i \in DOMAIN W |-> Sum3(W[i])]), N(Len(W)))
                        IN  (Below(a, Sum3(b)) => LE(N(0), o[1])) /\ (Below(Sum3(b), a) => LE(o[1], N(0))))
    [] m = "kst" -> B("difference is line minus signal", Same(o[3], Sub(o[1], o[2])))
         \cup B("not negative while prices only rise", rising(close) => LE(N(0), o[1]) /\ LE(N(0), o[2]))
         \cup B("not positive while prices only fall", falling(close) => LE(o[1], N(0)) /\ LE(o[2], N(0)))
    [] m = "dpo" -> {}
    [] m = "mass" -> B("not negative", IsNum(o[1]) => LE(N(0), o[1]))
         \cup B("one per row where the range is the same", n >= p.window_slow /\ ~Leq(b.h, b.l) /\ (\A i \in 1..n : SameNum(Sub(H[i].h, H[i].l), Sub(b.h, b.l)))
                 => Same(o[1], N(p.window_slow)))
    [] m = "vortex" -> B("not negative", \A k \in 1..2 : IsNum(o[k]) => LE(N(0), o[k]))
         \cup B("difference", Same(o[3], Sub(o[1], o[2])))
    [] m = "atr" -> B("not negative", LE(N(0), o[1]))
         \cup B("0 until the window is full", n < p.window => Same(o[1], N(0)))
         \cup B("between the smallest and largest true range",
                n >= p.window =>
                LET R == [i \in 1..n |-> TrueRange(H[i], IF i = 1 THEN NA ELSE H[i-1].c)]
                IN  Between(o[1], MinDef(R), MaxDef(R)))
    [] m = "bb" -> B("lower <= middle <= upper", LE(o[3], o[1]) /\ LE(o[1], o[2]))
         \cup B("middle half way", Same(Mul(N(2), o[1]), Add(o[2], o[3])))
         \cup B("middle between closes", Between(o[1], LoC(Last(H, p.window)), HiC(Last(H, p.window))))
         \cup B("bands appear together", Both(o[1], o[2]) /\ Both(o[1], o[3]))
         \cup B("width and position fit the bands", Widths(o[1], o[2], o[3], o[4], o[5], b.c))
         \cup B("flag iff above upper band", FlagIff(o[6], o[2], b.c))
         \cup B("flag iff below lower band", FlagIff(o[7], b.c, o[3]))
         \cup B("at most one flag", ~(Is1(o[6]) /\ Is1(o[7])))
    [] m = "kc" -> B("lower <= middle <= upper", LE(o[3], o[1]) /\ LE(o[1], o[2]))
         \cup B("bands appear together", Both(o[1], o[2]) /\ Both(o[1], o[3]))
         \cup B("width and position fit the bands", Widths(o[1], o[2], o[3], o[4], o[5], b.c))
         \cup B("flag iff above upper band", FlagIff(o[6], o[2], b.c))
         \cup B("flag iff below lower band", FlagIff(o[7], b.c, o[3]))
         \cup B("at most one flag", ~(Is1(o[6]) /\ Is1(o[7])))
    [] m = "dc" -> B("lower <= middle <= upper", LE(o[2], o[3]) /\ LE(o[3], o[1]))
         \cup B("price inside", p.offset = 0 => Between(b.c, o[2], o[1]) /\ Between(b.h, o[2], o[1]) /\ Between(b.l, o[2], o[1]))
         \cup B("percentage 0..1", p.offset = 0 => In(o[5], 0, 1))
         \cup B("middle half way", Same(Mul(N(2), o[3]), Add(o[1], o[2])))
         \cup B("bands appear together", Both(o[1], o[2]) /\ Both(o[1], o[3]))
         \cup B("bands are prices of the history", IsNum(o[1]) => /\ \E i \in 1..n : Same(o[1], H[i].h)
                                                                  /\ \E i \in 1..n : Same(o[2], H[i].l))
    [] m = "ichimoku" -> B("inside the range so far", \A k \in 1..4 : Between(o[k], LoOf(H), HiOf(H)))
         \cup (IF p.visual THEN {} ELSE B("span A is the mean of the two lines", Same(o[3], Mul(Half, Add(o[1], o[2])))))
    [] m = "ui" -> B("0..100", In(o[1], 0, 100))
         \cup B("0 without drawdown", rising(close) => Same(o[1], N(0)))
    [] m = "adx" -> B("0..100", \A k \in 1..3 : ~IsNA(o[k]) /\ In(o[k], 0, 100))
         \cup B("+DI and -DI add up to at most 100", LE(Add(o[2], o[3]), N(100)))
         \cup B("no -DI while lows do not fall", (\A i \in 2..n : Leq(H[i-1].l, H[i].l)) => Same(o[3], N(0)))
         \cup B("no +DI while highs do not rise", (\A i \in 2..n : Leq(H[i].h, H[i-1].h)) => Same(o[2], N(0)))
    [] m = "psar" -> B("no stop side on the first two bars", n < 3 => IsNA(o[2]) /\ IsNA(o[3]))
         \cup B("exactly one side", n >= 3 => (IsNum(o[2]) # IsNum(o[3])))
         \cup B("side shows the stop", n >= 3 => Same(o[2], o[1]) /\ Same(o[3], o[1]))
         \cup B("inside the range so far", Between(o[1], LoOf(H), HiOf(H)))
         \cup B("long stop not above the bar", IsNum(o[2]) => LE(o[2], b.l) \/ Is1(o[4]))
         \cup B("short stop not below the bar", IsNum(o[3]) => LE(b.h, o[3]) \/ Is1(o[5]))
         \cup B("long stop not above the low two bars ago", (n >= 3 /\ IsNum(o[2]) /\ Is0(o[4])) => LE(o[2], H[n-2].l))
         \cup B("short stop not below the high two bars ago", (n >= 3 /\ IsNum(o[3]) /\ Is0(o[5])) => LE(H[n-2].h, o[3]))
         \cup (IF n < 3 THEN {} ELSE
               B("flag iff the side starts", (Is1(o[4]) <=> IsNum(o[2]) /\ ~IsNum(po[2]))
                                          /\ (Is1(o[5]) <=> IsNum(o[3]) /\ ~IsNum(po[3]))))
         \cup (IF n < 4 THEN {} ELSE
               B("a trend does not give back its stop",
                 (IsNum(o[2]) /\ IsNum(po[2]) => LE(po[2], o[1]) \/ LE(H[n-2].l, po[2]) \/ LE(H[n-1].l, po[2]))
                 /\ (IsNum(o[3]) /\ IsNum(po[3]) => LE(o[1], po[3]) \/ LE(po[3], H[n-2].h) \/ LE(po[3], H[n-1].h))))
    [] m = "adi" -> IF n = 1 THEN {} ELSE B("moves by at most the volume",
                       LE(Abs(Sub(o[1], po[1])), b.v))
         \cup B("rises with a close at the high", (SameNum(b.c, b.h) /\ ~Leq(b.h, b.l)) => Same(Sub(o[1], po[1]), b.v))
         \cup B("falls with a close at the low", (SameNum(b.c, b.l) /\ ~Leq(b.h, b.l)) => Same(Sub(po[1], o[1]), b.v))
    [] m = "obv" -> IF n = 1 THEN B("starts at the volume", Same(o[1], b.v)) ELSE
         LET d == Sub(o[1], po[1]) q == H[n-1].c
         IN  B("moves with the price", Same(d, IF ~Leq(b.c, q) THEN b.v ELSE IF ~Leq(q, b.c) THEN Neg(b.v) ELSE N(0)))
    [] m = "nvi" -> IF n = 1 THEN B("starts at 1000", Same(o[1], N(1000))) ELSE
         B("moves only on falling volume", Leq(H[n-1].v, b.v) => Same(o[1], po[1]))
         \cup B("positive", LE(N(0), o[1]))
         \cup B("moves like the price", ~Leq(H[n-1].v, b.v) => Same(Mul(o[1], H[n-1].c), Mul(po[1], b.c)))
    [] m = "vpt" -> IF n < 3 \/ p.smoothing_factor > 0 THEN {} ELSE
         B("moves by volume times relative change", Same(Sub(o[1], po[1]), Mul(b.v, Div(Sub(b.c, H[n-1].c), H[n-1].c))))
    [] m = "cmf" -> B("-1..1", In(o[1], -1, 1))
         \cup LET W == Last(H, p.window)
              wide(x) == ~Leq(x.h, x.l)
          IN  B("1 if every bar closes at its high", (\A i \in DOMAIN W : wide(W[i]) /\ SameNum(W[i].c, W[i].h)) => Same(o[1], N(1)))
              \cup B("-1 if every bar closes at its low", (\A i \in DOMAIN W : wide(W[i]) /\ SameNum(W[i].c, W[i].l)) => Same(o[1], N(-1)))
    [] m = "mfi" -> B("0..100", In(o[1], 0, 100))
         \cup LET W == Last(H, p.window + 1)          \* the first bar of the history moves nothing
              flow == \E i \in 2..Len(W) : ~Leq(W[i].v, N(0)) /\ ~SameNum(Sum3(W[i-1]), Sum3(W[i]))
          IN  B("100 if prices only rise", (flow /\ \A i \in 2..Len(W) : Leq(Sum3(W[i-1]), Sum3(W[i]))) => Same(o[1], N(100)))
              \cup B("0 if prices only fall", (flow /\ \A i \in 2..Len(W) : Leq(Sum3(W[i]), Sum3(W[i-1]))) => Same(o[1], N(0)))
    [] m = "vwap" -> LET W == Last(H, p.window) IN B("inside the window's range", Between(o[1], LoOf(W), HiOf(W)))
    [] m = "fi" -> B("inside its inputs", n > 1 =>
         LET R == [i \in 1..(n - 1) |-> Mul(Sub(H[i+1].c, H[i].c), H[i+1].v)] IN Between(o[1], MinDef(R), MaxDef(R)))
    [] m = "eom" -> B("sign of the move of the middle", n > 1 =>
         LET a == Add(H[n-1].h, H[n-1].l) z == Add(b.h, b.l) IN SignOf(o[1], a, z))
    [] m = "dr" -> B("no loss above 100 percent", LE(N(-100), o[1])) \cup B("sign of the change", n > 1 => SignOf(o[1], H[n-1].c, b.c))
    [] m = "dlr" -> B("sign of the change", n > 1 => SignOf(o[1], H[n-1].c, b.c))
         \cup B("at most the plain return", n > 1 => LE(o[1], Mul(N(100), Div(Sub(b.c, H[n-1].c), H[n-1].c))))
    [] m = "cr" -> B("no loss above 100 percent", LE(N(-100), o[1])) \cup B("0 at the start", n = 1 => Same(o[1], N(0)))
         \cup B("compounds the daily returns", n > 1 =>
                Same(Add(N(1), Div(o[1], N(100))),
                     Mul(Add(N(1), Div(po[1], N(100))), Div(b.c, H[n-1].c))))
    [] OTHER -> {}

(***************************************************************************)
(* Bars over which an output that forgets older bars is computed, once its *)
(* window is full; 0 for lines with unbounded memory.                      *)
(***************************************************************************)
LOCAL Mx(a, b) == IF a > b THEN a ELSE b
Memory(m, p, k) ==
  CASE m \in {"sma", "wma", "cci", "cmf", "vwap"} -> p.window
    [] m = "mfi"    -> p.window + 1
    [] m = "bb"     -> p.window
    [] m = "kc"     -> IF p.original_version THEN p.window ELSE 0
    [] m = "dc"     -> p.window + p.offset
    [] m = "wr"     -> p.lbp
    [] m = "stoch"  -> p.window + (IF k = 2 THEN p.smooth_window - 1 ELSE 0)
    [] m = "ao"     -> Mx(p.window1, p.window2)
    [] m = "roc"    -> p.window + 1
    [] m = "aroon"  -> p.window + 1
    [] m = "dpo"    -> Mx(p.window, (p.window \div 2) + 2)
    [] m = "ui"     -> 2 * p.window - 1
    [] m = "uo"     -> 1 + Mx(p.window1, Mx(p.window2, p.window3))
    [] m = "vortex" -> p.window + 1
    [] m = "eom"    -> IF k = 1 THEN 2 ELSE p.window + 1
    [] m \in {"dr", "dlr"} -> 2
    [] m = "kst"    -> Mx(Mx(p.roc1 + p.window1, p.roc2 + p.window2), Mx(p.roc3 + p.window3, p.roc4 + p.window4))
                       + (IF k = 1 THEN 0 ELSE p.nsig - 1)
    [] m = "ichimoku" -> (CASE k = 1 -> p.window1 [] k = 2 -> p.window2
                            [] k = 3 -> Mx(p.window1, p.window2) + (IF p.visual THEN p.window2 ELSE 0)
                            [] k = 4 -> p.window3 + (IF p.visual THEN p.window2 ELSE 0))
    [] OTHER -> 0

(***************************************************************************)
(* Lines with unbounded memory that fades: after so many bars the weight   *)
(* of what came before is below rounding (e^-40).                          *)
(***************************************************************************)
Fading == {"ema", "macd", "ppo", "pvo", "trix", "rsi", "stochrsi", "tsi", "atr", "adx", "kc", "mass", "fi", "stc"}
Fade(m, p, k) ==
  CASE m \in {"ema", "rsi", "atr", "fi"} -> 40 * p.window
    [] m \in {"macd", "ppo", "pvo"} -> 40 * (p.window_fast + p.window_slow + p.window_sign)
    [] m = "trix" -> 120 * p.window
    [] m = "stochrsi" -> 42 * p.window + p.smooth1 + p.smooth2
    [] m = "tsi"  -> 40 * (p.window_fast + p.window_slow)
    [] m = "adx"  -> 80 * p.window
    [] m = "kc"   -> IF p.original_version THEN p.window ELSE 40 * Mx(p.window, p.window_atr)
    [] m = "mass" -> 80 * p.window_fast + p.window_slow
    [] m = "stc"  -> 40 * (p.window_fast + p.window_slow + p.smooth1 + p.smooth2) + 2 * p.cycle
    [] OTHER -> 0
\* rows after which nothing older shows; 0: never
Forgets(m, p, k) == LET a == Memory(m, p, k) IN IF a > 0 THEN a ELSE Fade(m, p, k)

(***************************************************************************)
(* Prices turned and moved: on bars g * bar + d (g = 1, or g = -1: upside  *)
(* down, high and low change places), line k is a * (line j of the plain   *)
(* bars) + r.  <<j, a, r>>, or <<>> where nothing is claimed.  H: the bars *)
(* so far; not all lines are symmetric on rows where they take a           *)
(* conventional value (RSI of prices that never moved).                    *)
(***************************************************************************)
LOCAL Level(k, g, d) == <<k, N(g), d>>
LOCAL Odd(k, g)  == <<k, N(g), N(0)>>
LOCAL Even(k)    == <<k, N(1), N(0)>>
LOCAL Compl(k, g, x) == IF g = 1 THEN Even(k) ELSE <<k, N(-1), N(x)>>
LOCAL Swap(k, j, g) == IF g = 1 THEN k ELSE j
LOCAL Moved(H) == \E i \in 2..Len(H) : ~SameNum(H[i].c, H[1].c)
Turned(m, p, k, g, d, H) ==
  CASE m \in {"sma", "ema", "wma", "kama", "vwap", "ichimoku"} -> Level(k, g, d)
    [] m \in {"macd", "ao", "dpo", "cmf", "adi", "fi", "eom", "tsi", "cci"} -> Odd(k, g)
    [] m \in {"atr", "mass", "pvo"} -> Even(k)
    [] m = "obv" -> IF g = 1 THEN Even(1) ELSE <<1, N(-1), Mul(N(2), H[1].v)>>
    [] m = "rsi" -> IF g = 1 \/ (p.window > 1 /\ Moved(H)) THEN Compl(1, g, 100) ELSE <<>>
    [] m = "stochrsi" -> IF g = 1 \/ (p.window > 1 /\ Len(H) > p.window + p.smooth1 + p.smooth2 /\ ~SameNum(H[1].c, H[2].c)) THEN Compl(k, g, 1) ELSE <<>>
    [] m = "uo" -> IF g = 1 \/ Len(H) > Mx(p.window1, Mx(p.window2, p.window3)) THEN Compl(k, g, 100) ELSE <<>>
    [] m = "stoch" -> Compl(k, g, 100)
    [] m = "wr" -> Compl(1, g, -100)
    [] m = "aroon" -> IF k = 3 THEN Odd(3, g) ELSE Even(Swap(k, 3 - k, g))
    [] m = "vortex" -> IF k = 3 THEN Odd(3, g) ELSE Even(Swap(k, 3 - k, g))
    [] m = "adx" -> IF k = 1 THEN Even(1) ELSE Even(Swap(k, 5 - k, g))
    [] m \in {"bb", "kc"} -> (CASE k = 1 -> Level(1, g, d)
                                [] k \in {2, 3} -> Level(Swap(k, 5 - k, g), g, d)
                                [] k = 5 -> Compl(5, g, 1)
                                [] k \in {6, 7} -> Even(Swap(k, 13 - k, g))
                                [] OTHER -> <<>>)
    [] m = "dc" -> (CASE k \in {1, 2} -> Level(Swap(k, 3 - k, g), g, d)
                      [] k = 3 -> Level(3, g, d)
                      [] k = 5 -> Compl(5, g, 1)
                      [] OTHER -> <<>>)
    [] m = "psar" -> IF g = -1 THEN <<>> ELSE IF k <= 3 THEN Level(k, 1, d) ELSE Even(k)
    [] m = "stc" -> IF g = 1 THEN Even(1) ELSE <<>>
    [] OTHER -> <<>>
\* machines with a claim
Turning == {"sma", "ema", "wma", "kama", "vwap", "ichimoku", "macd", "ao", "dpo", "cmf", "adi", "fi", "eom", "tsi", "cci", "atr",
            "mass", "pvo", "obv", "rsi", "stochrsi", "uo", "stoch", "wr", "aroon", "vortex", "adx", "bb", "kc", "dc", "psar", "stc"}
==========================================================================
