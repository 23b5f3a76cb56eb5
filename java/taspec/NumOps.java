package taspec;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueVec;

/** Module overrides for Num.tla; each has a pure TLA+ definition there. */
public final class NumOps {
    private static NumVal v(Value x) {
        if (x instanceof NumVal) return (NumVal) x;
        throw new RuntimeException("expected a Num, got " + x);
    }

    private static int i(Value x) { return ((IntValue) x).val; }
    private static String s(Value x) { return ((StringValue) x).getVal().toString(); }

    private static Value[] seq(Value x) {
        TupleValue t = (TupleValue) x.toTuple();
        if (t == null) throw new RuntimeException("expected a sequence, got " + x);
        return t.elems;
    }

    private static final SetEnumValue TRUE_ = set(BoolValue.ValTrue), FALSE_ = set(BoolValue.ValFalse),
            BOTH = set(BoolValue.ValFalse, BoolValue.ValTrue);

    private static SetEnumValue set(Value... x) {
        SetEnumValue r = new SetEnumValue(x, false);
        r.normalize();
        return r;
    }

    private static SetEnumValue bs(boolean b) { return b ? TRUE_ : FALSE_; }
    private static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "NA", module = "Num", warn = false)
    public static Value na() { return NumVal.NA; }

    @TLAPlusOperator(identifier = "ANY", module = "Num", warn = false)
    public static Value any() { return NumVal.ANY; }

    @TLAPlusOperator(identifier = "N", module = "Num", warn = false)
    public static Value n(final Value a) { return NumVal.of(i(a)); }

    @TLAPlusOperator(identifier = "Frac", module = "Num", warn = false)
    public static Value frac(final Value a, final Value b) {
        return NumVal.rounded(BigInteger.valueOf(i(a)), BigInteger.valueOf(i(b)), 0);
    }

    @TLAPlusOperator(identifier = "Parse", module = "Num", warn = false)
    public static Value parse(final Value a) {
        String t = s(a);
        if (t.equals("nan") || t.equals("inf") || t.equals("-inf")) return NumVal.NA;
        return NumVal.ofDouble(Double.parseDouble(t));
    }

    @TLAPlusOperator(identifier = "ParseSeq", module = "Num", warn = false)
    public static Value parseSeq(final Value a) {
        Value[] x = seq(a);
        Value[] r = new Value[x.length];
        for (int k = 0; k < x.length; k++) r[k] = parse(x[k]);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "Kind", module = "Num", warn = false)
    public static Value kind(final Value a) {
        int k = v(a).kind;
        return new StringValue(k == NumVal.NUM ? "num" : k == NumVal.NA_K ? "na" : "any");
    }

    @TLAPlusOperator(identifier = "IsNum", module = "Num", warn = false)
    public static Value isNum(final Value a) { return b(v(a).kind == NumVal.NUM); }

    @TLAPlusOperator(identifier = "IsNA", module = "Num", warn = false)
    public static Value isNA(final Value a) { return b(v(a).kind == NumVal.NA_K); }

    @TLAPlusOperator(identifier = "IsAny", module = "Num", warn = false)
    public static Value isAny(final Value a) { return b(v(a).kind == NumVal.ANY_K); }

    @TLAPlusOperator(identifier = "Add", module = "Num", warn = false)
    public static Value add(final Value a, final Value b) { return NumVal.add(v(a), v(b), false); }

    @TLAPlusOperator(identifier = "Sub", module = "Num", warn = false)
    public static Value sub(final Value a, final Value b) { return NumVal.add(v(a), v(b), true); }

    @TLAPlusOperator(identifier = "Mul", module = "Num", warn = false)
    public static Value mul(final Value a, final Value b) { return NumVal.mul(v(a), v(b)); }

    @TLAPlusOperator(identifier = "Div", module = "Num", warn = false)
    public static Value div(final Value a, final Value b) { return NumVal.div(v(a), v(b)); }

    @TLAPlusOperator(identifier = "Neg", module = "Num", warn = false)
    public static Value neg(final Value a) { return v(a).neg(); }

    @TLAPlusOperator(identifier = "Abs", module = "Num", warn = false)
    public static Value abs(final Value a) { return v(a).absv(); }

    @TLAPlusOperator(identifier = "Sqrt", module = "Num", warn = false)
    public static Value sqrt(final Value a) { return NumVal.sqrt(v(a)); }

    @TLAPlusOperator(identifier = "Ln", module = "Num", warn = false)
    public static Value ln(final Value a) { return NumVal.ln(v(a)); }

    @TLAPlusOperator(identifier = "Max", module = "Num", warn = false)
    public static Value max(final Value a, final Value b) { return NumVal.maxmin(v(a), v(b), true); }

    @TLAPlusOperator(identifier = "Min", module = "Num", warn = false)
    public static Value min(final Value a, final Value b) { return NumVal.maxmin(v(a), v(b), false); }

    @TLAPlusOperator(identifier = "LtS", module = "Num", warn = false)
    public static Value ltS(final Value a, final Value b) {
        NumVal x = v(a), y = v(b);
        if (x.kind == NumVal.NA_K || y.kind == NumVal.NA_K) return FALSE_;
        if (x.kind == NumVal.ANY_K || y.kind == NumVal.ANY_K || NumVal.ambiguous(x, y)) return BOTH;
        return bs(x.cmpV(y) < 0);
    }

    @TLAPlusOperator(identifier = "EqS", module = "Num", warn = false)
    public static Value eqS(final Value a, final Value b) {
        NumVal x = v(a), y = v(b);
        if (x.kind == NumVal.NA_K || y.kind == NumVal.NA_K) return FALSE_;
        if (x.kind == NumVal.ANY_K || y.kind == NumVal.ANY_K || NumVal.ambiguous(x, y)) return BOTH;
        return bs(x.cmpV(y) == 0);
    }

    /** Exact comparison of the rational parts (used by the design-level laws). */
    @TLAPlusOperator(identifier = "Leq", module = "Num", warn = false)
    public static Value leq(final Value a, final Value b) {
        NumVal x = v(a), y = v(b);
        if (!x.isNum() || !y.isNum()) return BoolValue.ValFalse;
        return b(x.cmpV(y) <= 0);
    }

    @TLAPlusOperator(identifier = "SameNum", module = "Num", warn = false)
    public static Value same(final Value a, final Value b) {
        NumVal x = v(a), y = v(b);
        return b(x.kind == y.kind && (x.kind != NumVal.NUM || x.cmpV(y) == 0));
    }

    @TLAPlusOperator(identifier = "CountDef", module = "Num", warn = false)
    public static Value count(final Value a) {
        int c = 0;
        for (Value x : seq(a)) if (v(x).kind != NumVal.NA_K) c++;
        return IntValue.gen(c);
    }

    @TLAPlusOperator(identifier = "HasAny", module = "Num", warn = false)
    public static Value hasAny(final Value a) {
        for (Value x : seq(a)) if (v(x).kind == NumVal.ANY_K) return BoolValue.ValTrue;
        return BoolValue.ValFalse;
    }

    private static NumVal sum0(Value[] xs) {
        BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
        double e = 0, l1 = 0;
        boolean grid = true;
        int maxden = 0;
        for (Value y : xs) {
            NumVal x = v(y);
            if (x.kind == NumVal.NA_K) continue;
            if (x.kind == NumVal.ANY_K) return NumVal.ANY;
            if (x.d.equals(d)) n = n.add(x.n);
            else { n = n.multiply(x.d).add(x.n.multiply(d)); d = d.multiply(x.d);
                if (d.bitLength() > 2 * NumVal.CAP) { NumVal t = NumVal.make(n, d, 0); n = t.n; d = t.d; } }
            e += x.e;
            l1 += x.abs();
            if (x.e != 0 || !x.dyadic()) grid = false; else maxden = Math.max(maxden, x.d.bitLength() - 1);
        }
        if (grid && Math.scalb(l1, maxden) < 0x1p52) return NumVal.make(n, d, 0);
        return NumVal.make(n, d, e + NumVal.U * xs.length * l1);
    }

    /** Sum of the defined members. */
    @TLAPlusOperator(identifier = "SumDef", module = "Num", warn = false)
    public static Value sumDef(final Value a) { return sum0(seq(a)); }

    /** x plus the noise a running add/remove window sum may carry from a history whose L1 norm is l. */
    @TLAPlusOperator(identifier = "Noisy", module = "Num", warn = false)
    public static Value noisy(final Value a, final Value l) {
        NumVal x = v(a), y = v(l);
        if (!x.isNum() || !y.isNum()) return x;
        if (y.e == 0 && y.dyadic() && Math.scalb(y.abs(), y.d.bitLength() - 1) < 0x1p52) return x;
        return x.withErr(NumVal.U * y.abs() + y.e * 1e-3);
    }

    @TLAPlusOperator(identifier = "MaxDef", module = "Num", warn = false)
    public static Value maxDef(final Value a) { return ext(seq(a), true); }

    @TLAPlusOperator(identifier = "MinDef", module = "Num", warn = false)
    public static Value minDef(final Value a) { return ext(seq(a), false); }

    private static NumVal ext(Value[] xs, boolean max) {
        NumVal r = null;
        for (Value y : xs) {
            NumVal x = v(y);
            if (x.kind == NumVal.NA_K) continue;
            if (x.kind == NumVal.ANY_K) return NumVal.ANY;
            r = r == null ? x : NumVal.maxmin(r, x, max);
        }
        return r == null ? NumVal.NA : r;
    }

    /** Tolerance multiplier on the error bound, and relative floors. */
    static final double K = 1024, REL = 1e-10, COL = 1e-12;

    /** Does the double printed as str implement model value x?  scale: largest magnitude in the same output column. */
    @TLAPlusOperator(identifier = "Matches", module = "Num", warn = false)
    public static Value matches(final Value str, final Value x, final Value scale) {
        return b(match(s(str), v(x), Double.parseDouble(s(scale))));
    }

    static boolean match(String t, NumVal m, double scale) {
        if (m.kind == NumVal.ANY_K) return true;
        NumVal r = t.equals("nan") || t.equals("inf") || t.equals("-inf") ? NumVal.NA
                : NumVal.ofDouble(Double.parseDouble(t));
        if (m.kind == NumVal.NA_K || r.kind == NumVal.NA_K) return m.kind == r.kind;
        double df = NumVal.make(m.n.multiply(r.d).subtract(r.n.multiply(m.d)), m.d.multiply(r.d), 0).abs();
        return df <= K * m.e + REL * m.abs() + COL * scale;
    }

    /** The observed double as a number, as uncertain as match() lets it be (comparisons allow AMB times the bound). */
    @TLAPlusOperator(identifier = "Observed", module = "Num", warn = false)
    public static Value observed(final Value str, final Value x, final Value scale) {
        NumVal m = v(x), r = (NumVal) parse(str);
        if (m.kind == NumVal.ANY_K) return m;
        if (r.kind != NumVal.NUM) return r;
        return r.withErr((K * m.e + REL * r.abs() + COL * Double.parseDouble(s(scale))) / NumVal.AMB);
    }

    /** The observed double lies inside the error bound of the model value (to first order). */
    @TLAPlusOperator(identifier = "WithinBound", module = "Num", warn = false)
    public static Value within(final Value str, final Value x) {
        NumVal m = v(x), r = NumVal.ofDouble(Double.parseDouble(s(str)));
        if (m.kind == NumVal.ANY_K) return BoolValue.ValTrue;
        if (m.kind == NumVal.NA_K) return BoolValue.ValFalse;
        double df = NumVal.make(m.n.multiply(r.d).subtract(r.n.multiply(m.d)), m.d.multiply(r.d), 0).abs();
        return b(df <= 1.001 * m.e);
    }

    /** Two implementation values agree (both undefined, or equal up to the relative floors). */
    @TLAPlusOperator(identifier = "Agree", module = "Num", warn = false)
    public static Value agree(final Value p, final Value q, final Value scale) {
        return b(agree0(s(p), s(q), Double.parseDouble(s(scale))));
    }

    static boolean agree0(String p, String q, double scale) {
        if (p.equals(q)) return true;
        double x = dbl(p), y = dbl(q);
        boolean fx = !Double.isNaN(x) && !Double.isInfinite(x), fy = !Double.isNaN(y) && !Double.isInfinite(y);
        if (!fx || !fy) return fx == fy;
        return Math.abs(x - y) <= 1e-9 * Math.max(Math.abs(x), Math.abs(y)) + 1e-11 * scale;
    }

    static double dbl(String t) {
        return t.equals("nan") ? Double.NaN : t.equals("inf") ? Double.POSITIVE_INFINITY
                : t.equals("-inf") ? Double.NEGATIVE_INFINITY : Double.parseDouble(t);
    }

    /** a <= b for implementation values, with slack 1e-9 relative to scale; undefined satisfies anything. */
    @TLAPlusOperator(identifier = "RLeq", module = "Num", warn = false)
    public static Value rleq(final Value p, final Value q, final Value scale) {
        double x = dbl(s(p)), y = dbl(s(q)), sc = Double.parseDouble(s(scale));
        if (Double.isNaN(x) || Double.isNaN(y)) return BoolValue.ValTrue;
        return b(x <= y + 1e-9 * Math.max(sc, Math.max(Math.abs(x), Math.abs(y))));
    }

    @TLAPlusOperator(identifier = "Finite", module = "Num", warn = false)
    public static Value finite(final Value p) {
        double x = dbl(s(p));
        return b(!Double.isNaN(x) && !Double.isInfinite(x));
    }

    /** Largest magnitude among the finite values of a line. */
    @TLAPlusOperator(identifier = "MaxAbs", module = "Num", warn = false)
    public static Value maxAbs(final Value line) {
        double m = 0;
        for (Value x : seq(line)) {
            String t = s(x);
            if (t.equals("raised") || t.equals("absent")) continue;
            double d = Math.abs(dbl(t));
            if (!Double.isNaN(d) && !Double.isInfinite(d) && d > m) m = d;
        }
        return new StringValue(Double.toString(m));
    }

    /** The double printed as p, times 2^k. */
    @TLAPlusOperator(identifier = "Times2", module = "Num", warn = false)
    public static Value times2(final Value p, final Value k) {
        String t = s(p);
        if (t.equals("nan") || t.equals("inf") || t.equals("-inf")) return p;
        return new StringValue(Double.toString(Math.scalb(Double.parseDouble(t), i(k))));
    }

    @TLAPlusOperator(identifier = "Show", module = "Num", warn = false)
    public static Value show(final Value a) { return new StringValue(v(a).show()); }
}
