package taspec;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import tlc2.tool.TLCState;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * TLC value behind module Num.tla: an exact rational n/d together with a running
 * bound e on the rounding error an IEEE-754 double evaluation of the same
 * expression may have accumulated.  Two further kinds: NA (no value: IEEE
 * NaN/inf in the implementation) and ANY (value decided by rounding noise: the
 * exact denominator is indistinguishable from zero, so nothing is claimed).
 */
public final class NumVal extends Value {
    private static final long serialVersionUID = 1L;
    static final int NUM = 0, NA_K = 1, ANY_K = 2;
    /** -Dtaspec.exact=true: no rounding bounds but on irrational values, the pure meaning of Num.tla (design-level checks). */
    static final boolean EXACT = Boolean.getBoolean("taspec.exact");
    static final double U = EXACT ? 0 : 0x1p-53;
    static final int CAP = 640, KEEP = 400;
    static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE;
    static final NumVal NA = new NumVal(NA_K), ANY = new NumVal(ANY_K);

    final int kind;
    final BigInteger n, d;
    final double e;

    private NumVal(int k) { kind = k; n = ZERO; d = ONE; e = 0; }

    private NumVal(BigInteger n, BigInteger d, double e) { kind = NUM; this.n = n; this.d = d; this.e = e; }

    /** Reduce n/d (d != 0) and bound its size. */
    static NumVal make(BigInteger n, BigInteger d, double e) {
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return new NumVal(ZERO, ONE, e);
        if (Double.isNaN(e) || Double.isInfinite(e)) return ANY;
        int t = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        if (t > 0) { n = n.shiftRight(t); d = d.shiftRight(t); }
        if (!d.equals(ONE) && d.bitCount() != 1) {
            BigInteger g = n.gcd(d);
            if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        if (d.bitLength() > CAP) {
            int s = KEEP - (n.bitLength() - d.bitLength());
            if (s > 0) {
                n = n.shiftLeft(s).divide(d);
                d = ONE.shiftLeft(s);
            } else {
                n = n.divide(d);
                d = ONE;
            }
            if (n.signum() == 0) return new NumVal(ZERO, ONE, e);
            t = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
            if (t > 0) { n = n.shiftRight(t); d = d.shiftRight(t); }
        }
        return new NumVal(n, d, e);
    }

    static NumVal of(long x) { return new NumVal(BigInteger.valueOf(x), ONE, 0); }

    static NumVal ofDouble(double x) {
        if (Double.isNaN(x) || Double.isInfinite(x)) return NA;
        if (x == 0) return of(0);
        int ex = Math.getExponent(x);
        long bits = Double.doubleToLongBits(x) & 0x000fffffffffffffL;
        if (ex < Double.MIN_EXPONENT) ex = Double.MIN_EXPONENT; else bits |= 0x0010000000000000L;
        BigInteger m = BigInteger.valueOf(x < 0 ? -bits : bits);
        int sh = ex - 52;
        return sh >= 0 ? make(m.shiftLeft(sh), ONE, 0) : make(m, ONE.shiftLeft(-sh), 0);
    }

    boolean isNum() { return kind == NUM; }
    boolean dyadic() { return d.bitCount() == 1; }

    /** v is exactly a (normal range) double. */
    boolean representable() {
        if (n.signum() == 0) return true;
        if (!dyadic()) return false;
        BigInteger a = n.abs();
        return a.bitLength() - a.getLowestSetBit() <= 53;
    }

    double dbl() {
        if (n.signum() == 0) return 0;
        int s = 64 - (n.bitLength() - d.bitLength());
        BigInteger q = s >= 0 ? n.shiftLeft(s).divide(d) : n.divide(d.shiftLeft(-s));
        return Math.scalb(q.doubleValue(), -s);
    }

    double abs() { return Math.abs(dbl()); }

    /** Account for one rounding of the result of an operation. */
    static NumVal rounded(BigInteger n, BigInteger d, double e) {
        NumVal r = make(n, d, e);
        if (r.kind != NUM) return r;
        if (e == 0 && r.representable()) return r;
        return new NumVal(r.n, r.d, e + U * r.abs());
    }

    NumVal withErr(double extra) { return kind == NUM ? make(n, d, e + extra) : this; }

    static NumVal add(NumVal a, NumVal b, boolean neg) {
        if (a.kind == NA_K || b.kind == NA_K) return NA;
        if (a.kind == ANY_K || b.kind == ANY_K) return ANY;
        BigInteger bn = neg ? b.n.negate() : b.n;
        BigInteger n, d;
        if (a.d.equals(b.d)) { n = a.n.add(bn); d = a.d; }
        else { n = a.n.multiply(b.d).add(bn.multiply(a.d)); d = a.d.multiply(b.d); }
        return rounded(n, d, a.e + b.e);
    }

    static NumVal mul(NumVal a, NumVal b) {
        if (a.kind == NA_K || b.kind == NA_K) return NA;
        if (a.kind == ANY_K || b.kind == ANY_K) return ANY;
        double e = 0;
        if (a.e != 0 || b.e != 0) e = a.e * b.abs() + b.e * a.abs() + a.e * b.e;
        return rounded(a.n.multiply(b.n), a.d.multiply(b.d), e);
    }

    /** Ambiguity factor: values closer than AMB * error are not told apart. */
    static final double AMB = 64;

    static NumVal div(NumVal a, NumVal b) {
        if (a.kind == NA_K || b.kind == NA_K) return NA;
        if (b.kind == NUM && b.n.signum() == 0 && b.e == 0) return NA;
        if (a.kind == ANY_K || b.kind == ANY_K) return ANY;
        double bd = b.abs();
        if (b.n.signum() == 0 || bd <= AMB * b.e) return ANY;
        double e = 0;
        if (a.e != 0 || b.e != 0) e = (a.e + b.e * a.abs() / bd) / bd * 1.05;
        return rounded(a.n.multiply(b.d), a.d.multiply(b.n), e);
    }

    NumVal neg() { return kind == NUM ? new NumVal(n.negate(), d, e) : this; }
    NumVal absv() { return kind == NUM ? new NumVal(n.abs(), d, e) : this; }

    int cmpV(NumVal b) {
        int sa = n.signum(), sb = b.n.signum();
        if (sa != sb) return Integer.compare(sa, sb);
        if (d.equals(b.d)) return n.compareTo(b.n);
        return n.multiply(b.d).compareTo(b.n.multiply(d));
    }

    /** True when rounding noise could decide how a compares with b. */
    static boolean ambiguous(NumVal a, NumVal b) {
        double e = a.e + b.e;
        if (e == 0) return false;
        if (a.n.equals(b.n) && a.d.equals(b.d)) return true;
        NumVal df = add(a, b, true);
        return df.abs() <= AMB * e;
    }

    static NumVal maxmin(NumVal a, NumVal b, boolean max) {
        if (a.kind == NA_K || b.kind == NA_K) return NA;
        if (a.kind == ANY_K || b.kind == ANY_K) return ANY;
        int c = a.cmpV(b);
        NumVal r = (c >= 0) == max ? a : b;
        if (a.e == 0 && b.e == 0) return r;
        double e = ambiguous(a, b) ? Math.max(a.e, b.e) : r.e;
        return e == r.e ? r : new NumVal(r.n, r.d, e);
    }

    static final MathContext MC = new MathContext(60);

    static NumVal sqrt(NumVal a) {
        if (a.kind != NUM) return a;
        if (a.n.signum() < 0) return a.abs() <= AMB * a.e ? ANY : NA;
        if (a.n.signum() == 0) return make(ZERO, ONE, a.e == 0 ? 0 : Math.sqrt(a.e));
        // perfect squares stay exact
        BigInteger rn = a.n.sqrt(), rd = a.d.sqrt();
        double v = Math.sqrt(a.dbl());
        double e = a.e == 0 ? 0 : Math.min(a.e / v, Math.sqrt(a.e));
        if (rn.multiply(rn).equals(a.n) && rd.multiply(rd).equals(a.d)) return rounded(rn, rd, e);
        BigDecimal x = new BigDecimal(a.n).divide(new BigDecimal(a.d), MC).sqrt(MC);
        return rounded(x.unscaledValue().multiply(x.scale() < 0 ? BigInteger.TEN.pow(-x.scale()) : ONE),
                x.scale() > 0 ? BigInteger.TEN.pow(x.scale()) : ONE, e + (EXACT ? 0x1p-53 * v : 0));
    }

    static NumVal ln(NumVal a) {
        if (a.kind != NUM) return a;
        if (a.n.signum() <= 0) return NA;
        double x = a.dbl(), l = StrictMath.log(x);
        NumVal r = ofDouble(l);
        return new NumVal(r.n, r.d, (l == 0 ? 0 : 4 * 0x1p-53 * Math.abs(l)) + a.e / x + (a.representable() ? 0 : 4 * U));
    }

    // ---------------------------------------------------------------- Value
    @Override public byte getKind() { return USERVALUE; }
    @Override public String getKindString() { return "a number of module Num"; }

    @Override public int compareTo(Object o) {
        if (!(o instanceof NumVal)) throw new RuntimeException("comparing Num with " + o);
        NumVal b = (NumVal) o;
        if (kind != b.kind) return Integer.compare(kind, b.kind);
        if (kind != NUM) return 0;
        int c = cmpV(b);
        return c != 0 ? c : Double.compare(e, b.e);
    }

    @Override public boolean equals(Object o) {
        if (!(o instanceof NumVal)) throw new RuntimeException("comparing Num with " + o);
        NumVal b = (NumVal) o;
        return kind == b.kind && n.equals(b.n) && d.equals(b.d) && e == b.e;
    }

    @Override public boolean member(Value x) { throw new RuntimeException("member of a Num"); }
    @Override public Value takeExcept(ValueExcept x) {
        if (x.idx < x.path.length) throw new RuntimeException("EXCEPT into a Num");
        return x.value;
    }
    @Override public Value takeExcept(ValueExcept[] x) {
        if (x.length != 0) throw new RuntimeException("EXCEPT into a Num");
        return this;
    }
    @Override public boolean isFinite() { throw new RuntimeException("isFinite of a Num"); }
    @Override public int size() { throw new RuntimeException("size of a Num"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public boolean isAtom() { return true; }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public void write(IValueOutputStream s) { throw new RuntimeException("Num values stay in memory (use MemStateQueue)"); }

    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, kind + 70);
        if (kind != NUM) return fp;
        byte[] x = n.toByteArray(), y = d.toByteArray();
        fp = FP64.Extend(fp, x, 0, x.length);
        fp = FP64.Extend(fp, 77);
        fp = FP64.Extend(fp, y, 0, y.length);
        return FP64.Extend(fp, Double.doubleToLongBits(e));
    }

    String show() {
        if (kind == NA_K) return "NA";
        if (kind == ANY_K) return "ANY";
        if (n.bitLength() + d.bitLength() < 60) return d.equals(ONE) ? n.toString() : n + "/" + d;
        return Double.toString(dbl());
    }

    @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
        sb.append('"').append(show());
        if (kind == NUM && e > 0) sb.append("~").append(String.format("%.2g", e));
        return sb.append('"');
    }

    @Override public TLCState toState() { return null; }
}
