/* TLC module overrides of RealIv.tla: outward-rounded interval arithmetic over the reals.
 *
 * A value is a tuple of integers:
 *    <<>>            the real number does not exist (outside of the domain of an operation)
 *    <<0>>           nothing is known (an interval touches the border of a domain, overflow, ...)
 *    <<a, b, c, d>>  the closed interval [lo, hi], lo = IEEE double with high word a and low word b, hi with c and d
 * Every operation returns an interval that contains the exact image of its arguments. */
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class RealIv {
    private static final TupleValue NONE = new TupleValue(new Value[0]);
    private static final TupleValue DUNNO = new TupleValue(new Value[] {IntValue.gen(0)});
    private static final BigInteger LIMB = BigInteger.valueOf(10000);

    private static final class Iv {
        final double lo, hi;
        Iv(double lo, double hi) { this.lo = lo; this.hi = hi; }
    }

    private static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }
    private static boolean isNone(Value v) { return elems(v).length == 0; }
    private static boolean isDunno(Value v) { return elems(v).length == 1; }

    private static double dbl(Value hi, Value lo) {
        return Double.longBitsToDouble(((long) ((IntValue) hi).val << 32) | (((IntValue) lo).val & 0xffffffffL));
    }

    private static Iv iv(Value v) {
        final Value[] e = elems(v);
        return new Iv(dbl(e[0], e[1]), dbl(e[2], e[3]));
    }

    private static Value val(double lo, double hi) {
        if (Double.isNaN(lo) || Double.isNaN(hi) || Double.isInfinite(lo) || Double.isInfinite(hi) || lo > hi) return DUNNO;
        final long l = Double.doubleToRawLongBits(lo == 0.0 ? 0.0 : lo);
        final long h = Double.doubleToRawLongBits(hi == 0.0 ? 0.0 : hi);
        return new TupleValue(new Value[] {IntValue.gen((int) (l >>> 32)), IntValue.gen((int) l), IntValue.gen((int) (h >>> 32)), IntValue.gen((int) h)});
    }

    private static double dn(double x) { return x - Math.ulp(x) * 1.0 < x ? x - Math.ulp(x) : Math.nextDown(x); }
    private static double up(double x) { return Math.nextUp(x); }
    /* For the elementary functions, whose documented error is up to 2 ulp: */
    private static double dn4(double x) { return x - 4 * Math.ulp(x) - Double.MIN_NORMAL; }
    private static double up4(double x) { return x + 4 * Math.ulp(x) + Double.MIN_NORMAL; }

    private static Value out(double lo, double hi) { return val(Math.nextDown(lo), up(hi)); }

    /* ---------- construction ---------- */

    private static BigInteger big(Value limbs) {
        BigInteger r = BigInteger.ZERO;
        for (Value v : elems(limbs)) r = r.multiply(LIMB).add(BigInteger.valueOf(((IntValue) v).val));
        return r;
    }

    /* sign in {-1, 0, 1}, limbs base 10^4, most significant first */
    public static Value IvRat(final Value sign, final Value num, final Value den) {
        final int s = ((IntValue) sign).val;
        final BigInteger n = big(num);
        final BigInteger d = big(den);
        if (s == 0 || n.signum() == 0) return val(0.0, 0.0);
        if (n.bitLength() < 53 && d.equals(BigInteger.ONE)) {
            final double x = s * n.doubleValue();
            return val(x, x);
        }
        final BigDecimal q = new BigDecimal(n).divide(new BigDecimal(d), new MathContext(40, RoundingMode.HALF_EVEN));
        final double x = s * q.doubleValue();
        return out(x, x);
    }

    /* four 16 bit words, most significant first, of a double taken from a computation of the library: its accuracy
     * is that of a few rounding errors, hence the interval. */
    public static Value IvDouble(final Value words) {
        final Value[] e = elems(words);
        long bits = 0;
        for (Value v : e) bits = (bits << 16) | ((IntValue) v).val;
        final double x = Double.longBitsToDouble(bits);
        if (Double.isNaN(x) || Double.isInfinite(x)) return DUNNO;
        final double w = 1e-11 * Math.abs(x) + 1e-12;
        return out(x - w, x + w);
    }

    /* Is the double (four 16 bit words) the rational number, up to half a unit in the last place or the resolution of the
     * library (mode 0), or up to a few rounding errors (mode 1)? */
    public static Value RatNear(final Value words, final Value sign, final Value num, final Value den, final Value mode) {
        long bits = 0;
        for (Value v : elems(words)) bits = (bits << 16) | ((IntValue) v).val;
        final double x = Double.longBitsToDouble(bits);
        final BigInteger n = big(num).multiply(BigInteger.valueOf(((IntValue) sign).val));
        final BigInteger d = big(den);
        if (d.signum() == 0) return BoolValue.ValTrue;
        final double about = new BigDecimal(n).divide(new BigDecimal(d), new MathContext(40, RoundingMode.HALF_EVEN)).doubleValue();
        if (Double.isNaN(x) || Double.isInfinite(x) || Double.isInfinite(about) || Math.abs(about) > 1e307)
            return Double.isNaN(x) || (Double.isInfinite(x) && Math.abs(about) < 1e307) ? BoolValue.ValFalse : BoolValue.ValTrue;
        final double tol = ((IntValue) mode).val == 0 ? Math.max(2.3e-16, 0.75 * Math.ulp(x)) : Math.max(1e-300, 4e-15 * Math.abs(about));
        final BigDecimal diff = new BigDecimal(x).multiply(new BigDecimal(d)).subtract(new BigDecimal(n)).abs();
        return diff.compareTo(new BigDecimal(tol).multiply(new BigDecimal(d))) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value IvPi() { return val(Math.nextDown(Math.PI), up(Math.PI)); }
    public static Value IvE() { return val(Math.nextDown(Math.E), up(Math.E)); }

    /* ---------- field operations ---------- */

    public static Value IvAdd(final Value x, final Value y) {
        if (isNone(x) || isNone(y)) return NONE;
        if (isDunno(x) || isDunno(y)) return DUNNO;
        final Iv a = iv(x), b = iv(y);
        if (a.lo == 0.0 && a.hi == 0.0) return y;
        if (b.lo == 0.0 && b.hi == 0.0) return x;
        return out(a.lo + b.lo, a.hi + b.hi);
    }

    public static Value IvNeg(final Value x) {
        if (isNone(x) || isDunno(x)) return x;
        final Iv a = iv(x);
        return val(-a.hi, -a.lo);
    }

    private static Value mul(Iv a, Iv b) {
        if (a.lo == 0.0 && a.hi == 0.0 || b.lo == 0.0 && b.hi == 0.0) return val(0.0, 0.0);
        if (a.lo == 1.0 && a.hi == 1.0) return val(b.lo, b.hi);
        if (b.lo == 1.0 && b.hi == 1.0) return val(a.lo, a.hi);
        final double p = a.lo * b.lo, q = a.lo * b.hi, r = a.hi * b.lo, s = a.hi * b.hi;
        return out(Math.min(Math.min(p, q), Math.min(r, s)), Math.max(Math.max(p, q), Math.max(r, s)));
    }

    public static Value IvMul(final Value x, final Value y) {
        if (isNone(x) || isNone(y)) return NONE;
        if (isDunno(x) || isDunno(y)) return DUNNO;
        return mul(iv(x), iv(y));
    }

    public static Value IvInv(final Value x) {
        if (isNone(x) || isDunno(x)) return x;
        final Iv a = iv(x);
        if (a.lo == 0.0 && a.hi == 0.0) return NONE;
        if (a.lo <= 0.0 && a.hi >= 0.0) return DUNNO;
        if (a.lo == a.hi && Math.abs(a.lo) == 1.0) return x;
        return out(1.0 / a.hi, 1.0 / a.lo);
    }

    /* ---------- powers ---------- */

    private static Value powInt(final Iv a, final int n) {
        /* n > 0 */
        if (n == 1) return val(a.lo, a.hi);
        if (n % 2 == 1) return val(dnp(a.lo, n), upp(a.hi, n));
        if (a.lo >= 0.0) return val(Math.max(0.0, dnp(a.lo, n)), upp(a.hi, n));
        if (a.hi <= 0.0) return val(Math.max(0.0, dnp(a.hi, n)), upp(a.lo, n));
        return val(0.0, upp(Math.max(-a.lo, a.hi), n));
    }

    private static boolean exactPow(double b) { return b == 0.0 || Math.abs(b) == 1.0; }
    private static double dnp(double b, int n) { final double x = StrictMath.pow(b, n); return exactPow(b) ? x : dn4(x); }
    private static double upp(double b, int n) { final double x = StrictMath.pow(b, n); return exactPow(b) ? x : up4(x); }

    /* integer exponent; 0^0 does not exist */
    public static Value IvPowInt(final Value x, final Value ne) {
        if (isNone(x) || isDunno(x)) return x;
        final int n = ((IntValue) ne).val;
        final Iv a = iv(x);
        final boolean zero = a.lo == 0.0 && a.hi == 0.0;
        final boolean maybeZero = a.lo <= 0.0 && a.hi >= 0.0;
        if (n <= 0) {
            if (zero) return NONE;
            if (maybeZero) return DUNNO;
        }
        if (n == 0) return val(1.0, 1.0);
        if (n > 0) return powInt(a, n);
        return IvInv(powInt(a, n == Integer.MIN_VALUE ? Integer.MAX_VALUE : -n));
    }

    /* exponent known to be no integer (a fraction) if frac is TRUE */
    public static Value IvPow(final Value x, final Value y, final Value frac) {
        if (isNone(x) || isNone(y)) return NONE;
        if (isDunno(x) || isDunno(y)) return DUNNO;
        final Iv a = iv(x), e = iv(y);
        if (a.lo == 0.0 && a.hi == 0.0) return e.lo > 0.0 ? val(0.0, 0.0) : e.hi <= 0.0 ? NONE : DUNNO;
        if (a.hi < 0.0) {
            if (((BoolValue) frac).val) return NONE;
            return Math.ceil(e.lo) > e.hi ? NONE : DUNNO;
        }
        if (a.lo <= 0.0) return DUNNO;
        final double p = StrictMath.pow(a.lo, e.lo), q = StrictMath.pow(a.lo, e.hi), r = StrictMath.pow(a.hi, e.lo), s = StrictMath.pow(a.hi, e.hi);
        final double lo = Math.min(Math.min(p, q), Math.min(r, s)), hi = Math.max(Math.max(p, q), Math.max(r, s));
        return val(Math.max(0.0, dn4(lo)), up4(hi));
    }

    /* ---------- functions ---------- */

    public static Value IvLog(final Value x) {
        if (isNone(x) || isDunno(x)) return x;
        final Iv a = iv(x);
        if (a.hi <= 0.0) return NONE;
        if (a.lo <= 0.0) return DUNNO;
        if (a.lo == 1.0 && a.hi == 1.0) return val(0.0, 0.0);
        return val(dn4(StrictMath.log(a.lo)), up4(StrictMath.log(a.hi)));
    }

    private static boolean contains(double lo, double hi, double first, double period) {
        /* does [lo, hi] contain first + k*period, up to slack? */
        final double slack = 1e-12 * (1.0 + Math.max(Math.abs(lo), Math.abs(hi)));
        final double k = Math.ceil((lo - slack - first) / period);
        return first + k * period <= hi + slack;
    }

    private static Value cosine(double lo, double hi) {
        if (Math.max(Math.abs(lo), Math.abs(hi)) > 1e9) return val(-1.0, 1.0);
        final double c = StrictMath.cos(lo), d = StrictMath.cos(hi);
        double l = Math.max(-1.0, dn4(Math.min(c, d))), h = Math.min(1.0, up4(Math.max(c, d)));
        if (contains(lo, hi, 0.0, 2 * Math.PI)) h = 1.0;
        if (contains(lo, hi, Math.PI, 2 * Math.PI)) l = -1.0;
        return val(l, h);
    }

    private static Value sine(double lo, double hi) {
        if (Math.max(Math.abs(lo), Math.abs(hi)) > 1e9) return val(-1.0, 1.0);
        final double c = StrictMath.sin(lo), d = StrictMath.sin(hi);
        double l = Math.max(-1.0, dn4(Math.min(c, d))), h = Math.min(1.0, up4(Math.max(c, d)));
        if (contains(lo, hi, Math.PI / 2, 2 * Math.PI)) h = 1.0;
        if (contains(lo, hi, -Math.PI / 2, 2 * Math.PI)) l = -1.0;
        return val(l, h);
    }

    public static Value IvSin(final Value x) {
        if (isNone(x) || isDunno(x)) return x;
        final Iv a = iv(x);
        if (a.lo == 0.0 && a.hi == 0.0) return x;
        return sine(a.lo, a.hi);
    }

    public static Value IvCos(final Value x) {
        if (isNone(x) || isDunno(x)) return x;
        final Iv a = iv(x);
        if (a.lo == 0.0 && a.hi == 0.0) return val(1.0, 1.0);
        return cosine(a.lo, a.hi);
    }

    public static Value IvTan(final Value x) {
        if (isNone(x) || isDunno(x)) return x;
        final Iv a = iv(x);
        if (a.lo == 0.0 && a.hi == 0.0) return x;
        if (Math.max(Math.abs(a.lo), Math.abs(a.hi)) > 1e6 || contains(a.lo, a.hi, Math.PI / 2, Math.PI)) return DUNNO;
        return val(dn4(StrictMath.tan(a.lo)), up4(StrictMath.tan(a.hi)));
    }

    public static Value IvAsin(final Value x) {
        if (isNone(x) || isDunno(x)) return x;
        final Iv a = iv(x);
        if (a.lo > 1.0 || a.hi < -1.0) return NONE;
        if (a.hi > 1.0 || a.lo < -1.0) return DUNNO;
        return val(dn4(StrictMath.asin(a.lo)), up4(StrictMath.asin(a.hi)));
    }

    public static Value IvAcos(final Value x) {
        if (isNone(x) || isDunno(x)) return x;
        final Iv a = iv(x);
        if (a.lo > 1.0 || a.hi < -1.0) return NONE;
        if (a.hi > 1.0 || a.lo < -1.0) return DUNNO;
        return val(Math.max(0.0, dn4(StrictMath.acos(a.hi))), up4(StrictMath.acos(a.lo)));
    }

    public static Value IvAtan(final Value x) {
        if (isNone(x) || isDunno(x)) return x;
        final Iv a = iv(x);
        return val(dn4(StrictMath.atan(a.lo)), up4(StrictMath.atan(a.hi)));
    }

    /* principal value in (-pi, pi]; callers compare modulo 2*pi */
    public static Value IvAtan2(final Value y, final Value x) {
        if (isNone(x) || isNone(y)) return NONE;
        if (isDunno(x) || isDunno(y)) return DUNNO;
        final Iv v = iv(y), u = iv(x);
        if (u.lo == 0.0 && u.hi == 0.0 && v.lo == 0.0 && v.hi == 0.0) return NONE;
        if (u.lo <= 0.0 && v.lo <= 0.0 && v.hi >= 0.0) return DUNNO;
        final double p = StrictMath.atan2(v.lo, u.lo), q = StrictMath.atan2(v.lo, u.hi), r = StrictMath.atan2(v.hi, u.lo), s = StrictMath.atan2(v.hi, u.hi);
        return val(dn4(Math.min(Math.min(p, q), Math.min(r, s))), up4(Math.max(Math.max(p, q), Math.max(r, s))));
    }

    /* ---------- comparisons ---------- */

    public static Value IvKnown(final Value x) { return elems(x).length == 4 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value IvNone(final Value x) { return isNone(x) ? BoolValue.ValTrue : BoolValue.ValFalse; }

    /* both known and certainly different numbers */
    public static Value IvApart(final Value x, final Value y) {
        if (elems(x).length != 4 || elems(y).length != 4) return BoolValue.ValFalse;
        final Iv a = iv(x), b = iv(y);
        return a.hi < b.lo || b.hi < a.lo ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    /* both known with small error bounds, so that IvApart would notice a difference of more than a millionth */
    public static Value IvSharp(final Value x, final Value y) {
        if (elems(x).length != 4 || elems(y).length != 4) return BoolValue.ValFalse;
        final Iv a = iv(x), b = iv(y);
        final double m = Math.max(1e-3, Math.max(Math.abs(a.lo), Math.abs(a.hi)));
        return (a.hi - a.lo) + (b.hi - b.lo) < 1e-6 * m ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value IvPositive(final Value x) { return elems(x).length == 4 && iv(x).lo > 0.0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value IvNegative(final Value x) { return elems(x).length == 4 && iv(x).hi < 0.0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value IvNonNegative(final Value x) { return elems(x).length == 4 && iv(x).lo >= 0.0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value IvShow(final Value x) {
        if (isNone(x)) return new StringValue("undefined");
        if (isDunno(x)) return new StringValue("unknown");
        return new StringValue("[" + iv(x).lo + ", " + iv(x).hi + "]");
    }
}
