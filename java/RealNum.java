/* TLC evaluation of the operators declared in spec/RealNum.tla.
 *
 * A real number is represented by a BigDecimal, computed with PREC significant digits
 * (far beyond IEEE double precision), or by NaN.  NaN propagates and compares false with
 * everything, so that verdict operators stay total.  Arguments may be real numbers, TLC
 * integers or decimal strings.
 */
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

public class RealNum {
    static final int PREC = 80;
    static final MathContext MC = new MathContext(PREC, RoundingMode.HALF_EVEN);
    static final MathContext MX = new MathContext(PREC + 12, RoundingMode.HALF_EVEN);
    static final BigDecimal EPS = BigDecimal.ONE.movePointLeft(PREC + 14);
    static final BigDecimal TWO = BigDecimal.valueOf(2), HALF = new BigDecimal("0.5");

    public static final class RN extends UserObj {
        final BigDecimal v;
        RN(BigDecimal v) { this.v = v; }
        public int compareTo(Value o) {
            BigDecimal w = bd(o);
            if (v == null || w == null) return v == w ? 0 : (v == null ? -1 : 1);
            return v.compareTo(w);
        }
        public boolean member(Value v) { throw new RuntimeException("a real number is not a set"); }
        public boolean isFinite() { return true; }
        public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append(show(v)); }
    }

    static String show(BigDecimal v) {
        return v == null ? "nan" : Double.toString(v.doubleValue());
    }

    static BigDecimal bd(Value x) {
        if (x instanceof UserValue && ((UserValue) x).userObj instanceof RN) return ((RN) ((UserValue) x).userObj).v;
        if (x instanceof IntValue) return BigDecimal.valueOf(((IntValue) x).val);
        if (x instanceof StringValue) {
            try { return new BigDecimal(((StringValue) x).val.toString()); }
            catch (NumberFormatException e) { return null; }
        }
        throw new RuntimeException("not a real number: " + x);
    }
    static Value mk(BigDecimal v) { return new UserValue(new RN(v)); }
    static final Value NAN = mk(null);

    static BigDecimal add(BigDecimal a, BigDecimal b) { return a == null || b == null ? null : a.add(b, MC); }
    static BigDecimal sub(BigDecimal a, BigDecimal b) { return a == null || b == null ? null : a.subtract(b, MC); }
    static BigDecimal mul(BigDecimal a, BigDecimal b) { return a == null || b == null ? null : a.multiply(b, MC); }
    static BigDecimal div(BigDecimal a, BigDecimal b) {
        return a == null || b == null || b.signum() == 0 ? null : a.divide(b, MC);
    }

    public static Value R(Value x) { return mk(bd(x)); }
    public static Value RAdd(Value a, Value b) { return mk(add(bd(a), bd(b))); }
    public static Value RSub(Value a, Value b) { return mk(sub(bd(a), bd(b))); }
    public static Value RMul(Value a, Value b) { return mk(mul(bd(a), bd(b))); }
    public static Value RDiv(Value a, Value b) { return mk(div(bd(a), bd(b))); }
    public static Value RNeg(Value a) { BigDecimal x = bd(a); return x == null ? NAN : mk(x.negate()); }
    public static Value RAbs(Value a) { BigDecimal x = bd(a); return x == null ? NAN : mk(x.abs()); }
    public static Value RLe(Value a, Value b) { return cmp(a, b, 0, true); }
    public static Value RLt(Value a, Value b) { return cmp(a, b, 0, false); }
    static Value cmp(Value a, Value b, int z, boolean eq) {
        BigDecimal x = bd(a), y = bd(b);
        if (x == null || y == null) return BoolValue.ValFalse;
        int c = x.compareTo(y);
        return (c < 0 || (eq && c == 0)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value REq(Value a, Value b) {
        BigDecimal x = bd(a), y = bd(b);
        return x != null && y != null && x.compareTo(y) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value RIsNaN(Value a) { return bd(a) == null ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RMax(Value a, Value b) { BigDecimal x = bd(a), y = bd(b); return x == null || y == null ? NAN : mk(x.max(y)); }
    public static Value RMin(Value a, Value b) { BigDecimal x = bd(a), y = bd(b); return x == null || y == null ? NAN : mk(x.min(y)); }
    public static Value RFloor(Value a) {
        BigDecimal x = bd(a);
        if (x == null) return IntValue.gen(-1);
        return IntValue.gen(x.setScale(0, RoundingMode.FLOOR).intValueExact());
    }
    public static Value RTrunc(Value a) {
        BigDecimal x = bd(a);
        if (x == null) return IntValue.gen(-1);
        return IntValue.gen(x.setScale(0, RoundingMode.DOWN).intValueExact());
    }
    public static Value IsVector(Value a) {
        return a instanceof TupleValue || (!(a instanceof StringValue) && !(a instanceof UserValue) && a.toTuple() != null)
            ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value RShow(Value a) { return new StringValue(show(bd(a))); }

    // ---- elementary functions -------------------------------------------------------
    static final BigDecimal PI = pi(), LN2 = lnRatio(3, 1), LN10 = null_ln10();
    static BigDecimal atanInv(int n) {            // atan(1/n)
        BigDecimal x = BigDecimal.ONE.divide(BigDecimal.valueOf(n), MX), x2 = x.multiply(x, MX), t = x, s = x;
        for (int k = 1; t.abs().compareTo(EPS) > 0; k++) {
            t = t.multiply(x2, MX).negate();
            s = s.add(t.divide(BigDecimal.valueOf(2 * k + 1), MX), MX);
        }
        return s;
    }
    static BigDecimal pi() { return atanInv(5).multiply(BigDecimal.valueOf(16)).subtract(atanInv(239).multiply(BigDecimal.valueOf(4)), MX); }
    // ln((1+1/n)/(1-1/n)); n = 3 gives ln 2
    static BigDecimal lnRatio(int n, int one) {
        BigDecimal x = BigDecimal.ONE.divide(BigDecimal.valueOf(n), MX), x2 = x.multiply(x, MX), t = x, s = x;
        for (int k = 1; t.compareTo(EPS) > 0; k++) {
            t = t.multiply(x2, MX);
            s = s.add(t.divide(BigDecimal.valueOf(2 * k + 1), MX), MX);
        }
        return s.multiply(TWO, MX);
    }
    // ln 10 = 3 ln 2 + ln(5/4), (1+1/9)/(1-1/9) = 5/4
    static BigDecimal null_ln10() { return lnRatio(3, 1).multiply(BigDecimal.valueOf(3)).add(lnRatio(9, 1), MX); }

    static BigDecimal exp(BigDecimal x) {
        if (x != null && x.compareTo(BigDecimal.valueOf(-60000L)) < 0) return BigDecimal.ZERO;
        if (x == null || x.compareTo(BigDecimal.valueOf(60000L)) > 0) return null;
        if (x.signum() == 0) return BigDecimal.ONE;
        BigDecimal k = x.divide(LN2, MX).setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal r = x.subtract(k.multiply(LN2, new MathContext(PREC + 24)), MX);
        final int H = 12;
        r = r.divide(BigDecimal.valueOf(1L << H), MX);
        BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
        for (int n = 1; t.abs().compareTo(EPS) > 0; n++) {
            t = t.multiply(r, MX).divide(BigDecimal.valueOf(n), MX);
            s = s.add(t, MX);
        }
        for (int i = 0; i < H; i++) s = s.multiply(s, MX);
        int e = k.intValueExact();
        if (Math.abs(e) > 100000) return null;
        BigDecimal p = TWO.pow(Math.abs(e), MX);
        return (e >= 0 ? s.multiply(p, MX) : s.divide(p, MX)).round(MC);
    }
    static BigDecimal ln(BigDecimal x) {
        if (x == null || x.signum() <= 0) return null;
        int e = x.precision() - x.scale();
        BigDecimal m = x.movePointLeft(e);                      // in [0.1, 1)
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 3; i++) {
            BigDecimal ey = exp(y);
            y = y.add(TWO.multiply(m.subtract(ey, MX)).divide(m.add(ey, MX), MX), MX);
        }
        return y.add(LN10.multiply(BigDecimal.valueOf(e)), MC);
    }
    static BigDecimal sqrt(BigDecimal x) { return x == null || x.signum() < 0 ? null : x.sqrt(MC); }
    static BigDecimal sin(BigDecimal x) {
        if (x == null) return null;
        BigDecimal tp = PI.multiply(TWO);
        BigDecimal k = x.divide(tp, new MathContext(PREC + 24)).setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal r = x.subtract(k.multiply(tp, new MathContext(PREC + 24)), MX);
        final BigDecimal THREE = BigDecimal.valueOf(3);
        int H = 3;
        r = r.divide(BigDecimal.valueOf(27), MX);               // |r| < 0.12, tripled H times below
        BigDecimal s = r, t = r, r2 = r.multiply(r, MX);
        for (int n = 1; t.abs().compareTo(EPS) > 0; n++) {
            t = t.multiply(r2, MX).divide(BigDecimal.valueOf((2L * n) * (2L * n + 1)), MX).negate();
            s = s.add(t, MX);
        }
        for (int i = 0; i < H; i++)                              // sin 3a = 3 sin a - 4 sin^3 a
            s = THREE.multiply(s).subtract(BigDecimal.valueOf(4).multiply(s.multiply(s, MX).multiply(s, MX)), MX);
        return s.round(MC);
    }
    static BigDecimal cos(BigDecimal x) { return x == null ? null : sin(x.add(PI.multiply(HALF), new MathContext(PREC + 24))); }
    static BigDecimal atan(BigDecimal x) {
        if (x == null) return null;
        if (x.abs().compareTo(BigDecimal.ONE) > 0) {
            BigDecimal a = atan(BigDecimal.ONE.divide(x, MX)), h = PI.multiply(HALF);
            return (x.signum() > 0 ? h : h.negate()).subtract(a, MC);
        }
        BigDecimal y = x; int H = 4;                             // atan x = 2 atan(x/(1+sqrt(1+x^2)))
        for (int i = 0; i < H; i++) y = y.divide(BigDecimal.ONE.add(BigDecimal.ONE.add(y.multiply(y, MX)).sqrt(MX)), MX);
        BigDecimal s = y, t = y, y2 = y.multiply(y, MX);
        for (int n = 1; t.abs().compareTo(EPS) > 0; n++) {
            t = t.multiply(y2, MX).negate();
            s = s.add(t.divide(BigDecimal.valueOf(2L * n + 1), MX), MX);
        }
        return s.multiply(BigDecimal.valueOf(1 << H), MC);
    }
    static BigDecimal atan2(BigDecimal y, BigDecimal x) {
        if (x == null || y == null) return null;
        if (x.signum() == 0) return y.signum() == 0 ? BigDecimal.ZERO : (y.signum() > 0 ? PI.multiply(HALF, MC) : PI.multiply(HALF, MC).negate());
        BigDecimal a = atan(y.divide(x, MX));
        if (x.signum() > 0) return a;
        return y.signum() >= 0 ? a.add(PI, MC) : a.subtract(PI, MC);
    }
    static BigDecimal erf(BigDecimal x) {
        if (x == null) return null;
        if (x.abs().compareTo(BigDecimal.valueOf(12)) > 0) return BigDecimal.valueOf(x.signum());
        MathContext M = new MathContext(2 * PREC + 60);
        BigDecimal s = x, t = x, x2 = x.multiply(x, M);
        for (int n = 1; t.abs().compareTo(EPS) > 0 || n < 10; n++) {
            t = t.multiply(x2, M).divide(BigDecimal.valueOf(n), M).negate();
            s = s.add(t.divide(BigDecimal.valueOf(2L * n + 1), M), M);
            if (t.signum() == 0) break;
        }
        return s.multiply(TWO).divide(PI.sqrt(MX), MC);
    }

    public static Value RExp(Value a) { return mk(exp(bd(a))); }
    public static Value RLn(Value a) { return mk(ln(bd(a))); }
    public static Value RSqrt(Value a) { return mk(sqrt(bd(a))); }
    public static Value RSin(Value a) { return mk(sin(bd(a))); }
    public static Value RCos(Value a) { return mk(cos(bd(a))); }
    public static Value RAtan2(Value y, Value x) { return mk(atan2(bd(y), bd(x))); }
    public static Value RErf(Value a) { return mk(erf(bd(a))); }
    static final Value VPI = mk(PI.round(MC));
    public static Value RPi() { return VPI; }
    public static Value RPow10(Value a) { BigDecimal x = bd(a); return x == null ? NAN : mk(exp(mul(x, LN10))); }
    public static Value RPow(Value a, Value b) {
        BigDecimal x = bd(a), y = bd(b);
        if (x == null || y == null) return NAN;
        if (y.signum() == 0) return mk(BigDecimal.ONE);
        if (x.signum() == 0) return y.signum() > 0 ? mk(BigDecimal.ZERO) : NAN;
        if (y.stripTrailingZeros().scale() <= 0 && y.abs().compareTo(BigDecimal.valueOf(64)) <= 0) {
            int n = y.intValueExact();
            BigDecimal p = x.pow(Math.abs(n), MX);
            return mk(n > 0 ? p.round(MC) : BigDecimal.ONE.divide(p, MC));
        }
        if (x.signum() < 0) return NAN;
        return mk(exp(ln(x).multiply(y, MX)));
    }

    // ---- vectors (sequences of reals) -----------------------------------------------
    static Value[] el(Value s) {
        Value t = s.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + s);
        return ((TupleValue) t).elems;
    }
    static BigDecimal[] vec(Value s) {
        Value[] e = el(s);
        BigDecimal[] r = new BigDecimal[e.length];
        for (int i = 0; i < e.length; i++) r[i] = bd(e[i]);
        return r;
    }
    static Value mkv(BigDecimal[] r) {
        Value[] e = new Value[r.length];
        for (int i = 0; i < r.length; i++) e[i] = mk(r[i]);
        return new TupleValue(e);
    }
    public static Value RVec(Value s) { return mkv(vec(s)); }
    public static Value RSum(Value s) {
        BigDecimal a = BigDecimal.ZERO;
        for (BigDecimal x : vec(s)) a = add(a, x);
        return mk(a);
    }
    public static Value RDot(Value s, Value t) {
        BigDecimal[] x = vec(s), y = vec(t);
        BigDecimal a = BigDecimal.ZERO;
        for (int i = 0; i < x.length; i++) a = add(a, mul(x[i], y[i]));
        return mk(a);
    }
    public static Value RAxpy(Value a, Value s, Value t) {       // a*s + t
        BigDecimal c = bd(a); BigDecimal[] x = vec(s), y = vec(t), r = new BigDecimal[x.length];
        for (int i = 0; i < x.length; i++) r[i] = add(mul(c, x[i]), y[i]);
        return mkv(r);
    }
    public static Value RScale(Value a, Value s) {
        BigDecimal c = bd(a); BigDecimal[] x = vec(s), r = new BigDecimal[x.length];
        for (int i = 0; i < x.length; i++) r[i] = mul(c, x[i]);
        return mkv(r);
    }
    public static Value RVAdd(Value s, Value t) {
        BigDecimal[] x = vec(s), y = vec(t), r = new BigDecimal[x.length];
        for (int i = 0; i < x.length; i++) r[i] = add(x[i], y[i]);
        return mkv(r);
    }
    public static Value RVSub(Value s, Value t) {
        BigDecimal[] x = vec(s), y = vec(t), r = new BigDecimal[x.length];
        for (int i = 0; i < x.length; i++) r[i] = sub(x[i], y[i]);
        return mkv(r);
    }
    public static Value RVMul(Value s, Value t) {
        BigDecimal[] x = vec(s), y = vec(t), r = new BigDecimal[x.length];
        for (int i = 0; i < x.length; i++) r[i] = mul(x[i], y[i]);
        return mkv(r);
    }
}
