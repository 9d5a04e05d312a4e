// TLC module override for Real.tla: decimal arithmetic on TLA+ strings.
//
// A real number is a TLA+ string holding a decimal ("0.1", "-3e-7", "inf",
// "-inf", "NaN"); a TLA+ integer is accepted wherever a real is. Sums,
// differences and products are rounded to 50 significant digits, everything
// else is computed to at least 40. A string that is no number reads as NaN, so
// a panic recorded by an executor falsifies every comparison it meets.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.Arrays;
import java.util.HashMap;

import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Real {
    static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);
    static final MathContext WC = new MathContext(62, RoundingMode.HALF_EVEN);
    static final BigDecimal ZERO = BigDecimal.ZERO, ONE = BigDecimal.ONE, TWO = BigDecimal.valueOf(2);
    static final BigDecimal HALF = new BigDecimal("0.5");

    // ---- extended reals -------------------------------------------------
    static final class X {
        final int kind; // 0 finite, 1 +inf, -1 -inf, 2 NaN
        final BigDecimal v;
        X(int kind, BigDecimal v) { this.kind = kind; this.v = v; }
        boolean fin() { return kind == 0; }
        boolean nan() { return kind == 2; }
        int sgn() { return kind == 0 ? v.signum() : kind == 2 ? 0 : kind; }
    }
    static final X NAN = new X(2, null), PINF = new X(1, null), NINF = new X(-1, null);
    static X f(BigDecimal v) { return new X(0, v); }

    static X parse(String s) {
        switch (s) {
            case "inf": case "+inf": return PINF;
            case "-inf": return NINF;
            case "NaN": return NAN;
            default:
        }
        if (s.isEmpty()) return NAN;
        char c = s.charAt(0);
        if (!(c == '-' || c == '+' || c == '.' || (c >= '0' && c <= '9'))) return NAN;
        try {
            int sl = s.indexOf('/');
            if (sl > 0) {
                BigDecimal d = new BigDecimal(s.substring(sl + 1));
                return f(new BigDecimal(s.substring(0, sl)).divide(d, MC));
            }
            return f(new BigDecimal(s));
        } catch (ArithmeticException | NumberFormatException e) {
            return NAN;
        }
    }
    static X x(Value v) {
        if (v instanceof IntValue) return f(BigDecimal.valueOf(((IntValue) v).val));
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        return NAN;
    }
    static Value out(X a) {
        switch (a.kind) {
            case 1: return new StringValue("inf");
            case -1: return new StringValue("-inf");
            case 2: return new StringValue("NaN");
            default:
                BigDecimal v = a.v.round(MC);
                return new StringValue(v.signum() == 0 ? "0" : v.stripTrailingZeros().toString());
        }
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static X add(X a, X b) {
        if (a.nan() || b.nan()) return NAN;
        if (a.fin() && b.fin()) return f(a.v.add(b.v, MC));
        if (a.fin()) return b;
        if (b.fin()) return a;
        return a.kind == b.kind ? a : NAN;
    }
    static X neg(X a) { return a.fin() ? f(a.v.negate()) : a.nan() ? NAN : a.kind > 0 ? NINF : PINF; }
    static X sub(X a, X b) { return add(a, neg(b)); }
    static X mul(X a, X b) {
        if (a.nan() || b.nan()) return NAN;
        if (a.fin() && b.fin()) return f(a.v.multiply(b.v, MC));
        int s = a.sgn() * b.sgn();
        return s == 0 ? NAN : s > 0 ? PINF : NINF;
    }
    static X div(X a, X b) {
        if (a.nan() || b.nan()) return NAN;
        if (a.fin() && b.fin()) {
            if (b.v.signum() == 0) return a.v.signum() == 0 ? NAN : a.v.signum() > 0 ? PINF : NINF;
            return f(a.v.divide(b.v, MC));
        }
        if (!a.fin() && !b.fin()) return NAN;
        if (!b.fin()) return f(ZERO);
        return (b.sgn() < 0) ? neg(a) : a;
    }
    /** -1, 0, 1; 2 when unordered. */
    static int cmp(X a, X b) {
        if (a.nan() || b.nan()) return 2;
        if (a.fin() && b.fin()) return a.v.compareTo(b.v);
        int ka = a.fin() ? 0 : a.kind, kb = b.fin() ? 0 : b.kind;
        return Integer.compare(ka, kb);
    }

    // ---- transcendental functions ---------------------------------------
    static BigDecimal LN2, PI;
    static {
        // ln 2 = 2 atanh(1/3); pi by Machin.
        LN2 = TWO.multiply(atanhInv(3), WC);
        PI = BigDecimal.valueOf(16).multiply(atanInv(5)).subtract(BigDecimal.valueOf(4).multiply(atanInv(239)), WC);
    }
    static BigDecimal atanhInv(int n) {
        BigDecimal nn = BigDecimal.valueOf((long) n * n), p = ONE.divide(BigDecimal.valueOf(n), WC), s = p;
        for (int k = 3; p.compareTo(new BigDecimal("1e-65")) > 0; k += 2) {
            p = p.divide(nn, WC);
            s = s.add(p.divide(BigDecimal.valueOf(k), WC), WC);
        }
        return s;
    }
    static BigDecimal atanInv(int n) {
        BigDecimal nn = BigDecimal.valueOf((long) n * n), p = ONE.divide(BigDecimal.valueOf(n), WC), s = p;
        int sg = -1;
        for (int k = 3; p.compareTo(new BigDecimal("1e-65")) > 0; k += 2, sg = -sg) {
            p = p.divide(nn, WC);
            BigDecimal t = p.divide(BigDecimal.valueOf(k), WC);
            s = sg > 0 ? s.add(t, WC) : s.subtract(t, WC);
        }
        return s;
    }
    static BigDecimal bexp(BigDecimal a) { // |a| bounded by the caller
        BigInteger k = a.divide(LN2, WC).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
        BigDecimal r = a.subtract(LN2.multiply(new BigDecimal(k), new MathContext(80)), WC);
        int h = 8;
        r = r.divide(BigDecimal.valueOf(1 << h), WC);
        BigDecimal t = ONE, s = ONE;
        for (int i = 1; i < 40; i++) {
            t = t.multiply(r, WC).divide(BigDecimal.valueOf(i), WC);
            if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-62")) < 0) break;
            s = s.add(t, WC);
        }
        for (int i = 0; i < h; i++) s = s.multiply(s, WC);
        int kk = k.intValueExact();
        BigDecimal p2 = TWO.pow(Math.abs(kk), WC);
        return kk >= 0 ? s.multiply(p2, WC) : s.divide(p2, WC);
    }
    static BigDecimal bln(BigDecimal a) { // a > 0
        // a = m * 10^e with m in [1, 10)
        int e = a.precision() - a.scale() - 1;
        BigDecimal m = a.scaleByPowerOfTen(-e);
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 2; i++) {
            BigDecimal ey = bexp(y);
            y = y.add(TWO.multiply(m.subtract(ey, WC)).divide(m.add(ey, WC), WC), WC);
        }
        if (e != 0) y = y.add(LN10().multiply(BigDecimal.valueOf(e), WC), WC);
        return y;
    }
    static BigDecimal ln10;
    static BigDecimal LN10() {
        if (ln10 == null) {
            BigDecimal y = new BigDecimal(Math.log(10.0)), m = BigDecimal.TEN;
            for (int i = 0; i < 3; i++) {
                BigDecimal ey = bexp(y);
                y = y.add(TWO.multiply(m.subtract(ey, WC)).divide(m.add(ey, WC), WC), WC);
            }
            ln10 = y;
        }
        return ln10;
    }
    static X exp(X a) {
        if (a.nan()) return NAN;
        if (a.kind == 1) return PINF;
        if (a.kind == -1) return f(ZERO);
        if (a.v.compareTo(BigDecimal.valueOf(100000)) > 0) return PINF;
        if (a.v.compareTo(BigDecimal.valueOf(-100000)) < 0) return f(ZERO);
        return f(bexp(a.v));
    }
    static X ln(X a) {
        if (a.nan() || a.kind == -1) return NAN;
        if (a.kind == 1) return PINF;
        if (a.v.signum() < 0) return NAN;
        if (a.v.signum() == 0) return NINF;
        return f(bln(a.v));
    }
    static BigDecimal[] bsincos(BigDecimal a) {
        BigDecimal twoPi = TWO.multiply(PI, WC);
        BigInteger k = a.divide(twoPi, WC).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
        BigDecimal r = a.subtract(twoPi.multiply(new BigDecimal(k), new MathContext(90)), WC);
        int h = 6;
        r = r.divide(BigDecimal.valueOf(1 << h), WC);
        BigDecimal r2 = r.multiply(r, WC), t = r, s = r, c = ONE, u = ONE;
        for (int i = 1; i < 30; i++) {
            u = u.multiply(r2, WC).divide(BigDecimal.valueOf((2L * i - 1) * (2L * i)), WC).negate();
            t = t.multiply(r2, WC).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), WC).negate();
            c = c.add(u, WC);
            s = s.add(t, WC);
        }
        for (int i = 0; i < h; i++) {
            BigDecimal ns = TWO.multiply(s).multiply(c, WC);
            c = ONE.subtract(TWO.multiply(s).multiply(s, WC), WC);
            s = ns;
        }
        return new BigDecimal[] {s, c};
    }
    static BigDecimal batan(BigDecimal a) {
        if (a.abs().compareTo(new BigDecimal("1e15")) > 0) {
            BigDecimal q = PI.multiply(HALF, WC);
            BigDecimal i = batan(ONE.divide(a.abs(), WC));
            return a.signum() > 0 ? q.subtract(i, WC) : i.subtract(q, WC);
        }
        BigDecimal y = new BigDecimal(Math.atan(a.doubleValue()));
        for (int i = 0; i < 3; i++) { // Newton on tan y = a: y += (a cos - sin) cos
            BigDecimal[] sc = bsincos(y);
            // delta = atan((a - t)/(1 + a t)) ~ (a c - s)/(c + a s)
            BigDecimal num = a.multiply(sc[1], WC).subtract(sc[0], WC);
            BigDecimal den = sc[1].add(a.multiply(sc[0], WC), WC);
            y = y.add(num.divide(den, WC), WC);
        }
        return y;
    }
    // Bernoulli numbers B_2 .. B_40
    static BigDecimal[] BERN;
    static {
        int n = 42;
        BigInteger[] num = new BigInteger[n + 1], den = new BigInteger[n + 1];
        BigInteger[] an = new BigInteger[n + 1], ad = new BigInteger[n + 1];
        BERN = new BigDecimal[n / 2 + 1];
        for (int m = 0; m <= n; m++) {
            an[m] = BigInteger.ONE;
            ad[m] = BigInteger.valueOf(m + 1);
            for (int j = m; j >= 1; j--) { // a[j-1] = j*(a[j-1]-a[j])
                BigInteger nn = an[j - 1].multiply(ad[j]).subtract(an[j].multiply(ad[j - 1])).multiply(BigInteger.valueOf(j));
                BigInteger dd = ad[j - 1].multiply(ad[j]);
                BigInteger g = nn.gcd(dd);
                if (g.signum() == 0) g = BigInteger.ONE;
                an[j - 1] = nn.divide(g);
                ad[j - 1] = dd.divide(g);
            }
            if (m % 2 == 0) BERN[m / 2] = new BigDecimal(an[0]).divide(new BigDecimal(ad[0]), WC);
        }
    }
    static BigDecimal blngamma(BigDecimal z) { // z > 0
        BigDecimal sh = ZERO, p = ONE;
        while (z.compareTo(BigDecimal.valueOf(40)) < 0) {
            p = p.multiply(z, WC);
            z = z.add(ONE, WC);
        }
        if (p.compareTo(ONE) != 0) sh = bln(p);
        BigDecimal s = z.subtract(HALF, WC).multiply(bln(z), WC).subtract(z, WC)
            .add(HALF.multiply(bln(TWO.multiply(PI, WC)), WC), WC);
        BigDecimal zp = z, z2 = z.multiply(z, WC);
        for (int k = 1; k <= 20; k++) {
            s = s.add(BERN[k].divide(zp.multiply(BigDecimal.valueOf((2L * k) * (2L * k - 1)), WC), WC), WC);
            zp = zp.multiply(z2, WC);
        }
        return s.subtract(sh, WC);
    }
    static BigDecimal bdigamma(BigDecimal z) {
        BigDecimal sh = ZERO;
        while (z.compareTo(BigDecimal.valueOf(40)) < 0) {
            sh = sh.add(ONE.divide(z, WC), WC);
            z = z.add(ONE, WC);
        }
        BigDecimal s = bln(z).subtract(ONE.divide(TWO.multiply(z), WC), WC);
        BigDecimal z2 = z.multiply(z, WC), zp = z2;
        for (int k = 1; k <= 20; k++) {
            s = s.subtract(BERN[k].divide(zp.multiply(BigDecimal.valueOf(2L * k)), WC), WC);
            zp = zp.multiply(z2, WC);
        }
        return s.subtract(sh, WC);
    }

    static BigDecimal btrigamma(BigDecimal z) {
        BigDecimal sh = ZERO;
        while (z.compareTo(BigDecimal.valueOf(40)) < 0) {
            sh = sh.add(ONE.divide(z.multiply(z, WC), WC), WC);
            z = z.add(ONE, WC);
        }
        BigDecimal z2 = z.multiply(z, WC), zp = z2.multiply(z, WC);
        BigDecimal s = ONE.divide(z, WC).add(ONE.divide(TWO.multiply(z2), WC), WC);
        for (int k = 1; k <= 20; k++) {
            s = s.add(BERN[k].divide(zp, WC), WC);
            zp = zp.multiply(z2, WC);
        }
        return s.add(sh, WC);
    }
    static final BigDecimal EPS = new BigDecimal("1e-55");
    static final BigDecimal TINY = new BigDecimal("1e-2000");
    /** Regularised incomplete gamma, lower (or upper); a > 0, x >= 0. */
    static BigDecimal bgammainc(BigDecimal a, BigDecimal x, boolean upper) {
        if (x.signum() <= 0) return upper ? ONE : ZERO;
        X lp = f(a.multiply(bln(x), WC).subtract(x, WC).subtract(blngamma(a), WC));
        BigDecimal pre = exp(lp).v; // x^a e^-x / Gamma(a)
        if (x.compareTo(a.add(BigDecimal.valueOf(12))) < 0) {
            BigDecimal t = ONE.divide(a, WC), s = t, n = a;
            for (int i = 0; i < 20000; i++) {
                n = n.add(ONE, WC);
                t = t.multiply(x, WC).divide(n, WC);
                s = s.add(t, WC);
                if (t.compareTo(s.multiply(EPS)) < 0) break;
            }
            BigDecimal p = pre.multiply(s, WC);
            return upper ? ONE.subtract(p, WC) : p;
        }
        // Legendre's continued fraction for the upper function (modified Lentz).
        BigDecimal b = x.add(ONE, WC).subtract(a, WC), c = ONE.divide(TINY, WC);
        BigDecimal d = ONE.divide(b, WC), h = d;
        for (int i = 1; i < 20000; i++) {
            BigDecimal an = BigDecimal.valueOf(-i).multiply(BigDecimal.valueOf(i).subtract(a, WC), WC);
            b = b.add(TWO, WC);
            d = an.multiply(d, WC).add(b, WC);
            if (d.signum() == 0) d = TINY;
            c = b.add(an.divide(c, WC), WC);
            if (c.signum() == 0) c = TINY;
            d = ONE.divide(d, WC);
            BigDecimal del = d.multiply(c, WC);
            h = h.multiply(del, WC);
            if (del.subtract(ONE, WC).abs().compareTo(EPS) < 0) break;
        }
        BigDecimal q = pre.multiply(h, WC);
        return upper ? q : ONE.subtract(q, WC);
    }
    /** Regularised incomplete beta I_x(a, b). */
    static BigDecimal bbetainc(BigDecimal x, BigDecimal a, BigDecimal b) {
        if (x.signum() <= 0) return ZERO;
        if (x.compareTo(ONE) >= 0) return ONE;
        if (x.multiply(a.add(b).add(TWO)).compareTo(a.add(ONE)) > 0)
            return ONE.subtract(bbetainc(ONE.subtract(x, WC), b, a), WC);
        BigDecimal lp = a.multiply(bln(x), WC).add(b.multiply(bln(ONE.subtract(x, WC)), WC), WC)
            .add(blngamma(a.add(b)), WC).subtract(blngamma(a), WC).subtract(blngamma(b), WC);
        BigDecimal pre = exp(f(lp)).v.divide(a, WC);
        BigDecimal ab = a.add(b), ap = a.add(ONE), am = a.subtract(ONE);
        BigDecimal c = ONE, d = ONE.subtract(ab.multiply(x, WC).divide(ap, WC), WC);
        if (d.signum() == 0) d = TINY;
        d = ONE.divide(d, WC);
        BigDecimal h = d;
        for (int m = 1; m < 20000; m++) {
            BigDecimal bm = BigDecimal.valueOf(m), m2 = BigDecimal.valueOf(2L * m);
            BigDecimal aa = bm.multiply(b.subtract(bm), WC).multiply(x, WC).divide(am.add(m2).multiply(a.add(m2), WC), WC);
            d = ONE.add(aa.multiply(d, WC), WC); if (d.signum() == 0) d = TINY;
            c = ONE.add(aa.divide(c, WC), WC); if (c.signum() == 0) c = TINY;
            d = ONE.divide(d, WC);
            h = h.multiply(d.multiply(c, WC), WC);
            aa = a.add(bm).multiply(ab.add(bm), WC).multiply(x, WC).negate().divide(a.add(m2).multiply(ap.add(m2), WC), WC);
            d = ONE.add(aa.multiply(d, WC), WC); if (d.signum() == 0) d = TINY;
            c = ONE.add(aa.divide(c, WC), WC); if (c.signum() == 0) c = TINY;
            d = ONE.divide(d, WC);
            BigDecimal del = d.multiply(c, WC);
            h = h.multiply(del, WC);
            if (del.subtract(ONE, WC).abs().compareTo(EPS) < 0) break;
        }
        return pre.multiply(h, WC);
    }
    static BigDecimal berfc(BigDecimal z) {
        BigDecimal z2 = z.multiply(z, WC);
        if (z.signum() >= 0) return bgammainc(HALF, z2, true);
        return ONE.add(bgammainc(HALF, z2, false), WC);
    }

    // ---- operators (names as in Real.tla) --------------------------------
    public static Value RNorm(Value a) { return out(x(a)); }
    public static Value RAdd(Value a, Value b) { return out(add(x(a), x(b))); }
    public static Value RSub(Value a, Value b) { return out(sub(x(a), x(b))); }
    public static Value RMul(Value a, Value b) { return out(mul(x(a), x(b))); }
    public static Value RDiv(Value a, Value b) { return out(div(x(a), x(b))); }
    public static Value RNeg(Value a) { return out(neg(x(a))); }
    public static Value RAbs(Value a) { X p = x(a); return out(p.sgn() < 0 ? neg(p) : p); }
    public static Value RLt(Value a, Value b) { return bool(cmp(x(a), x(b)) == -1); }
    public static Value RLe(Value a, Value b) { int c = cmp(x(a), x(b)); return bool(c == -1 || c == 0); }
    public static Value REq(Value a, Value b) { return bool(cmp(x(a), x(b)) == 0); }
    public static Value RIsNaN(Value a) { return bool(x(a).nan()); }
    public static Value RIsFin(Value a) { return bool(x(a).fin()); }
    public static Value RMax(Value a, Value b) { X p = x(a), q = x(b); int c = cmp(p, q); return out(c == 2 ? NAN : c >= 0 ? p : q); }
    public static Value RMin(Value a, Value b) { X p = x(a), q = x(b); int c = cmp(p, q); return out(c == 2 ? NAN : c <= 0 ? p : q); }
    public static Value RFloor(Value a) {
        X p = x(a);
        return out(p.fin() ? f(p.v.setScale(0, RoundingMode.FLOOR)) : p);
    }
    public static Value RIsInt(Value a) {
        X p = x(a);
        return bool(p.fin() && p.v.setScale(0, RoundingMode.FLOOR).compareTo(p.v) == 0);
    }
    public static Value RToInt(Value a) {
        X p = x(a);
        return IntValue.gen(p.v.setScale(0, RoundingMode.HALF_EVEN).intValueExact());
    }
    public static Value RSqrt(Value a) {
        X p = x(a);
        if (p.nan() || p.sgn() < 0) return out(NAN);
        return out(p.fin() ? f(p.v.sqrt(WC)) : p);
    }
    public static Value RExp(Value a) { return out(exp(x(a))); }
    public static Value RLn(Value a) { return out(ln(x(a))); }
    public static Value RPow(Value a, Value b) {
        X p = x(a), q = x(b);
        if (p.nan() || q.nan()) return out(NAN);
        if (q.fin() && q.v.signum() == 0) return out(f(ONE));
        if (p.fin() && q.fin()) {
            if (p.v.signum() == 0) return out(q.v.signum() > 0 ? f(ZERO) : PINF);
            boolean isInt = q.v.stripTrailingZeros().scale() <= 0;
            if (isInt && q.v.abs().compareTo(BigDecimal.valueOf(10000)) <= 0) {
                int n = q.v.intValueExact();
                BigDecimal r = p.v.pow(Math.abs(n), WC);
                return out(n >= 0 ? f(r) : f(ONE.divide(r, WC)));
            }
            if (p.v.signum() < 0) return out(NAN);
            return out(exp(f(q.v.multiply(bln(p.v), WC))));
        }
        return out(exp(mul(q, ln(p))));
    }
    public static Value RSin(Value a) { X p = x(a); return out(p.fin() ? f(bsincos(p.v)[0]) : NAN); }
    public static Value RCos(Value a) { X p = x(a); return out(p.fin() ? f(bsincos(p.v)[1]) : NAN); }
    public static Value RAtan(Value a) {
        X p = x(a);
        if (p.nan()) return out(NAN);
        if (!p.fin()) { BigDecimal h = PI.multiply(HALF, WC); return out(f(p.kind > 0 ? h : h.negate())); }
        return out(f(batan(p.v)));
    }
    public static Value RPi() { return out(f(PI)); }
    public static Value RLnGamma(Value a) { X p = x(a); return out(p.fin() && p.v.signum() > 0 ? f(blngamma(p.v)) : NAN); }
    public static Value RDigamma(Value a) { X p = x(a); return out(p.fin() && p.v.signum() > 0 ? f(bdigamma(p.v)) : NAN); }

    public static Value RTrigamma(Value a) { X p = x(a); return out(p.fin() && p.v.signum() > 0 ? f(btrigamma(p.v)) : NAN); }
    static Value ginc(Value a, Value b, boolean up) {
        X p = x(a), q = x(b);
        if (!p.fin() || p.v.signum() <= 0 || q.nan()) return out(NAN);
        if (!q.fin()) return out(f((q.kind > 0) != up ? ONE : ZERO));
        return out(f(bgammainc(p.v, q.v, up)));
    }
    public static Value RGammaP(Value a, Value b) { return ginc(a, b, false); }
    public static Value RGammaQ(Value a, Value b) { return ginc(a, b, true); }
    public static Value RBetaI(Value v, Value a, Value b) {
        X p = x(a), q = x(b), z = x(v);
        if (!p.fin() || !q.fin() || z.nan() || p.v.signum() <= 0 || q.v.signum() <= 0) return out(NAN);
        if (!z.fin()) return out(f(z.kind > 0 ? ONE : ZERO));
        return out(f(bbetainc(z.v, p.v, q.v)));
    }
    public static Value RErfc(Value a) {
        X p = x(a);
        if (p.nan()) return out(NAN);
        if (!p.fin()) return out(f(p.kind > 0 ? ZERO : TWO));
        return out(f(berfc(p.v)));
    }
    /** ln(exp a + exp b) stays with the caller; this is ln Gamma's sibling ln B(a, b). */
    public static Value RLnBeta(Value a, Value b) {
        X p = x(a), q = x(b);
        if (!p.fin() || !q.fin() || p.v.signum() <= 0 || q.v.signum() <= 0) return out(NAN);
        return out(f(blngamma(p.v).add(blngamma(q.v), WC).subtract(blngamma(p.v.add(q.v)), WC)));
    }

    /** |a - b| <= abs + rel * max(|a|, |b|); infinities only match themselves. */
    public static Value RNear(Value a, Value b, Value rel, Value abs) {
        return bool(near(x(a), x(b), x(rel), x(abs)));
    }
    static boolean near(X p, X q, X rel, X abs) {
        if (p.nan() || q.nan()) return false;
        if (!p.fin() || !q.fin()) return p.kind == q.kind;
        BigDecimal m = p.v.abs().max(q.v.abs());
        return p.v.subtract(q.v).abs().compareTo(abs.v.add(rel.v.multiply(m))) <= 0;
    }
    static X[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        X[] r = new X[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = x(t.elems[i]);
        return r;
    }
    public static Value RSum(Value s) {
        X a = f(ZERO);
        for (X e : seq(s)) a = add(a, e);
        return out(a);
    }
    public static Value RDot(Value s, Value t) {
        X[] p = seq(s), q = seq(t);
        if (p.length != q.length) return out(NAN);
        X a = f(ZERO);
        for (int i = 0; i < p.length; i++) a = add(a, mul(p[i], q[i]));
        return out(a);
    }
    /** Pointwise a[i] op b[i] lifted to sequences: product, and difference to a scalar. */
    public static Value RMulSeq(Value s, Value t) {
        X[] p = seq(s), q = seq(t);
        Value[] r = new Value[Math.min(p.length, q.length)];
        for (int i = 0; i < r.length; i++) r[i] = out(mul(p[i], q[i]));
        return new TupleValue(r);
    }
    public static Value RSubSeq(Value s, Value c) {
        X[] p = seq(s);
        X q = x(c);
        Value[] r = new Value[p.length];
        for (int i = 0; i < r.length; i++) r[i] = out(sub(p[i], q));
        return new TupleValue(r);
    }
    public static Value RLnSeq(Value s) {
        X[] p = seq(s);
        Value[] r = new Value[p.length];
        for (int i = 0; i < r.length; i++) r[i] = out(ln(p[i]));
        return new TupleValue(r);
    }
    public static Value RIsSeq(Value s) { return bool(s instanceof TupleValue || s.toTuple() != null); }
    /** Remainder of the doubles nearest to a and b, truncated towards zero; exact. */
    public static Value RRem(Value a, Value b) {
        X p = x(a), q = x(b);
        if (p.nan() || q.nan() || !p.fin()) return out(NAN);
        if (!q.fin()) return out(p);
        if (q.v.signum() == 0) return out(NAN);
        BigDecimal u = new BigDecimal(p.v.doubleValue()), w = new BigDecimal(q.v.doubleValue());
        return out(f(u.remainder(w)));
    }
    /** The double nearest to a, to the 50 digits numbers are handed on with. */
    public static Value RFloat(Value a) {
        X p = x(a);
        double d = p.fin() ? p.v.doubleValue() : 0; return out(p.fin() && !Double.isInfinite(d) ? f(new BigDecimal(d)) : p);
    }
}
