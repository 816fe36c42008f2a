package tlc2.overrides;

import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluation of the operators of Dec.tla (real numbers as decimal strings). */
public final class DecOps implements ITLCOverrides {

    private static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);

    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {DecOps.class};
    }

    /** null stands for "not a number". */
    private static BigDecimal dec(final Value v) {
        if (v instanceof IntValue) {
            return new BigDecimal(((IntValue) v).val);
        }
        final String s = ((StringValue) v.normalize()).val.toString();
        try {
            return new BigDecimal(s);
        } catch (final NumberFormatException e) {
            return null;
        }
    }

    private static Value str(final BigDecimal d) {
        return new StringValue(d == null ? "nan" : d.round(MC).toString());
    }

    private static Value[] seq(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        return t.elems;
    }

    @TLAPlusOperator(identifier = "DAdd", module = "Dec", warn = false)
    public static Value add(final Value a, final Value b) {
        final BigDecimal x = dec(a), y = dec(b);
        return str(x == null || y == null ? null : x.add(y, MC));
    }

    @TLAPlusOperator(identifier = "DSub", module = "Dec", warn = false)
    public static Value sub(final Value a, final Value b) {
        final BigDecimal x = dec(a), y = dec(b);
        return str(x == null || y == null ? null : x.subtract(y, MC));
    }

    @TLAPlusOperator(identifier = "DMul", module = "Dec", warn = false)
    public static Value mul(final Value a, final Value b) {
        final BigDecimal x = dec(a), y = dec(b);
        return str(x == null || y == null ? null : x.multiply(y, MC));
    }

    @TLAPlusOperator(identifier = "DDiv", module = "Dec", warn = false)
    public static Value div(final Value a, final Value b) {
        final BigDecimal x = dec(a), y = dec(b);
        return str(x == null || y == null || y.signum() == 0 ? null : x.divide(y, MC));
    }

    @TLAPlusOperator(identifier = "DSqrt", module = "Dec", warn = false)
    public static Value sqrt(final Value a) {
        final BigDecimal x = dec(a);
        return str(x == null || x.signum() < 0 ? null : x.sqrt(MC));
    }

    @TLAPlusOperator(identifier = "DInt", module = "Dec", warn = false)
    public static Value of(final Value a) {
        return str(dec(a));
    }

    @TLAPlusOperator(identifier = "DLe", module = "Dec", warn = false)
    public static Value le(final Value a, final Value b) {
        final BigDecimal x = dec(a), y = dec(b);
        return x != null && y != null && x.compareTo(y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "DLt", module = "Dec", warn = false)
    public static Value lt(final Value a, final Value b) {
        final BigDecimal x = dec(a), y = dec(b);
        return x != null && y != null && x.compareTo(y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "DSum", module = "Dec", warn = false)
    public static Value sum(final Value s) {
        BigDecimal acc = BigDecimal.ZERO;
        for (final Value e : seq(s)) {
            final BigDecimal x = dec(e);
            if (x == null) {
                return str(null);
            }
            acc = acc.add(x, MC);
        }
        return str(acc);
    }

    @TLAPlusOperator(identifier = "DDot", module = "Dec", warn = false)
    public static Value dot(final Value s, final Value t) {
        final Value[] a = seq(s), b = seq(t);
        BigDecimal acc = BigDecimal.ZERO;
        for (int i = 0; i < Math.max(a.length, b.length); i++) {
            final BigDecimal x = dec(a[i]), y = dec(b[i]);
            if (x == null || y == null) {
                return str(null);
            }
            acc = acc.add(x.multiply(y, MC), MC);
        }
        return str(acc);
    }

    @TLAPlusOperator(identifier = "DMaxAbs", module = "Dec", warn = false)
    public static Value maxabs(final Value s) {
        BigDecimal acc = BigDecimal.ZERO;
        for (final Value e : seq(s)) {
            final BigDecimal x = dec(e);
            if (x == null) {
                return str(null);
            }
            acc = acc.max(x.abs());
        }
        return str(acc);
    }

    // ------------------------------------------------------------------------
    // elementary functions (series on reduced arguments, guard digits)
    // ------------------------------------------------------------------------

    private static final MathContext GC = new MathContext(48, RoundingMode.HALF_EVEN);
    private static final BigDecimal ONE = BigDecimal.ONE;
    private static final BigDecimal TWO = BigDecimal.valueOf(2);
    private static final BigDecimal EPS = new BigDecimal("1e-50");
    private static final BigDecimal LN2 = TWO.multiply(atanhSeries(ONE.divide(BigDecimal.valueOf(3), GC)), GC);
    private static final BigDecimal PI = BigDecimal.valueOf(16).multiply(atanSeries(ONE.divide(BigDecimal.valueOf(5), GC)), GC)
        .subtract(BigDecimal.valueOf(4).multiply(atanSeries(ONE.divide(BigDecimal.valueOf(239), GC)), GC), GC);

    private static BigDecimal atanhSeries(final BigDecimal z) {
        return series(z, 1);
    }

    private static BigDecimal atanSeries(final BigDecimal z) {
        return series(z, -1);
    }

    /** sum of sign^k z^(2k+1)/(2k+1) */
    private static BigDecimal series(final BigDecimal z, final int sign) {
        final BigDecimal q = z.multiply(z, GC);
        BigDecimal pow = z, acc = z;
        int s = 1;
        for (int k = 3; pow.abs().compareTo(EPS) > 0; k += 2) {
            pow = pow.multiply(q, GC);
            s *= sign;
            final BigDecimal t = pow.divide(BigDecimal.valueOf(k), GC);
            acc = s > 0 ? acc.add(t, GC) : acc.subtract(t, GC);
        }
        return acc;
    }

    private static BigDecimal ln(final BigDecimal x) {
        final double v = Math.log10(x.unscaledValue().doubleValue()) - x.scale();
        final int k = (int) Math.round(v / Math.log10(2));
        final BigDecimal p = TWO.pow(Math.abs(k), GC);
        final BigDecimal m = k >= 0 ? x.divide(p, GC) : x.multiply(p, GC);
        final BigDecimal z = m.subtract(ONE).divide(m.add(ONE), GC);
        return TWO.multiply(atanhSeries(z), GC).add(LN2.multiply(BigDecimal.valueOf(k), GC), GC);
    }

    private static BigDecimal atan(final BigDecimal x) {
        if (x.signum() < 0) {
            return atan(x.negate()).negate();
        }
        if (x.compareTo(ONE) > 0) {
            return PI.divide(TWO, GC).subtract(atan(ONE.divide(x, GC)), GC);
        }
        BigDecimal y = x;
        for (int k = 0; k < 2; k++) {
            y = y.divide(ONE.add(ONE.add(y.multiply(y, GC)).sqrt(GC)), GC);
        }
        return BigDecimal.valueOf(4).multiply(atanSeries(y), GC);
    }

    @TLAPlusOperator(identifier = "DLn", module = "Dec", warn = false)
    public static Value dln(final Value a) {
        final BigDecimal x = dec(a);
        return str(x == null || x.signum() <= 0 ? null : ln(x));
    }

    @TLAPlusOperator(identifier = "DAtan", module = "Dec", warn = false)
    public static Value datan(final Value a) {
        final BigDecimal x = dec(a);
        return str(x == null ? null : atan(x));
    }

    /** cosine and sine of a fraction p/q of a turn */
    private static BigDecimal turn(final Value p, final Value q, final boolean sine) {
        long a = ((IntValue) p).val, b = ((IntValue) q).val;
        a = Math.floorMod(a, b);
        if (2 * a > b) {
            a -= b;
        }
        final BigDecimal x = TWO.multiply(PI, GC).multiply(BigDecimal.valueOf(a), GC).divide(BigDecimal.valueOf(b), GC);
        final BigDecimal q2 = x.multiply(x, GC).negate();
        BigDecimal term = sine ? x : ONE, acc = term;
        for (int k = sine ? 2 : 1; k < 400; k += 2) {
            term = term.multiply(q2, GC).divide(BigDecimal.valueOf((long) k * (k + 1)), GC);
            acc = acc.add(term, GC);
            if (term.abs().compareTo(EPS) < 0) {
                break;
            }
        }
        return acc;
    }

    @TLAPlusOperator(identifier = "DTurnCos", module = "Dec", warn = false)
    public static Value turncos(final Value p, final Value q) {
        return str(turn(p, q, false));
    }

    @TLAPlusOperator(identifier = "DTurnSin", module = "Dec", warn = false)
    public static Value turnsin(final Value p, final Value q) {
        return str(turn(p, q, true));
    }
}
