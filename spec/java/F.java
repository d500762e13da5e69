import tlc2.value.impl.*;
import tlc2.value.IValue;

/** TLC overrides of module F: reals as strings, evaluated in IEEE doubles. */
public class F {
    private static double d(final Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        final String s = ((StringValue) v).val.toString();
        return parse(s);
    }
    private static double parse(final String s) {
        switch (s) {
            case "inf": return Double.POSITIVE_INFINITY;
            case "-inf": return Double.NEGATIVE_INFINITY;
            case "nan": return Double.NaN;
            default: return Double.parseDouble(s);
        }
    }
    private static Value s(final double x) {
        final String t;
        if (Double.isNaN(x)) t = "nan";
        else if (x == Double.POSITIVE_INFINITY) t = "inf";
        else if (x == Double.NEGATIVE_INFINITY) t = "-inf";
        else t = Double.toString(x);
        return new StringValue(t);
    }
    private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static double[] seq(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final double[] r = new double[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = d((Value) t.elems[i]);
        return r;
    }
    public static Value FInt(final Value a) { return s(d(a)); }
    public static Value FFloor(final Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    public static Value FRound(final Value a) {
        final double x = d(a);
        return IntValue.gen((int) (x >= 0 ? Math.floor(x + 0.5) : Math.ceil(x - 0.5)));
    }
    public static Value FAdd(final Value a, final Value b) { return s(d(a) + d(b)); }
    public static Value FSub(final Value a, final Value b) { return s(d(a) - d(b)); }
    public static Value FMul(final Value a, final Value b) { return s(d(a) * d(b)); }
    public static Value FDiv(final Value a, final Value b) { return s(d(a) / d(b)); }
    public static Value FMod(final Value a, final Value b) {
        final double m = d(b); double r = d(a) % m;
        if (r != 0 && (r < 0) != (m < 0)) r += m;
        return s(r);
    }
    public static Value FPow(final Value a, final Value b) { return s(Math.pow(d(a), d(b))); }
    public static Value FNeg(final Value a) { return s(-d(a)); }
    public static Value FAbs(final Value a) { return s(Math.abs(d(a))); }
    public static Value FSqrt(final Value a) { return s(Math.sqrt(d(a))); }
    public static Value FLog10(final Value a) { return s(Math.log10(d(a))); }
    public static Value FExp(final Value a) { return s(Math.exp(d(a))); }
    public static Value FSin(final Value a) { return s(Math.sin(d(a))); }
    public static Value FCos(final Value a) { return s(Math.cos(d(a))); }
    public static Value FTan(final Value a) { return s(Math.tan(d(a))); }
    public static Value FAsin(final Value a) { return s(Math.asin(Math.max(-1, Math.min(1, d(a))))); }
    public static Value FAcos(final Value a) { return s(Math.acos(Math.max(-1, Math.min(1, d(a))))); }
    public static Value FAtan(final Value a) { return s(Math.atan(d(a))); }
    public static Value FAtan2(final Value a, final Value b) { return s(Math.atan2(d(a), d(b))); }
    public static Value FRad(final Value a) { return s(Math.toRadians(d(a))); }
    public static Value FDeg(final Value a) { return s(Math.toDegrees(d(a))); }
    public static Value FMin2(final Value a, final Value b) { return s(Math.min(d(a), d(b))); }
    public static Value FMax2(final Value a, final Value b) { return s(Math.max(d(a), d(b))); }
    public static Value FLt(final Value a, final Value b) { return b(d(a) < d(b)); }
    public static Value FLe(final Value a, final Value b) { return b(d(a) <= d(b)); }
    public static Value FNear(final Value a, final Value c, final Value t) {
        final double x = d(a), y = d(c);
        if (x == y) return b(true);
        if (Double.isNaN(x) && Double.isNaN(y)) return b(true);
        if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
        return b(Math.abs(x - y) <= d(t) * Math.max(1, Math.max(Math.abs(x), Math.abs(y))));
    }
    public static Value FLeT(final Value a, final Value c, final Value t) {
        final double x = d(a), y = d(c);
        if (x <= y) return b(true);
        if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
        return b(x <= y + d(t) * Math.max(1, Math.max(Math.abs(x), Math.abs(y))));
    }
    public static Value FIsFinite(final Value a) {
        final double x = d(a);
        return b(!Double.isNaN(x) && !Double.isInfinite(x));
    }
    public static Value FSumSeq(final Value a) {
        double r = 0; for (final double x : seq(a)) r += x; return s(r);
    }
    public static Value FMinSeq(final Value a) {
        double r = Double.POSITIVE_INFINITY; for (final double x : seq(a)) r = Math.min(r, x); return s(r);
    }
    public static Value FMaxSeq(final Value a) {
        double r = Double.NEGATIVE_INFINITY; for (final double x : seq(a)) r = Math.max(r, x); return s(r);
    }
}
