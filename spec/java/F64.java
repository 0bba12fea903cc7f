import tlc2.value.impl.*;
import tlc2.value.impl.Value;

/** Java override of spec/F64.tla: primitive IEEE double operations only. */
public class F64 {
    public static final long serialVersionUID = 20240601L;

    static final class Dbl extends UserObj implements java.io.Serializable {
        final double v;
        Dbl(double v) { this.v = v; }
        @Override public int compareTo(Value o) {
            return Double.compare(v, d(o));
        }
        @Override public boolean member(Value o) { throw new RuntimeException("F64 is not a set"); }
        @Override public boolean isFinite() { return true; }
        @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
            return sb.append('"').append(str(v)).append('"');
        }
    }

    static String str(double v) {
        if (Double.isNaN(v)) return "nan";
        if (Double.isInfinite(v)) return v > 0 ? "inf" : "-inf";
        return Double.toString(v);
    }

    static Value r(double v) { return new UserValue(new Dbl(v)); }
    static BoolValue b(boolean v) { return v ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static double d(Value x) {
        if (x instanceof UserValue && ((UserValue) x).userObj instanceof Dbl)
            return ((Dbl) ((UserValue) x).userObj).v;
        if (x instanceof IntValue) return ((IntValue) x).val;
        if (x instanceof StringValue) {
            String s = ((StringValue) x).val.toString();
            switch (s) {
                case "nan": case "NaN": case "-nan": return Double.NaN;
                case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
                case "-inf": return Double.NEGATIVE_INFINITY;
                default:
                    try { return Double.parseDouble(s); }
                    catch (NumberFormatException e) { return Double.NaN; }
            }
        }
        if (x instanceof LazyValue) {
            throw new RuntimeException("F64: lazy value");
        }
        // anything that is not a number (a boolean, a record, a sequence) is not a number
        return Double.NaN;
    }

    public static Value Real(Value a) { return r(d(a)); }
    public static Value AddR(Value a, Value c) { return r(d(a) + d(c)); }
    public static Value SubR(Value a, Value c) { return r(d(a) - d(c)); }
    public static Value MulR(Value a, Value c) { return r(d(a) * d(c)); }
    public static Value DivR(Value a, Value c) { return r(d(a) / d(c)); }
    public static Value NegR(Value a) { return r(-d(a)); }
    public static Value AbsR(Value a) { return r(Math.abs(d(a))); }
    public static Value Sgn(Value a) { return r(Math.signum(d(a))); }
    public static Value Sqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value Exp(Value a) { return r(Math.exp(d(a))); }
    public static Value Ln(Value a) { return r(Math.log(d(a))); }
    public static Value Pow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
    public static Value Sin(Value a) { return r(Math.sin(d(a))); }
    public static Value Cos(Value a) { return r(Math.cos(d(a))); }
    public static Value Tan(Value a) { return r(Math.tan(d(a))); }
    public static Value Acos(Value a) { return r(Math.acos(d(a))); }
    public static Value Cosh(Value a) { return r(Math.cosh(d(a))); }
    public static Value Sinh(Value a) { return r(Math.sinh(d(a))); }
    public static Value Tanh(Value a) { return r(Math.tanh(d(a))); }
    public static Value MaxR(Value a, Value c) { return r(Math.max(d(a), d(c))); }
    public static Value MinR(Value a, Value c) { return r(Math.min(d(a), d(c))); }
    public static Value Lt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value Le(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value EqR(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value IsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value IsFin(Value a) { double v = d(a); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
    public static Value Str(Value a) { return new StringValue(str(d(a))); }
    public static Value CloseRel(Value a, Value c, Value t) {
        double x = d(a), y = d(c);
        return b(x == y || Math.abs(x - y) <= d(t) * Math.max(Math.abs(x), Math.abs(y))
                 && !Double.isInfinite(x) && !Double.isInfinite(y));
    }
    public static Value CloseAbs(Value a, Value c, Value t) {
        double x = d(a), y = d(c);
        return b(x == y || Math.abs(x - y) <= d(t) && !Double.isInfinite(x) && !Double.isInfinite(y));
    }
    public static Value SameR(Value a, Value c) {
        double x = d(a), y = d(c);
        return b(x == y || Double.isNaN(x) && Double.isNaN(y));
    }
}
