import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC module override of F64.tla: one Java double expression per operator. */
public class F64 {
    static double d(Value v) {
        String s = ((StringValue) v).val.toString();
        switch (s) {
            case "inf": return Double.POSITIVE_INFINITY;
            case "-inf": return Double.NEGATIVE_INFINITY;
            default: return Double.parseDouble(s);
        }
    }
    static Value s(double x) { return new StringValue(Double.toString(x)); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value FAdd(Value a, Value b) { return s(d(a) + d(b)); }
    public static Value FSub(Value a, Value b) { return s(d(a) - d(b)); }
    public static Value FMul(Value a, Value b) { return s(d(a) * d(b)); }
    public static Value FDiv(Value a, Value b) { return s(d(a) / d(b)); }
    public static Value FNeg(Value a) { return s(-d(a)); }
    public static Value FAbs(Value a) { return s(Math.abs(d(a))); }
    public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
    public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
    public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
    public static Value FSame(Value a, Value b) { return b(same(d(a), d(b))); }
    public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value FMin(Value a, Value b) { double x = d(a), y = d(b); return s(Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.min(x, y)); }
    public static Value FMax(Value a, Value b) { double x = d(a), y = d(b); return s(Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.max(x, y)); }
    public static Value FSignum(Value a) { double x = d(a); return s(Double.isNaN(x) ? x : Math.copySign(1.0, x)); }
    public static Value FClose(Value a, Value b, Value rel, Value abs) { return b(close(d(a), d(b), d(rel), d(abs))); }

    static boolean same(double x, double y) {
        if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
        return Double.doubleToLongBits(x) == Double.doubleToLongBits(y);
    }
    static boolean close(double x, double y, double rel, double abs) {
        if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
        if (x == y) return true;
        if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
        return Math.abs(x - y) <= abs + rel * Math.max(Math.abs(x), Math.abs(y));
    }
}
