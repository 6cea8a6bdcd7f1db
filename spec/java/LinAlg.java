import tlc2.value.impl.*;

/** TLC module override of LinAlg.tla. */
public class LinAlg {
    static double[] v(Value x) {
        TupleValue t = (TupleValue) x.toTuple();
        double[] r = new double[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = F64.d(t.elems[i]);
        return r;
    }
    static double[][] m(Value x) {
        TupleValue t = (TupleValue) x.toTuple();
        double[][] r = new double[t.elems.length][];
        for (int i = 0; i < r.length; i++) r[i] = v(t.elems[i]);
        return r;
    }
    static Value tv(double[] x) {
        Value[] r = new Value[x.length];
        for (int i = 0; i < r.length; i++) r[i] = F64.s(x[i]);
        return new TupleValue(r);
    }
    static Value tm(double[][] x) {
        Value[] r = new Value[x.length];
        for (int i = 0; i < r.length; i++) r[i] = tv(x[i]);
        return new TupleValue(r);
    }
    static double sum(double[] x) { double s = 0; for (double y : x) s += y; return s; }
    static boolean fin(double x) { return !Double.isNaN(x) && !Double.isInfinite(x); }

    public static Value FSumSeq(Value a) { return F64.s(sum(v(a))); }
    public static Value FMaxSeq(Value a) { double s = 0; for (double y : v(a)) s = Double.isNaN(y) ? s : Math.max(s, y); return F64.s(s); }

    public static Value VAdd(Value a, Value b) { double[] x = v(a), y = v(b); for (int i = 0; i < x.length; i++) x[i] += y[i]; return tv(x); }
    public static Value VSub(Value a, Value b) { double[] x = v(a), y = v(b); for (int i = 0; i < x.length; i++) x[i] -= y[i]; return tv(x); }
    public static Value VScale(Value a, Value b) { double s = F64.d(a); double[] x = v(b); for (int i = 0; i < x.length; i++) x[i] = s * x[i]; return tv(x); }
    public static Value VNeg(Value b) { double[] x = v(b); for (int i = 0; i < x.length; i++) x[i] = -x[i]; return tv(x); }
    public static Value VAbs(Value b) { double[] x = v(b); for (int i = 0; i < x.length; i++) x[i] = Math.abs(x[i]); return tv(x); }
    static double dot(double[] x, double[] y) { double s = 0; for (int i = 0; i < x.length; i++) s += x[i] * y[i]; return s; }
    static double adot(double[] x, double[] y) { double s = 0; for (int i = 0; i < x.length; i++) s += Math.abs(x[i] * y[i]); return s; }
    public static Value Dot(Value a, Value b) { return F64.s(dot(v(a), v(b))); }
    public static Value AbsDot(Value a, Value b) { return F64.s(adot(v(a), v(b))); }
    public static Value VNorm(Value a) { double s = 0; for (double y : v(a)) s = Double.isNaN(y) ? s : Math.max(s, Math.abs(y)); return F64.s(s); }
    public static Value VFinite(Value a) { for (double y : v(a)) if (!fin(y)) return F64.b(false); return F64.b(true); }
    public static Value VHasNaN(Value a) { for (double y : v(a)) if (Double.isNaN(y)) return F64.b(true); return F64.b(false); }
    public static Value VSame(Value a, Value b) {
        double[] x = v(a), y = v(b);
        if (x.length != y.length) return F64.b(false);
        for (int i = 0; i < x.length; i++) if (!F64.same(x[i], y[i])) return F64.b(false);
        return F64.b(true);
    }

    public static Value MV(Value a, Value b) { double[][] x = m(a); double[] y = v(b), r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = dot(x[i], y); return tv(r); }
    public static Value TMV(Value a, Value b) {
        double[][] x = m(a); double[] y = v(b), r = new double[x.length];
        for (int j = 0; j < r.length; j++) { double s = 0; for (int i = 0; i < r.length; i++) s += x[i][j] * y[i]; r[j] = s; }
        return tv(r);
    }
    public static Value AbsMV(Value a, Value b) { double[][] x = m(a); double[] y = v(b), r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = adot(x[i], y); return tv(r); }
    public static Value MSub(Value a, Value b) { double[][] x = m(a), y = m(b); for (int i = 0; i < x.length; i++) for (int j = 0; j < x.length; j++) x[i][j] -= y[i][j]; return tm(x); }
    public static Value MScale(Value a, Value b) { double s = F64.d(a); double[][] x = m(b); for (int i = 0; i < x.length; i++) for (int j = 0; j < x.length; j++) x[i][j] = s * x[i][j]; return tm(x); }
    public static Value Outer(Value a, Value b) {
        double[] x = v(a), y = v(b); double[][] r = new double[x.length][y.length];
        for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i][j] = x[i] * y[j];
        return tm(r);
    }
    public static Value MNorm(Value a) { double s = 0; for (double[] row : m(a)) { double t = 0; for (double y : row) t += Math.abs(y); s = Double.isNaN(t) ? s : Math.max(s, t); } return F64.s(s); }
    public static Value MFinite(Value a) { for (double[] r : m(a)) for (double y : r) if (!fin(y)) return F64.b(false); return F64.b(true); }
    public static Value FromCols(Value a) {
        double[][] x = m(a), r = new double[x.length][x.length];
        for (int i = 0; i < x.length; i++) for (int j = 0; j < x.length; j++) r[i][j] = x[j][i];
        return tm(r);
    }
    public static Value MMul(Value a, Value b) {
        double[][] x = m(a), y = m(b), r = new double[x.length][x.length];
        for (int i = 0; i < x.length; i++) for (int j = 0; j < x.length; j++) { double s = 0; for (int l = 0; l < x.length; l++) s += x[i][l] * y[l][j]; r[i][j] = s; }
        return tm(r);
    }
    static double[][] inverse(double[][] m) {
        int n = m.length;
        double[][] b = new double[n][n];
        for (int i = 0; i < n; i++) b[i][i] = 1.0;
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++) if (Math.abs(m[p][k]) < Math.abs(m[i][k])) p = i;
            double[] t = m[k]; m[k] = m[p]; m[p] = t;
            t = b[k]; b[k] = b[p]; b[p] = t;
            if (m[k][k] == 0.0) return null;
            double piv = m[k][k];
            for (int i = 0; i < n; i++) if (i != k) {
                double f = m[i][k] / piv;
                for (int j = 0; j < n; j++) { m[i][j] -= f * m[k][j]; b[i][j] -= f * b[k][j]; }
            }
            for (int j = 0; j < n; j++) { m[k][j] /= piv; b[k][j] /= piv; }
        }
        return b;
    }
    public static Value Inverse(Value a) { double[][] r = inverse(m(a)); return r == null ? new TupleValue(new Value[0]) : tm(r); }
    static boolean twin(double[] u, double[] v) {
        boolean e = true, o = true, z = true;
        for (int i = 0; i < u.length; i++) { if (u[i] != v[i]) e = false; if (u[i] != -v[i]) o = false; }
        return e || o;
    }
    static boolean zero(double[] u) { for (double y : u) if (y != 0.0) return false; return true; }
    public static Value PlainlySingular(Value a) {
        double[][] x = m(a); int n = x.length; double[][] c = new double[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c[i][j] = x[j][i];
        for (int i = 0; i < n; i++) if (zero(x[i]) || zero(c[i])) return F64.b(true);
        return F64.b(false);
    }
}
