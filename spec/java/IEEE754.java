import tlc2.value.impl.*;
import util.UniqueString;

public class IEEE754 {
    private static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    private static Value v(double x) {
        if (x == 0.0) x = 0.0; // canonical zero
        long b = Double.doubleToLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(Value s) { return ((TupleValue) s.toTuple()).elems; }
    public static Value FInt(Value i) { return v(((IntValue) i).val); }
    public static Value FRat(Value p, Value q) { return v((double) ((IntValue) p).val / ((IntValue) q).val); }
    public static Value FAdd(Value x, Value y) { return v(d(x) + d(y)); }
    public static Value FSub(Value x, Value y) { return v(d(x) - d(y)); }
    public static Value FMul(Value x, Value y) { return v(d(x) * d(y)); }
    public static Value FDiv(Value x, Value y) { return v(d(x) / d(y)); }
    public static Value FNeg(Value x) { return v(-d(x)); }
    public static Value FAbs(Value x) { return v(Math.abs(d(x))); }
    public static Value FSqrt(Value x) { return v(Math.sqrt(d(x))); }
    public static Value FExp(Value x) { return v(Math.exp(d(x))); }
    public static Value FLog(Value x) { return v(Math.log(d(x))); }
    public static Value FPow(Value x, Value y) { return v(Math.pow(d(x), d(y))); }
    public static Value FMin(Value x, Value y) { return v(Math.min(d(x), d(y))); }
    public static Value FMax(Value x, Value y) { return v(Math.max(d(x), d(y))); }
    public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value FIsNaN(Value x) { return b(Double.isNaN(d(x))); }
    public static Value FIsFinite(Value x) { double a = d(x); return b(!Double.isNaN(a) && !Double.isInfinite(a)); }
    public static Value FCeil(Value x) { return IntValue.gen((int) Math.ceil(d(x))); }
    public static Value FFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
    public static Value FSum(Value s) { double r = 0; for (Value e : seq(s)) r += d(e); return v(r); }
    public static Value FDot(Value s, Value t) {
        Value[] x = seq(s), y = seq(t); double r = 0;
        for (int i = 0; i < x.length; i++) r += d(x[i]) * d(y[i]);
        return v(r);
    }
    public static Value FSolve(Value A, Value rhs) {
        Value[] rows = seq(A), r = seq(rhs); int n = r.length;
        double[][] m = new double[n][n + 1];
        for (int i = 0; i < n; i++) {
            Value[] row = seq(rows[i]);
            for (int j = 0; j < n; j++) m[i][j] = d(row[j]);
            m[i][n] = d(r[i]);
        }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) if (Math.abs(m[i][c]) > Math.abs(m[p][c])) p = i;
            double[] t = m[c]; m[c] = m[p]; m[p] = t;
            for (int i = c + 1; i < n; i++) {
                double f = m[i][c] / m[c][c];
                for (int j = c; j <= n; j++) m[i][j] -= f * m[c][j];
            }
        }
        double[] x = new double[n];
        for (int i = n - 1; i >= 0; i--) {
            double s = m[i][n];
            for (int j = i + 1; j < n; j++) s -= m[i][j] * x[j];
            x[i] = s / m[i][i];
        }
        Value[] out = new Value[n];
        for (int i = 0; i < n; i++) out[i] = v(x[i]);
        return new TupleValue(out);
    }
    public static Value FSingle(Value x) { return v((double) (float) d(x)); }
    public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
    public static Value FClose(Value x, Value y, Value tol) {
        double a = d(x), c = d(y);
        if (Double.isNaN(a) || Double.isNaN(c)) return b(Double.isNaN(a) && Double.isNaN(c));
        if (a == c) return BoolValue.ValTrue;
        if (Double.isInfinite(a) || Double.isInfinite(c)) return BoolValue.ValFalse;
        double t = ((IntValue) tol).val * Math.pow(2, -40);
        return b(Math.abs(a - c) <= t * Math.max(1, Math.max(Math.abs(a), Math.abs(c))));
    }
}
