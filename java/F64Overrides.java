// IEEE-754 binary64 arithmetic for TLC.
//
// A double is represented in TLA+ by the pair <<hi, lo>> of the two signed
// 32-bit halves of its bit pattern, so that a state, a trace and a
// counterexample always carry the exact value.  This class implements the
// operators declared in spec/F64.tla; nothing in it knows about libspot.
import java.math.BigDecimal;
import java.math.MathContext;
import java.util.Arrays;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class F64Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {F64Overrides.class};
    }

    static double d(Value v) {
        TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val;
        long lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }

    static Value v(double x) {
        // NaNs are canonical
        long b = Double.doubleToLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }

    static Value b(boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static double[] seq(Value s) {
        TupleValue t = (s instanceof TupleValue) ? (TupleValue) s : (TupleValue) s.toTuple();
        double[] r = new double[t.elems.length];
        for (int i = 0; i < r.length; i++)
            r[i] = d(t.elems[i]);
        return r;
    }

    static Value seq(double[] a) {
        Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++)
            r[i] = v(a[i]);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "FAdd", module = "F64", warn = false)
    public static Value FAdd(Value x, Value y) { return v(d(x) + d(y)); }

    @TLAPlusOperator(identifier = "FSub", module = "F64", warn = false)
    public static Value FSub(Value x, Value y) { return v(d(x) - d(y)); }

    @TLAPlusOperator(identifier = "FMul", module = "F64", warn = false)
    public static Value FMul(Value x, Value y) { return v(d(x) * d(y)); }

    @TLAPlusOperator(identifier = "FDiv", module = "F64", warn = false)
    public static Value FDiv(Value x, Value y) { return v(d(x) / d(y)); }

    @TLAPlusOperator(identifier = "FNeg", module = "F64", warn = false)
    public static Value FNeg(Value x) { return v(-d(x)); }

    @TLAPlusOperator(identifier = "FAbs", module = "F64", warn = false)
    public static Value FAbs(Value x) { return v(Math.abs(d(x))); }

    @TLAPlusOperator(identifier = "FLog", module = "F64", warn = false)
    public static Value FLog(Value x) { return v(Math.log(d(x))); }

    @TLAPlusOperator(identifier = "FLog1p", module = "F64", warn = false)
    public static Value FLog1p(Value x) { return v(Math.log1p(d(x))); }

    @TLAPlusOperator(identifier = "FExp", module = "F64", warn = false)
    public static Value FExp(Value x) { return v(Math.exp(d(x))); }

    @TLAPlusOperator(identifier = "FExpm1", module = "F64", warn = false)
    public static Value FExpm1(Value x) { return v(Math.expm1(d(x))); }

    @TLAPlusOperator(identifier = "FPow", module = "F64", warn = false)
    public static Value FPow(Value x, Value y) { return v(Math.pow(d(x), d(y))); }

    @TLAPlusOperator(identifier = "FSqrt", module = "F64", warn = false)
    public static Value FSqrt(Value x) { return v(Math.sqrt(d(x))); }

    @TLAPlusOperator(identifier = "FUp", module = "F64", warn = false)
    public static Value FUp(Value x) { return v(Math.nextUp(d(x))); }

    @TLAPlusOperator(identifier = "FDown", module = "F64", warn = false)
    public static Value FDown(Value x) { return v(Math.nextDown(d(x))); }

    @TLAPlusOperator(identifier = "FLt", module = "F64", warn = false)
    public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }

    @TLAPlusOperator(identifier = "FLe", module = "F64", warn = false)
    public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }

    @TLAPlusOperator(identifier = "FEq", module = "F64", warn = false)
    public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }

    @TLAPlusOperator(identifier = "FSame", module = "F64", warn = false)
    public static Value FSame(Value x, Value y) {
        double a = d(x), c = d(y);
        return b(a == c || (a != a && c != c));
    }

    @TLAPlusOperator(identifier = "FIsNaN", module = "F64", warn = false)
    public static Value FIsNaN(Value x) { return b(Double.isNaN(d(x))); }

    @TLAPlusOperator(identifier = "FIsFin", module = "F64", warn = false)
    public static Value FIsFin(Value x) { return b(Double.isFinite(d(x))); }

    @TLAPlusOperator(identifier = "FMin", module = "F64", warn = false)
    public static Value FMin(Value x, Value y) { return v(Math.min(d(x), d(y))); }

    @TLAPlusOperator(identifier = "FMax", module = "F64", warn = false)
    public static Value FMax(Value x, Value y) { return v(Math.max(d(x), d(y))); }

    @TLAPlusOperator(identifier = "FInt", module = "F64", warn = false)
    public static Value FInt(Value x) { return v(((IntValue) x).val); }

    @TLAPlusOperator(identifier = "FTrunc", module = "F64", warn = false)
    public static Value FTrunc(Value x) { return IntValue.gen((int) d(x)); }

    @TLAPlusOperator(identifier = "FDec", module = "F64", warn = false)
    public static Value FDec(Value x) {
        String s = ((StringValue) x).val.toString();
        if (s.equals("NaN")) return v(Double.NaN);
        if (s.equals("inf")) return v(Double.POSITIVE_INFINITY);
        if (s.equals("-inf")) return v(Double.NEGATIVE_INFINITY);
        return v(Double.parseDouble(s));
    }

    @TLAPlusOperator(identifier = "FStr", module = "F64", warn = false)
    public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }

    // sum of a sequence, rounded once
    @TLAPlusOperator(identifier = "FSum", module = "F64", warn = false)
    public static Value FSum(Value s) {
        double[] a = seq(s);
        double plain = 0;
        for (double x : a) plain += x;
        if (!Double.isFinite(plain)) return v(plain);
        if (a.length <= 2) return v(plain);
        // double-double accumulation
        double hi = 0, lo = 0;
        for (double x : a) {
            double t = hi + x;
            double bb = t - hi;
            lo += (hi - (t - bb)) + (x - bb);
            hi = t;
        }
        return v(hi + lo);
    }

    // sum of the squares of a sequence
    @TLAPlusOperator(identifier = "FSumSq", module = "F64", warn = false)
    public static Value FSumSq(Value s) {
        double[] a = seq(s);
        double plain = 0;
        for (double x : a) plain += x * x;
        if (!Double.isFinite(plain)) return v(plain);
        double hi = 0, lo = 0;
        for (double y : a) {
            double x = y * y;
            lo += Math.fma(y, y, -x);
            double t = hi + x;
            double bb = t - hi;
            lo += (hi - (t - bb)) + (x - bb);
            hi = t;
        }
        return v(hi + lo);
    }

    // ascending order (NaNs last)
    @TLAPlusOperator(identifier = "FSort", module = "F64", warn = false)
    public static Value FSort(Value s) {
        double[] a = seq(s);
        Arrays.sort(a);
        return seq(a);
    }

    // equality of two sequences of doubles, element by element (FSame)
    @TLAPlusOperator(identifier = "FSameSeq", module = "F64", warn = false)
    public static Value FSameSeq(Value s, Value t) {
        double[] a = seq(s), c = seq(t);
        if (a.length != c.length) return b(false);
        for (int i = 0; i < a.length; i++)
            if (!(a[i] == c[i] || (a[i] != a[i] && c[i] != c[i]))) return b(false);
        return b(true);
    }

    // number of ulps between two finite doubles, capped to 2^31-1
    @TLAPlusOperator(identifier = "FUlps", module = "F64", warn = false)
    public static Value FUlps(Value x, Value y) {
        double a = d(x), c = d(y);
        if (a != a && c != c) return IntValue.gen(0);
        if (a != a || c != c) return IntValue.gen(Integer.MAX_VALUE);
        long i = Double.doubleToLongBits(a), j = Double.doubleToLongBits(c);
        if (i < 0) i = Long.MIN_VALUE - i;
        if (j < 0) j = Long.MIN_VALUE - j;
        long diff = Math.abs(i - j);
        return IntValue.gen(diff < 0 || diff > Integer.MAX_VALUE ? Integer.MAX_VALUE : (int) diff);
    }
}
