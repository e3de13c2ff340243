import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Fast versions of operators of module Ext (see spec/Ext.tla for their definition). */
public class Ext {
    private static final int OFF = 999999937, NAN = 1000000001, PINF = 1000000002, NINF = 1000000003, ONEUP = 999999940;

    private static long mul(long a, long b) {
        if (a == NAN || b == NAN) return NAN;
        if (odd(a) || odd(b)) return OFF;
        if (a < OFF && b < OFF) {
            long p = a * b;
            if ((p & 15) != 0) return OFF;
            p >>= 4;
            return p >= OFF || p <= -OFF ? OFF : p;
        }
        int s = sgn(a) * sgn(b);
        return s > 0 ? PINF : s < 0 ? NINF : NAN;
    }

    private static boolean odd(long a) {
        return a >= OFF && a <= ONEUP;
    }

    private static int sgn(long a) {
        return a == PINF ? 1 : a == NINF ? -1 : Long.signum(a);
    }

    private static long add(long a, long b) {
        if (a < OFF && b < OFF) {
            long s = a + b;
            return s >= OFF || s <= -OFF ? OFF : s;
        }
        if (a == NAN || b == NAN) return NAN;
        if (odd(a) || odd(b)) return OFF;
        if (a < OFF) return b;
        if (b < OFF || a == b) return a;
        return NAN;
    }

    public static Value XMul(Value a, Value b) {
        return IntValue.gen((int) mul(((IntValue) a).val, ((IntValue) b).val));
    }

    public static Value XDot(Value u, Value v) {
        Value[] us = ((TupleValue) u.toTuple()).elems, vs = ((TupleValue) v.toTuple()).elems;
        long s = 0;
        for (int i = 0; i < us.length; i++) s = add(s, mul(((IntValue) us[i]).val, ((IntValue) vs[i]).val));
        return IntValue.gen((int) s);
    }

    private static Value[] seq(Value v) {
        return ((TupleValue) v.toTuple()).elems;
    }

    public static Value XTransp(Value m) {
        Value[] rows = seq(m);
        Value[][] a = new Value[rows.length][];
        for (int i = 0; i < rows.length; i++) a[i] = seq(rows[i]);
        Value[] t = new Value[a[0].length];
        for (int j = 0; j < t.length; j++) {
            Value[] c = new Value[rows.length];
            for (int i = 0; i < c.length; i++) c[i] = a[i][j];
            t[j] = new TupleValue(c);
        }
        return new TupleValue(t);
    }

    public static Value XMatMul(Value a, Value b) {
        Value[] rows = seq(a), cols = seq(XTransp(b)), p = new Value[rows.length];
        for (int i = 0; i < p.length; i++) {
            Value[] r = new Value[cols.length];
            for (int j = 0; j < r.length; j++) r[j] = XDot(rows[i], cols[j]);
            p[i] = new TupleValue(r);
        }
        return new TupleValue(p);
    }
}
