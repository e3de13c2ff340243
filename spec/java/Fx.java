import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Fast versions of operators of module Fx (see spec/Fx.tla for their definition). */
public class Fx {
    private static final int TWO30 = 1 << 30;

    private static Value pair(int h, int l) {
        return new TupleValue(new Value[] { IntValue.gen(h), IntValue.gen(l) });
    }

    private static final Value BAD = pair(TWO30, 0);

    private static Value[] seq(Value v) {
        return ((TupleValue) v.toTuple()).elems;
    }

    public static Value FxDot(Value u, Value v) {
        Value[] us = seq(u), vs = seq(v);
        // 128 bit accumulator: hi:lo, through long products
        long accLo = 0, accHi = 0;
        for (int i = 0; i < us.length; i++) {
            Value[] a = seq(us[i]), b = seq(vs[i]);
            int ah = ((IntValue) a[0]).val, bh = ((IntValue) b[0]).val;
            if (ah >= TWO30 || bh >= TWO30) return BAD;
            long x = ((long) ah << 30) + ((IntValue) a[1]).val;
            long y = ((long) bh << 30) + ((IntValue) b[1]).val;
            long lo = x * y, hi = Math.multiplyHigh(x, y);
            long s = accLo + lo;
            accHi += hi + (Long.compareUnsigned(s, accLo) < 0 ? 1 : 0);
            accLo = s;
        }
        boolean neg = accHi < 0;
        BigInteger z = BigInteger.valueOf(accHi).shiftLeft(64)
            .add(BigInteger.valueOf(accLo >>> 1).shiftLeft(1).add(BigInteger.valueOf(accLo & 1)));
        z = z.abs().shiftRight(40);
        if (z.bitLength() > 60) return BAD;
        long m = z.longValue();
        if (neg) m = -m;
        int h = (int) (m >> 30), l = (int) (m & (TWO30 - 1));
        return pair(h, l);
    }

    /** A number as a long, or BADL. */
    private static final long BADL = Long.MIN_VALUE;

    private static long num(Value v) {
        Value[] a = seq(v);
        int h = ((IntValue) a[0]).val;
        return h >= TWO30 ? BADL : ((long) h << 30) + ((IntValue) a[1]).val;
    }

    private static Value val(long x) {
        return x == BADL || x >= (1L << 60) || x < -(1L << 60) ? BAD : pair((int) (x >> 30), (int) (x & (TWO30 - 1)));
    }

    private static long[][] mat(Value v) {
        Value[] rows = seq(v);
        long[][] a = new long[rows.length][];
        for (int i = 0; i < rows.length; i++) {
            Value[] r = seq(rows[i]);
            a[i] = new long[r.length];
            for (int j = 0; j < r.length; j++) a[i][j] = num(r[j]);
        }
        return a;
    }

    private static long dot(long[] u, long[] v) {
        long accLo = 0, accHi = 0;
        for (int i = 0; i < u.length; i++) {
            long x = u[i], y = v[i];
            if (x == BADL || y == BADL) return BADL;
            long lo = x * y, hi = Math.multiplyHigh(x, y);
            long s = accLo + lo;
            accHi += hi + (Long.compareUnsigned(s, accLo) < 0 ? 1 : 0);
            accLo = s;
        }
        // magnitude of the 128 bit sum, shifted right by 40
        boolean neg = accHi < 0;
        if (neg) {
            accLo = -accLo;
            accHi = ~accHi + (accLo == 0 ? 1 : 0);
        }
        if ((accHi >>> 36) != 0) return BADL;
        long m = (accHi << 24) | (accLo >>> 40);
        return neg ? -m : m;
    }

    public static Value FxMatMul(Value x, Value y) {
        long[][] a = mat(x), b = mat(y);
        int n = b.length == 0 ? 0 : b[0].length;
        long[][] t = new long[n][b.length];
        for (int j = 0; j < n; j++) for (int k = 0; k < b.length; k++) t[j][k] = b[k][j];
        Value[] rows = new Value[a.length];
        for (int i = 0; i < a.length; i++) {
            Value[] r = new Value[n];
            for (int j = 0; j < n; j++) r[j] = val(dot(a[i], t[j]));
            rows[i] = new TupleValue(r);
        }
        return new TupleValue(rows);
    }

    public static Value FxT(Value x) {
        Value[] rows = seq(x);
        Value[][] a = new Value[rows.length][];
        for (int i = 0; i < rows.length; i++) a[i] = seq(rows[i]);
        Value[] t = new Value[rows.length == 0 ? 0 : a[0].length];
        for (int j = 0; j < t.length; j++) {
            Value[] c = new Value[rows.length];
            for (int i = 0; i < c.length; i++) c[i] = a[i][j];
            t[j] = new TupleValue(c);
        }
        return new TupleValue(t);
    }

    public static Value FxMatNear(Value x, Value y, Value tol) {
        long[][] a = mat(x), b = mat(y);
        long t = num(tol);
        boolean ok = a.length == b.length && t != BADL
            && (a.length == 0 ? 0 : a[0].length) == (b.length == 0 ? 0 : b[0].length);
        for (int i = 0; ok && i < a.length; i++)
            for (int j = 0; ok && j < a[i].length; j++) {
                if (a[i][j] == BADL || b[i][j] == BADL) ok = false;
                else {
                    long d = a[i][j] - b[i][j];
                    if (d < 0) d = -d;
                    // a difference outside the grid is near nothing
                    ok = d <= t && d < (1L << 60);
                }
            }
        return ok ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value FxOfInts(Value x) {
        Value[] rows = seq(x);
        Value[] out = new Value[rows.length];
        for (int i = 0; i < rows.length; i++) {
            Value[] r = seq(rows[i]), o = new Value[r.length];
            for (int j = 0; j < r.length; j++) {
                long k = ((IntValue) r[j]).val;
                o[j] = pair((int) (k * 1024), 0);
            }
            out[i] = new TupleValue(o);
        }
        return new TupleValue(out);
    }
}
