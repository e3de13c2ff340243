import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Fast versions of operators of module IntMat (see spec/IntMat.tla for their definition). */
public class IntMat {
    private static Value[] seq(Value v) {
        return ((TupleValue) v.toTuple()).elems;
    }

    private static long[][] mat(Value v) {
        Value[] rows = seq(v);
        long[][] a = new long[rows.length][];
        for (int i = 0; i < rows.length; i++) {
            Value[] r = seq(rows[i]);
            a[i] = new long[r.length];
            for (int j = 0; j < r.length; j++) a[i][j] = ((IntValue) r[j]).val;
        }
        return a;
    }

    public static Value IMul(Value x, Value y) {
        long[][] a = mat(x), b = mat(y);
        int n = b.length == 0 ? 0 : b[0].length;
        Value[] rows = new Value[a.length];
        for (int i = 0; i < a.length; i++) {
            Value[] r = new Value[n];
            for (int j = 0; j < n; j++) {
                long s = 0;
                for (int k = 0; k < a[i].length; k++) s += a[i][k] * b[k][j];
                if (s != (int) s) throw new RuntimeException("IMul: overflow");
                r[j] = IntValue.gen((int) s);
            }
            rows[i] = new TupleValue(r);
        }
        return new TupleValue(rows);
    }

    private static long inv(long b, long p) {
        long r = 1;
        for (long e = p - 2; e > 0; e >>= 1) {
            if ((e & 1) == 1) r = r * b % p;
            b = b * b % p;
        }
        return r;
    }

    public static Value ElimMod(Value x, Value pv) {
        long p = ((IntValue) pv).val;
        long[][] a = mat(x);
        int m = a.length, n = m == 0 ? 0 : a[0].length;
        for (long[] r : a) for (int j = 0; j < n; j++) r[j] = ((r[j] % p) + p) % p;
        int rank = 0;
        long d = 1;
        for (int j = 0; j < n; j++) {
            int q = rank;
            while (q < m && a[q][j] == 0) q++;
            if (q == m) { d = 0; continue; }
            long[] t = a[q];
            if (q != rank) { a[q] = a[rank]; a[rank] = t; d = (p - d) % p; }
            d = d * t[j] % p;
            long iv = inv(t[j], p);
            for (int i = rank + 1; i < m; i++) {
                long f = a[i][j] * iv % p;
                if (f == 0) continue;
                for (int c = 0; c < n; c++) a[i][c] = (a[i][c] + (p - f) * t[c]) % p;
            }
            rank++;
        }
        return new TupleValue(new Value[] { IntValue.gen(rank), IntValue.gen(m == n ? (int) d : 0) });
    }
}
