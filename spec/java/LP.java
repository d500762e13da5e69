import java.util.*;
import tlc2.value.impl.*;

/** TLC override of module LP: exact optimum of a small linear programme. */
public class LP {
    private static double d(final Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        final String s = ((StringValue) v).val.toString();
        switch (s) {
            case "inf": return Double.POSITIVE_INFINITY;
            case "-inf": return Double.NEGATIVE_INFINITY;
            default: return Double.parseDouble(s);
        }
    }
    private static Value[] elems(final Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        final ValueVec e = ((SetEnumValue) v.toSetEnum()).elems;
        final Value[] r = new Value[e.size()];
        for (int i = 0; i < r.length; i++) r[i] = e.elementAt(i);
        return r;
    }
    private static String key(final Value v) { return ((StringValue) v).val.toString(); }

    /**
     * max obj.x subject to rows.x <= rhs, x >= 0 with every rhs >= 0, so that
     * x = 0 is a vertex to start from.  Bland's rule: no cycling.
     * "inf" when unbounded.
     */
    public static Value LpMax(final Value obj, final Value rows) {
        final Map<String, Integer> col = new LinkedHashMap<>();
        final Value[] o = elems(obj);
        final Value[] rs = elems(rows);
        for (final Value t : o) col.putIfAbsent(key(((TupleValue) t.toTuple()).elems[1]), col.size());
        final Value[][] terms = new Value[rs.length][];
        for (int i = 0; i < rs.length; i++) {
            terms[i] = elems(((TupleValue) rs[i].toTuple()).elems[0]);
            for (final Value t : terms[i]) col.putIfAbsent(key(((TupleValue) t.toTuple()).elems[1]), col.size());
        }
        final int n = col.size(), m = rs.length;
        final double[][] a = new double[m + 1][n + m + 1];
        for (int i = 0; i < m; i++) {
            for (final Value t : terms[i]) {
                final Value[] e = ((TupleValue) t.toTuple()).elems;
                a[i][col.get(key(e[1]))] += d(e[0]);
            }
            a[i][n + i] = 1;
            final double b = d(((TupleValue) rs[i].toTuple()).elems[1]);
            if (b < -1e-12) throw new IllegalArgumentException("LpMax: negative right hand side");
            a[i][n + m] = Math.max(b, 0);
        }
        for (final Value t : o) {
            final Value[] e = ((TupleValue) t.toTuple()).elems;
            a[m][col.get(key(e[1]))] -= d(e[0]);
        }
        final int[] basis = new int[m];
        for (int i = 0; i < m; i++) basis[i] = n + i;
        final double eps = 1e-10;
        for (int it = 0; it < 100000; it++) {
            int e = -1;
            for (int j = 0; j < n + m; j++) if (a[m][j] < -eps) { e = j; break; }
            if (e < 0) return new StringValue(Double.toString(a[m][n + m]));
            int l = -1; double best = 0;
            for (int i = 0; i < m; i++) {
                if (a[i][e] <= eps) continue;
                final double q = a[i][n + m] / a[i][e];
                if (l < 0 || q < best - 1e-13 || (q <= best + 1e-13 && basis[i] < basis[l])) { l = i; best = q; }
            }
            if (l < 0) return new StringValue("inf");
            final double p = a[l][e];
            for (int j = 0; j <= n + m; j++) a[l][j] /= p;
            for (int i = 0; i <= m; i++) {
                if (i == l || a[i][e] == 0) continue;
                final double f = a[i][e];
                for (int j = 0; j <= n + m; j++) a[i][j] -= f * a[l][j];
            }
            basis[l] = e;
        }
        throw new IllegalStateException("LpMax: no convergence");
    }
}
