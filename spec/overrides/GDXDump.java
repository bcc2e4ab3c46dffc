// Evaluation of the text comparison of GDXDump.tla (TLC module override): numbers are compared as decimals of unlimited precision.
import java.math.*;
import tlc2.value.impl.*;

public class GDXDump {
    private static String str(Value v) { return ((StringValue) v).val.toString(); }
    private static final String NUM = "0123456789+-.eE";

    private static String[] strs(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        String[] r = new String[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = str(t.elems[i]);
        return r;
    }

    private static boolean is(String text, String hex, char sep) {
        if (text.indexOf(sep == '.' ? ',' : '.') >= 0) return false;
        double v = Double.longBitsToDouble(Long.parseUnsignedLong(hex, 16));
        BigDecimal d, x = new BigDecimal(v);
        try { d = new BigDecimal(text.replace(sep, '.')); } catch (NumberFormatException e) { return false; }
        if (x.signum() == 0) return d.signum() == 0;
        int top = x.precision() - x.scale();         // x < 10^top
        BigDecimal half = new BigDecimal(BigInteger.valueOf(5), 16 - top);
        return x.subtract(d).abs().compareTo(half) <= 0;
    }

    private static boolean match(String s, int p, String[] q, int i, char sep) {
        for (; i < q.length; i++) {
            if (!q[i].startsWith("\f")) {
                if (!s.startsWith(q[i], p)) return false;
                p += q[i].length();
                continue;
            }
            int e = p;
            while (e < s.length() && (NUM.indexOf(s.charAt(e)) >= 0 || s.charAt(e) == sep)) e++;
            for (; e > p; e--)
                if (is(s.substring(p, e), q[i].substring(1), sep) && match(s, e, q, i + 1, sep)) return true;
            return false;
        }
        return p == s.length();
    }

    public static Value TextIs(Value lines, Value pieces, Value sep) {
        StringBuilder b = new StringBuilder();
        String[] l = strs(lines);
        for (int i = 0; i < l.length; i++) { if (i > 0) b.append('\n'); b.append(l[i]); }
        String[] q = strs(pieces);
        // the lines do not tell whether the last one is terminated
        int n = q.length;
        while (n > 0 && q[n - 1].isEmpty()) n--;
        if (n > 0 && q[n - 1].endsWith("\n")) q[n - 1] = q[n - 1].substring(0, q[n - 1].length() - 1);
        return match(b.toString(), 0, q, 0, str(sep).charAt(0)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value Joined(Value pieces) {
        StringBuilder b = new StringBuilder();
        for (String s : strs(pieces)) b.append(s);
        return new StringValue(b.toString());
    }
}
