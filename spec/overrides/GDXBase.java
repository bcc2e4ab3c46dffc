// Accelerated evaluation of a few pure string operators of GDXBase.tla (TLC module override).
// SelfTest.tla checks that each agrees with its TLA+ definition.
import tlc2.value.impl.*;

public class GDXBase {
    private static String str(Value v) { return ((StringValue) v).val.toString(); }
    private static boolean lower(char c) { return c >= 'a' && c <= 'z'; }

    public static Value Up(Value s) {
        String t = str(s);
        int n = t.length(), i = 0;
        while (i < n && !lower(t.charAt(i))) i++;
        if (i == n) return s;
        StringBuilder b = new StringBuilder(t);
        for (; i < n; i++) if (lower(b.charAt(i))) b.setCharAt(i, (char) (b.charAt(i) - 32));
        return new StringValue(b.toString());
    }

    public static Value RTrim(Value s) {
        String t = str(s);
        int n = t.length();
        while (n > 0 && t.charAt(n - 1) <= 32) n--;
        return n == t.length() ? s : new StringValue(t.substring(0, n));
    }

    public static Value CanBeQuoted(Value s) {
        String t = str(s);
        boolean q1 = false, q2 = false;
        for (int i = 0; i < t.length(); i++) {
            char c = t.charAt(i);
            if (c < 32) return BoolValue.ValFalse;
            if (c == '\'') q1 = true;
            if (c == '"') q2 = true;
        }
        return q1 && q2 ? BoolValue.ValFalse : BoolValue.ValTrue;
    }

    public static Value MakeGoodTxt(Value s) {
        String t = str(s);
        StringBuilder b = new StringBuilder(t);
        char q = 0;
        for (int i = 0; i < t.length(); i++) {
            char c = t.charAt(i);
            if (c == '\'' || c == '"') { if (q == 0) q = c; b.setCharAt(i, q); }
            else if (c < 32) b.setCharAt(i, '?');
        }
        return new StringValue(b.toString());
    }

    public static Value IsHexNonFinite(Value s) {
        String t = str(s);
        return t.length() == 16 && (t.startsWith("7FF") || t.startsWith("FFF")) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value IsAcrTok(Value s) { return str(s).length() > 16 ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
