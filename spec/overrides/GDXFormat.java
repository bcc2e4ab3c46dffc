// Accelerated evaluation of a few byte level operators of GDXFormat.tla (TLC module override).
// SelfTest.tla checks that each agrees with its TLA+ definition.
import tlc2.value.impl.*;

public class GDXFormat {
    private static String str(Value v) { return ((StringValue) v).val.toString(); }
    private static int at(String t, int i) { return i >= 0 && i < t.length() ? t.charAt(i) : 0; }
    private static boolean on(Value v) { return ((BoolValue) v).val; }

    public static Value ByteAt(Value t, Value i) { return IntValue.gen(at(str(t), ((IntValue) i).val)); }

    public static Value I32(Value t, Value i, Value sw) {
        String s = str(t);
        int p = ((IntValue) i).val;
        boolean w = on(sw);
        int r = 0;
        for (int j = 3; j >= 0; j--) r = (r << 8) | at(s, w ? p + 3 - j : p + j);
        return IntValue.gen(r);
    }

    public static Value DblHex(Value t, Value i, Value sw) {
        String s = str(t);
        int p = ((IntValue) i).val;
        boolean w = on(sw);
        StringBuilder b = new StringBuilder(16);
        for (int j = 0; j < 8; j++) {
            int c = at(s, w ? p + j : p + 7 - j);
            b.append("0123456789ABCDEF".charAt(c >> 4)).append("0123456789ABCDEF".charAt(c & 15));
        }
        return new StringValue(b.toString());
    }
}
