package mc;

import java.util.Collection;
import java.util.Map;

/** Just enough JSON to write evidence. */
final class Json {
    static String write(Object o) { StringBuilder b = new StringBuilder(); w(o, b, 0); return b.append('\n').toString(); }
    private static void w(Object o, StringBuilder b, int d) {
        if (o == null || o instanceof Boolean || o instanceof Number) b.append(o);
        else if (o instanceof Map<?, ?> m) {
            b.append('{');
            boolean first = true;
            for (Map.Entry<?, ?> e : m.entrySet()) {
                if (!first) b.append(',');
                first = false;
                nl(b, d + 1); str(String.valueOf(e.getKey()), b); b.append(": "); w(e.getValue(), b, d + 1);
            }
            nl(b, d); b.append('}');
        } else if (o instanceof Collection<?> c) {
            b.append('[');
            boolean first = true;
            for (Object x : c) { if (!first) b.append(','); first = false; nl(b, d + 1); w(x, b, d + 1); }
            nl(b, d); b.append(']');
        } else str(o.toString(), b);
    }
    private static void nl(StringBuilder b, int d) { b.append('\n'); b.append("  ".repeat(d)); }
    static void str(String s, StringBuilder b) {
        b.append('"');
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c == '\n') b.append("\\n");
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        b.append('"');
    }
}
