package mc;

import java.io.IOException;
import java.math.BigDecimal;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.Collection;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.stream.Collectors;

/** Counterexamples as standalone Java programs: bin/replay FILE runs one against the current tree. */
final class Replay {
    static String lit(String s) {
        if (s == null) return "null";
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c == '\n') b.append("\\n");
            else if (c == '\r') b.append("\\r");
            else if (c == '\t') b.append("\\t");
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        return b.append('"').toString();
    }

    static String java(Object o) {
        if (o == null) return "null";
        if (o instanceof String s) return lit(s);
        if (o instanceof Boolean b && b != Boolean.TRUE && b != Boolean.FALSE) return "new Boolean(" + b + ")";
        if (o instanceof Integer || o instanceof Boolean) return o.toString();
        if (o instanceof Long) return o + "L";
        if (o instanceof Double d) return d.isNaN() ? "Double.NaN" : d.isInfinite() ? (d > 0 ? "Double.POSITIVE_INFINITY" : "Double.NEGATIVE_INFINITY") : o + "d";
        if (o instanceof Float d) return d.isNaN() ? "Float.NaN" : d.isInfinite() ? (d > 0 ? "Float.POSITIVE_INFINITY" : "Float.NEGATIVE_INFINITY") : o + "f";
        if (o instanceof BigDecimal) return "new java.math.BigDecimal(\"" + o + "\")";
        if (o instanceof LocalDate) return "java.time.LocalDate.parse(\"" + o + "\")";
        if (o instanceof LocalDateTime) return "java.time.LocalDateTime.parse(\"" + o + "\")";
        if (o instanceof Object[] a) return "new Object[]{" + java.util.Arrays.stream(a).map(Replay::java).collect(Collectors.joining(", ")) + "}";
        try {
            if (o instanceof Map<?, ?> m && o.getClass().getName().startsWith("java.")) {
                return "map(" + m.entrySet().stream().map(e -> java(e.getKey()) + ", " + java(e.getValue())).collect(Collectors.joining(", ")) + ")";
            }
            if (o instanceof Set<?> c && o.getClass().getName().startsWith("java."))
                return "new LinkedHashSet<Object>(Arrays.<Object>asList(" + elems(c) + "))";
            if (o instanceof Collection<?> c && o.getClass().getName().startsWith("java."))
                return c.size() == 1 && c.iterator().next() == null ? "Collections.singletonList(null)" : "Arrays.<Object>asList(" + elems(c) + ")";
        } catch (RuntimeException e) { /* hostile container */ }
        return "null /* an object of " + o.getClass().getName().replace('$', '.') + " */";
    }
    private static String elems(Collection<?> c) { return c.stream().map(Replay::java).collect(Collectors.joining(", ")); }

    static String evalSnippet(boolean cond, String text, Map<String, Object> data, String def) {
        return "BoolParser parser = new BoolParser();\n"
                + "Map<String, Object> data = " + (data == null ? "null" : java(data)) + ";\n"
                + (cond ? "show(new BooleanExpressionEvaluator(parser).evaluate(" + lit(text) + ", data" + (def == null ? "" : ", " + lit(def)) + "));\n"
                        : "show(new ArithmeticExpressionEvaluator(parser).evaluate(" + lit(text) + ", data));\n");
    }

    static Path write(String id, String tier, List<Ck.Bad> bad) throws IOException {
        Ck.Bad b = bad.get(0);
        if (b.schedule != null) return schedule(id, tier, b, bad);
        StringBuilder s = new StringBuilder();
        s.append("// Counterexample of property ").append(id).append(". Run it with: bin/replay replays/").append(id).append(".java\n");
        for (int i = 0; i < Math.min(10, bad.size()); i++) {
            Ck.Bad x = bad.get(i);
            s.append("//\n").append(comment("[" + x.space + "] " + x.call)).append(comment("  data: " + safe(x.data) + (x.def == null ? "" : "  default field: " + x.def)))
                    .append(comment("  expected: " + x.expected)).append(comment("  actual:   " + x.actual));
        }
        s.append("""

                import com.github.sidhant92.boolparser.application.*;
                import com.github.sidhant92.boolparser.domain.*;
                import com.github.sidhant92.boolparser.domain.logical.*;
                import com.github.sidhant92.boolparser.domain.arithmetic.*;
                import com.github.sidhant92.boolparser.parser.antlr.*;
                import java.util.*;

                class Replay {
                    static Map<String, Object> map(Object... kv) {
                        Map<String, Object> m = new LinkedHashMap<>();
                        for (int i = 0; i < kv.length; i += 2) m.put((String) kv[i], kv[i + 1]);
                        return m;
                    }
                    static void show(Object o) { System.out.println(o); }
                    public static void main(String[] args) throws Exception {
                """);
        s.append("        System.out.println(\"expected: \" + ").append(lit(b.expected)).append(");\n");
        String sn = b.snippet == null ? "// see the comment above\n" : b.snippet;
        for (String l : sn.split("\n")) s.append("        ").append(l).append('\n');
        s.append("    }\n}\n");
        Path dir = Path.of(System.getProperty("mc.root", "."), "replays");
        Files.createDirectories(dir);
        Path p = dir.resolve(id + ".java");
        Files.write(p, s.toString().getBytes(StandardCharsets.UTF_8));
        return Path.of("replays", id + ".java");
    }
    /** an interleaving: bin/replay runs the schedule again */
    private static Path schedule(String id, String tier, Ck.Bad b, List<Ck.Bad> bad) throws IOException {
        StringBuilder s = new StringBuilder();
        s.append("# Counterexample of property ").append(id).append(". Run it with: bin/replay replays/").append(id).append(".schedule\n");
        s.append("# ").append(Ck.cut(b.call, 3000).replace('\n', ' ')).append("\n# expected: ").append(b.expected).append("\n# actual:   ").append(Ck.cut(b.actual, 3000).replace('\n', ' ')).append("\n");
        s.append("property ").append(id).append("\ntier ").append(tier).append("\n").append(b.schedule);
        for (int i = 1; i < Math.min(5, bad.size()); i++) s.append("# also: ").append(Ck.cut(bad.get(i).call + " -- " + bad.get(i).actual, 600).replace('\n', ' ')).append('\n');
        Path dir = Path.of(System.getProperty("mc.root", "."), "replays");
        Files.createDirectories(dir);
        Files.write(dir.resolve(id + ".schedule"), s.toString().getBytes(StandardCharsets.UTF_8));
        return Path.of("replays", id + ".schedule");
    }
    private static String safe(Object o) { try { return String.valueOf(o); } catch (Throwable t) { return "?"; } }
    private static String comment(String s) {
        StringBuilder b = new StringBuilder();
        for (char c : Ck.cut(s, 1500).toCharArray()) if (c == '\n') b.append("\\n"); else if (c == '\r') b.append("\\r"); else if (c == '\\' ) b.append("\\\\"); else if (c < 32 || c > 126) b.append(String.format("\\\\u%04x", (int) c)); else b.append(c);
        return "// " + b + "\n";
    }
}
