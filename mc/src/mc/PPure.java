package mc;

import static mc.E.*;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import io.vavr.control.Try;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ConcurrentSkipListMap;
import java.util.concurrent.CopyOnWriteArrayList;
import java.util.concurrent.ForkJoinPool;
import java.util.function.Function;
import java.util.function.Supplier;

/** C20 every call returns a result, C21 purity, C22 the caching parser. */
final class PPure {
    // ---- C20 ------------------------------------------------------------------------------------

    private static final String[] ENTRY = {"parseExpression(text)", "parseExpression(text, default)", "boolean evaluate(text, data)", "boolean evaluate(text, data, default)", "arithmetic evaluate(text, data)"};

    static Impl.Got call(Impl i, int entry, String text, Map<String, Object> data, String def) {
        return switch (entry) {
            case 0 -> Impl.got(() -> i.parser.parseExpression(text));
            case 1 -> Impl.got(() -> i.parser.parseExpression(text, def));
            case 2 -> Impl.got(() -> i.bool.evaluate(text, data));
            case 3 -> Impl.got(() -> i.bool.evaluate(text, data, def));
            default -> Impl.got(() -> i.arith.evaluate(text, data));
        };
    }
    static String callSnippet(int entry, String text, Map<String, Object> data, String def, String parser) {
        String t = text == null ? "(String) null" : text.length() > 3000 ? "/* " + text.length() + " characters, see above */ \"\"" : Replay.lit(text), d = def == null ? "(String) null" : Replay.lit(def);
        String s = "var parser = " + parser + ";\nMap<String, Object> data = " + (data == null ? "null" : Replay.java(data)) + ";\n";
        return s + switch (entry) {
            case 0 -> "show(parser.parseExpression(" + t + "));\n";
            case 1 -> "show(parser.parseExpression(" + t + ", " + d + "));\n";
            case 2 -> "show(new BooleanExpressionEvaluator(parser).evaluate(" + t + ", data));\n";
            case 3 -> "show(new BooleanExpressionEvaluator(parser).evaluate(" + t + ", data, " + d + "));\n";
            default -> "show(new ArithmeticExpressionEvaluator(parser).evaluate(" + t + ", data));\n";
        };
    }

    /** every entry point returns a result of the promised type, on the plain and on the caching parser */
    static void robust(Ck c, String text, Map<String, Object> data, String def) {
        c.add(w -> robust(w, c, text, data, def));
    }
    private static final ThreadLocal<Impl> CACHED = ThreadLocal.withInitial(() -> Impl.cached(8));
    static Bad2 wrong(Impl impl, String text, Map<String, Object> data, String def, int entry) {
        Impl.Got g = call(impl, entry, text, data, def);
        String bad = null;
        if (g.broken()) bad = g.toString();
        else if (g.ok()) {
            Object v = g.value();
            if (entry <= 1 && !(v instanceof Node)) bad = g.toString();
            if ((entry == 2 || entry == 3) && !(v instanceof Boolean)) bad = g.toString();
        }
        return bad == null ? new Bad2(g, null) : new Bad2(g, bad);
    }
    record Bad2(Impl.Got got, String what) {}
    static Ck.Bad robust(Ck.Worker w, Ck c, String text, Map<String, Object> data, String def) {
        c.state("r", text, data, def);
        Impl.Got[] gs = new Impl.Got[5];
        for (int k = 0; k < 2; k++) for (int entry = 0; entry < 5; entry++) {
            if (k == 1 && entry != 0 && entry != 3) continue;
            Bad2 b = wrong(k == 0 ? w.impl : CACHED.get(), text, data, def, entry);
            w.count(true);
            Ref.STEPS.get()[0]++;
            if (k == 0) gs[entry] = b.got();
            if (b.what() != null) return new Ck.Bad(text == null ? "null" : text, data, def, "a success with a value of the promised type, or a failure, from " + ENTRY[entry] + (k == 1 ? " of the caching parser" : ""), b.what())
                    .snippet(callSnippet(entry, text, data, def, k == 0 ? "new BoolParser()" : "new CachedBoolParser(8)"));
        }
        // a text that does not parse is a failure everywhere
        if (gs[0].fail() && (gs[2].ok() || gs[4].ok())) return new Ck.Bad(text == null ? "null" : text, data, def, "a failure: the text does not parse", "boolean " + gs[2] + ", arithmetic " + gs[4]);
        c.sample(text == null ? "null" : text, data, def, gs[3]);
        return null;
    }

    static class Hostile { final String what; Hostile(String w) { what = w; }
        @Override public String toString() { if (what.contains("toString!")) throw new IllegalStateException("toString"); return what.contains("toString0") ? null : what; }
        @Override public boolean equals(Object o) { if (what.contains("equals")) throw new IllegalStateException("equals"); return o == this; }
        @Override public int hashCode() { if (what.contains("hashCode")) throw new IllegalStateException("hashCode"); return 1; } }
    static final class HostileNumber extends Number { @Override public int intValue() { return 1; } @Override public long longValue() { return 2; } @Override public float floatValue() { return 3; } @Override public double doubleValue() { return 4; } @Override public String toString() { return "not a number"; } }
    static final class ThrowingMap extends AbstractMap<String, Object> { @Override public Set<Entry<String, Object>> entrySet() { throw new UnsupportedOperationException("no entries"); } @Override public Object get(Object k) { throw new IllegalStateException("get"); } @Override public boolean containsKey(Object k) { throw new IllegalStateException("containsKey"); } @Override public String toString() { return "throwing map"; } @Override public int hashCode() { return 1; } @Override public boolean equals(Object o) { return o == this; } }
    static final class ThrowingList extends AbstractList<Object> { @Override public Object get(int i) { throw new IllegalStateException("element"); } @Override public int size() { return 3; } @Override public String toString() { return "throwing list"; } @Override public int hashCode() { return 1; } @Override public boolean equals(Object o) { return o == this; } }
    static final class NullIterator extends AbstractCollection<Object> { @Override public Iterator<Object> iterator() { return null; } @Override public int size() { return 2; } @Override public String toString() { return "collection without iterator"; } }

    /** values a caller may put into the map */
    static List<Object> hostiles() {
        List<Object> l = new ArrayList<>(Arrays.asList(null, 0, -1, Integer.MIN_VALUE, Long.MAX_VALUE, Long.MIN_VALUE, 0.0d, -0.0d, 1e300, Double.MIN_VALUE, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, Float.NaN, Float.NEGATIVE_INFINITY, 1.5f, new BigDecimal("1e2000"), new BigDecimal("1e-2000"), new BigDecimal("0e1000"), new BigDecimal("-7.25"),
                BigInteger.TEN.pow(50), (byte) 3, (short) 4, 'c', new java.util.concurrent.atomic.AtomicInteger(5), new HostileNumber(), "", " ", "text", "1.2.3", "1.x", "5", "-5", "1e999999999", "1e-999999999", "-1e2147483647", "0e99999999", "2024-01-01", "2024-99-99", "2024-01-01 00:00:00", "\u0000", "'", "null", "true", true, Boolean.FALSE,
                java.time.LocalDate.MIN, java.time.LocalDate.of(2024, 2, 29), java.time.LocalDateTime.MAX, java.time.Instant.EPOCH, java.time.ZonedDateTime.of(2024, 1, 1, 0, 0, 0, 0, java.time.ZoneOffset.UTC), java.time.LocalTime.NOON, new java.util.Date(0), new java.util.GregorianCalendar(2024, 0, 1),
                new Object[0], new Object[]{1, "a", null}, new int[]{1, 2}, new String[]{"a"}, Collections.emptyList(), Arrays.asList(1, 2), Arrays.asList(1, null), Arrays.asList(1, "x", true), Collections.singletonList(null), Arrays.asList(Arrays.asList(1), 2), Arrays.asList(new Hostile("toString!"), 1), new LinkedHashSet<>(Arrays.asList("a", "b")), new ArrayDeque<>(Arrays.asList(1, 2)),
                new TreeSet<>(Arrays.asList(1, 2)), List.of(1, 2), Set.of(1), new CopyOnWriteArrayList<>(Arrays.asList(1)), new ThrowingList(), new NullIterator(), Collections.emptyMap(), G.data("y", 1), Map.of("y", 1), new TreeMap<>(Map.of("y", 1)), new ThrowingMap(), new HashMap<>(Map.of(1, 2)), new TreeMap<>(Map.of(1, 2)), new EnumMap<>(Map.of(Thread.State.NEW, 1)),
                Optional.of(1), Optional.empty(), UUID.nameUUIDFromBytes(new byte[0]), Thread.State.NEW, Object.class, new Hostile("plain"), new Hostile("toString!"), new Hostile("toString0"), new Hostile("equals"), new Hostile("hashCode"), new Hostile("toString! equals hashCode"), new StringBuilder("sb"), new Hostile[]{new Hostile("toString!")}));
        List<Object> self = new ArrayList<>(); self.add(self); l.add(self);
        Map<String, Object> selfMap = new HashMap<>(); selfMap.put("y", selfMap); l.add(selfMap);
        return l;
    }
    private static final String[] HOSTILE_EXPRS = {"x", "NOT x", "x AND x", "x OR y", "x = 1", "1 = x", "x = 'a'", "x != 1.5", "x > 0", "x <= 'a'", "0 >= x", "x = 1.2.3", "x > 1.2.3", "x = 2024-01-01", "x < 2024-01-01 10:00:00", "x = true", "x = null", "x != null", "x = x", "x > x", "x < x", "x != x", "x IN (1, 'a', true)", "x NOT IN (x)", "y IN (x)", "y IN (1, x, 2)", "x 1 TO 5", "x 0.5 TO 2.5",
            "x CONTAINS_ANY (1, 2)", "x CONTAINS_ALL ('a')", "x CONTAINS_ANY (x)", "y CONTAINS_ANY (x)", "x CONTAINS_ALL (2024-01-01)", "x CONTAINS_ALL (1.2.3)", "x + 1", "1 + x", "x + x", "x - 1", "x * x", "x / 2", "2 / x", "x % 3", "3 % x", "x ^ 2", "2 ^ x", "-x", "x + 'a'", "'a' + x", "min(x)", "max(x, 1)", "sum(x, x)", "avg(x)", "mean(1, x)", "median(x, 2)", "mode(x)", "len(x)", "int(x)", "days_elapsed(x)",
            "x.y", "x.y = 1", "x.y.z = null", "x.y > 0", "x.y + 1", "x.y.y.y.y", "x.1 = 2", "(x + 1) > 0", "min(x, y) = 1", "len(x) > 0 AND x = 1", "NOT (x = 1 OR x IN (x))", "y = x", "y > x", "x = (x + 1)", "sum(y, (x * 2)) > 1", "x.y CONTAINS_ANY (1)", "x.y IN (1)", "x.y 0 TO 3"};

    static void c20(Ck c) {
        c.assumptions.add("Errors a caller's own object raises that are not exceptions (OutOfMemoryError, LinkageError) are outside the property; so are BigDecimal values with scales beyond thousands of digits, whose exact arithmetic alone exhausts memory.");
        Map<String, Object> data = PLang.RICH;
        char[] al = "a1. ('\"),=<>!&|-*x\u00e9\u0000".toCharArray();
        int deep = c.quick ? 4 : 5;
        for (int n = 0; n <= deep; n++) {
            char[] use = n == 5 ? "a1. ('),=!-".toCharArray() : al;
            if (c.space("characters, " + n, "all texts of " + n + " of " + use.length + " characters x every entry point")) G.vectors(n, use.length, v -> { StringBuilder s = new StringBuilder(); for (int q : v) s.append(use[q]); robust(c, s.toString(), data, null); });
        }
        if (c.space("single characters", "every UTF-16 unit (also lone surrogates) alone, in a name, in quotes, after an operator")) for (int ch = 0; ch < 0x10000; ch++) {
            String s = String.valueOf((char) ch);
            robust(c, s, data, s);
            if (!c.quick || ch < 0x800 || ch % 64 == 0 || ch >= 0xd7f0 && ch <= 0xe010 || ch > 0xfe00) { robust(c, "a" + s + "b = 1", data, null); robust(c, "s = '" + s + "'", data, null); robust(c, "a > " + s, data, null); }
        }
        String[] toks = {"a", "1", "'x'", "2.5", "1.2.3", "2024-01-01", "true", "null", "AND", "NOT", "IN", "TO", "CONTAINS_ANY", "min", "(", ")", ",", "=", ">", "-", "*", "^"};
        for (int n = 1; n <= (c.quick ? 4 : 5); n++) {
            int k = n;
            String[] use = n == 5 ? new String[]{"a", "1", "'x'", "true", "AND", "NOT", "IN", "CONTAINS_ANY", "min", "(", ")", ",", "=", "-"} : toks;
            if (c.space("tokens, " + n, "all texts of " + n + " of " + use.length + " tokens, with" + (n < 4 ? " and without" : "out") + " a default field, x every entry point")) G.vectors(n, use.length, v -> {
                StringBuilder s = new StringBuilder();
                for (int q : v) s.append(s.length() == 0 ? "" : " ").append(use[q]);
                robust(c, s.toString(), data, null);
                if (k < 4) robust(c, s.toString(), data, "a");
            });
        }
        List<Map<String, Object>> maps = new ArrayList<>(Arrays.asList(null, new HashMap<>(), Collections.emptyMap(), Map.of(), Map.of("a", 1), data, Collections.unmodifiableMap(data), new TreeMap<>(), new ConcurrentHashMap<>(), new ConcurrentSkipListMap<>(), new Hashtable<>(), new ThrowingMap()));
        Map<String, Object> nullKey = new HashMap<>(); nullKey.put(null, 1); maps.add(nullKey);
        String[] defs = {null, "", " ", "a", "zz", "p.q", "a b", "'a'", "1", "AND", "(", "\u0000", "a.", ".a", "..", "."};
        List<String> texts = new ArrayList<>(Arrays.asList(null, "", " ", "\t\n\r", "\u00a0", "a", "t", "a = 1", "= 1", "> 1 AND < 5", "IN (1, 2)", "(", ")", "()", "''", "\"", "'", ".", "..", "a.", ".a", "a..b = 1", "a.b.", "p..q", "-", "--a", "- - 1", "1.2.", "99999999999999999999", "a = 99999999999999999999", "2024-99-99", "d = 2024-13-45", "a IN ()", "min()", "min(1, 2", "a 1 TO", "a TO 5", "\ufeffa = 1", "a = 1;", "a = 1\u0000", "\ud800", "\ud83d\ude00 = 1", "%s %n", "${a}", "../../etc/passwd",
                "1 / 0", "1 % 0", "0 ^ -1", "(0 - 1) ^ 0.5", "9 ^ 99999", "2 ^ 1000000000", "1.0 / 3", "'a' * 2", "true + 1", "null + 1", "null = null", "null", "NOT null", "min(null)", "a = null = null", "zz.zz.zz = 1", "len(1)", "int('a')", "days_elapsed('a')", "days_elapsed(2024-01-01)", "sum('a', 1)", "mode('a', 1)", "median(true)", "t AND 5", "'a' AND t", "NOT 5", "NOT 'x'", "1", "1 = 1", "'a' = 'a'", "true", "(true)", "((t))", "a"));
        for (E e : PLang.corpus()) texts.add(print(e));
        for (E e : PLang.arithmetic()) texts.add(print(e));
        if (c.space("arguments", texts.size() + " texts (null, blank, malformed, failing, well-formed) x " + maps.size() + " data maps (null, empty, read-only, throwing, ...) x " + defs.length + " default fields (null, blank, malformed)")) for (String t : texts) for (Map<String, Object> m : maps) for (String d : defs) robust(c, t, m, d);
        List<Object> hs = hostiles();
        if (c.space("data values", hs.size() + " values of every type (NaN, infinities, huge, foreign, throwing, self-containing, arrays, nested) x " + HOSTILE_EXPRS.length + " expressions using them in every position")) for (Object h : hs) for (String e : HOSTILE_EXPRS) {
            Map<String, Object> m = new LinkedHashMap<>(); m.put("x", h); m.put("y", 1);
            robust(c, e, m, "x");
        }
        if (c.space("data value pairs", "all pairs of " + hs.size() + " values x 24 expressions of two fields")) for (Object h : hs) for (Object k : hs) for (String e : new String[]{"x = y", "x != y", "x > y", "x <= y", "x IN (y)", "x NOT IN (1, y)", "x CONTAINS_ANY (y)", "x CONTAINS_ALL (y, 1)", "x + y", "x - y", "x * y", "x / y", "x % y", "min(x, y)", "max(x, y)", "sum(x, y)", "avg(x, y)", "median(x, y)", "mode(x, y)", "x AND y", "x OR y", "x.y = y", "(x + y) = x", "len(x) = y"}) {
            Map<String, Object> m = new LinkedHashMap<>(); m.put("x", h); m.put("y", k);
            robust(c, e, m, null);
        }
        if (c.space("map shapes", "hostile and foreign maps as data and as nested map x expressions with plain and nested fields")) {
            List<Map<?, ?>> ms = Arrays.asList(new ThrowingMap(), new TreeMap<>(Map.of(1, 2)), new HashMap<>(Map.of(1, 2)), new TreeMap<>(Comparator.reverseOrder()), new ConcurrentHashMap<>(Map.of("y", 1)), new Hashtable<>(Map.of("y", 1)), new IdentityHashMap<>(Map.of("y", 1)), new WeakHashMap<>(Map.of("y", 1)), Map.of("y", 1), Collections.singletonMap("y", null), new EnumMap<>(Map.of(Thread.State.NEW, 1)), new Properties());
            for (Map<?, ?> m : ms) for (String e : HOSTILE_EXPRS) {
                @SuppressWarnings("unchecked") Map<String, Object> top = (Map<String, Object>) m;
                robust(c, e, top, "x.y"); robust(c, e.replace("x", "y"), top, null);
                robust(c, e, G.data("x", m, "y", 1), "x.y");
                robust(c, e, G.data("x", G.data("y", m), "y", m), "y");
            }
        }
        if (c.space("promised type", "every arithmetic expression given to the boolean evaluator and every condition given to the arithmetic evaluator is a failure")) {
            for (E e : PLang.arithmetic()) { if (e instanceof Lit || e instanceof Fld) continue; c.condOut(print(e), PLang.DATA, null, Out.FAIL); c.condOut("(" + print(e) + ")", PLang.DATA, null, Out.FAIL); c.condOut("NOT (" + print(e) + ")", PLang.DATA, null, Out.FAIL); c.condOut("t AND (" + print(e) + ")", PLang.DATA, null, Out.FAIL); c.condOut("(" + print(e) + ") OR t", PLang.DATA, null, Out.FAIL); }
            for (E e : PLang.corpus()) { if (e instanceof Lit || e instanceof Fld) continue; c.valOut(print(e), PLang.DATA, Out.FAIL); c.valOut("(" + print(e) + ")", PLang.DATA, Out.FAIL); c.valOut("1 + (" + print(e) + ")", PLang.DATA, Out.FAIL); c.valOut("min(1, (" + print(e) + "))", PLang.DATA, Out.FAIL); c.valOut("-(" + print(e) + ")", PLang.DATA, Out.FAIL); }
            for (E e : PLang.corpus()) for (E x : PLang.arithmetic()) { if (e instanceof Lit || e instanceof Fld || x instanceof Lit || x instanceof Fld) continue; c.condOut("(" + print(e) + ") + (" + print(x) + ")", PLang.DATA, null, Out.FAIL); c.valOut("(" + print(x) + ") * (" + print(e) + ")", PLang.DATA, Out.FAIL); }
        }
        deep(c);
    }

    /** nested and long texts on ordinary thread stacks: a result, or a failure, never an error thrown to the caller */
    private static void deep(Ck c) {
        int[] sizes = c.quick ? new int[]{1, 10, 50, 100, 200, 400, 800, 1600, 3200, 6400, 12800, 25600} : new int[]{1, 5, 10, 25, 50, 75, 100, 150, 200, 300, 400, 600, 800, 1200, 1600, 2400, 3200, 4800, 6400, 9600, 12800, 19200, 25600, 51200};
        String[][] shapes = {{"(", "a = 1", ")"}, {"", "a = 1", " AND a = 1"}, {"NOT ", "t", ""}, {"NOT (", "t", ")"}, {"", "a", " + a"}, {"min(", "a", ")"}, {"a = 1 AND (", "t", ")"}, {"(", "t", ") OR f"}, {"-", "a", ""}, {"(-", "a", ")"}, {"(", "a", " + 1)"}, {"a ^ (", "1", ")"}, {"", "a IN (1", ", 1"}, {"", "min(1", ", a"}, {"", "p", ".q"}, {"", "a", " ^ 1"}, {"", "t", " OR t"}, {"(", "", ""}, {"", "", ")"}, {"'", "", ""}, {"", "1", "0"}, {"", "1", ".1"}, {"", "a", "a"}, {"", "a = ", "("}, {"max(1, sum(", "a", "), 2)"}, {"", "l CONTAINS_ANY (1", ", 2"}, {"= ", "", ""}, {"", "a", " a"}, {"1 = ", "1", ""}, {"(a > ", "1", ")"}};
        if (!c.space("depth", shapes.length + " shapes of nesting and chaining x sizes up to " + sizes[sizes.length - 1] + " on stacks of 256 KB, 1 MB and 8 MB x every entry point; and the same instances afterwards")) return;
        for (long stack : new long[]{256 << 10, 1 << 20, 8 << 20}) for (String[] s : shapes) c.heavy(w -> {
            Ck.Bad[] r = new Ck.Bad[1];
            Thread t = new Thread(null, () -> {
                Impl plain = new Impl(), cached = Impl.cached(2);
                for (int n : sizes) {
                    if (s[0].contains("-") && n > 100) continue;   // the parser takes cubic time on chains of minus signs
                    String open = s[0].repeat(n), close = s[2].repeat(n);
                    for (String text : new String[]{open + s[1] + close, open + s[1] + close + ")"}) for (int entry = 0; entry < 5; entry++) for (Impl i : new Impl[]{plain, cached}) {
                        if (n > 1600 && (i == cached && entry != 3 || entry == 0 || entry == 2)) continue;
                        if (n > 800 && !parses(s, text.length() == open.length() + s[1].length() + close.length() ? "" : ")")) continue;   // error recovery of the parser generator is quadratic in the depth, also where a default field fills in
                        w.count(true); Ref.STEPS.get()[0]++;
                        Bad2 b = wrong(i, text, PLang.DATA, "a", entry);
                        if (b.what() != null) { r[0] = new Ck.Bad(Ck.cut(text, 200) + " [" + s[0] + " x " + n + " " + s[1] + " " + s[2] + " x " + n + ", stack " + stack + "]", PLang.DATA, "a", "a result or a failure from " + ENTRY[entry], b.what())
                                .snippet("String text = " + Replay.lit(s[0]) + ".repeat(" + n + ") + " + Replay.lit(s[1]) + " + " + Replay.lit(s[2]) + ".repeat(" + n + ");\nThread t = new Thread(null, () -> { try { " + "show(new BooleanExpressionEvaluator(new BoolParser()).evaluate(text, map(\"a\", 1))); } catch (Throwable e) { show(\"thrown \" + e); } }, \"t\", " + stack + "L);\nt.start(); t.join();\n"); return; }
                        if (!Impl.agrees(Out.TRUE, i.cond("a = 1", PLang.DATA, null))) { r[0] = new Ck.Bad("a = 1 after a text of " + text.length() + " characters", PLang.DATA, null, "true", String.valueOf(i.cond("a = 1", PLang.DATA, null))); return; }
                    }
                }
            }, "deep", stack);
            t.start();
            try { t.join(); } catch (InterruptedException e) { throw new RuntimeException(e); }
            c.state("deep", s[0] + "|" + s[1] + "|" + s[2], null, String.valueOf(stack));
            return r[0];
        });
    }

    private static final Map<String, Boolean> PARSES = new ConcurrentHashMap<>();
    private static boolean parses(String[] s, String end) {
        return PARSES.computeIfAbsent(s[0] + "|" + s[1] + "|" + s[2] + "|" + end, k -> new Impl().parse(s[0].repeat(20) + s[1] + s[2].repeat(20) + end, null).ok());
    }

    // ---- C21 ------------------------------------------------------------------------------------

    /** one call of a history */
    record Call(boolean cond, String text, E e, Map<String, Object> data, String def) {
        Out want() { return cond ? Ref.cond(e, data, def) : Ref.val(e, data); }
        Impl.Got on(Impl i) { return cond ? i.cond(text, data, def) : i.val(text, data); }
        @Override public String toString() { return (cond ? "boolean " : "arithmetic ") + text + " with " + Ck.cut(Ck.show(data), 120) + (def == null ? "" : " default " + def); }
    }
    static Call cond(E e, Map<String, Object> d, String def) { return new Call(true, print(e), e, d, def); }
    static Call value(E e, Map<String, Object> d) { return new Call(false, print(e), e, d, null); }

    static Map<String, Object> copy(Map<String, Object> m) { Map<String, Object> r = new LinkedHashMap<>(); m.forEach((k, v) -> r.put(k, deepCopy(v))); return r; }
    @SuppressWarnings("unchecked")
    static Object deepCopy(Object o) {
        if (o instanceof Map<?, ?> m) return copy((Map<String, Object>) m);
        if (o instanceof Set<?> s) { Set<Object> r = new LinkedHashSet<>(); for (Object x : s) r.add(deepCopy(x)); return r; }
        if (o instanceof Collection<?> s) { List<Object> r = new ArrayList<>(); for (Object x : s) r.add(deepCopy(x)); return r; }
        if (o instanceof Object[] a) return a.clone();
        return o;
    }
    /** everything observable about the data: order, types, identity of the objects in it */
    static void shot(Object o, StringBuilder b) {
        if (o == null) { b.append("null;"); return; }
        b.append(o.getClass().getName()).append('@').append(o instanceof Map || o instanceof Collection || o.getClass().isArray() ? System.identityHashCode(o) : 0).append('{');
        if (o instanceof Map<?, ?> m) for (Map.Entry<?, ?> e : m.entrySet()) { shot(e.getKey(), b); b.append("->"); shot(e.getValue(), b); }
        else if (o instanceof Collection<?> s) for (Object x : s) shot(x, b);
        else if (o instanceof Object[] s) for (Object x : s) shot(x, b);
        else b.append(o);
        b.append("};");
    }
    static String shot(Object o) { StringBuilder b = new StringBuilder(); shot(o, b); return b.toString(); }

    static final class ReadOnlyMap extends AbstractMap<String, Object> {
        final Map<String, Object> m; ReadOnlyMap(Map<String, Object> m) { this.m = m; }
        @Override public Set<Entry<String, Object>> entrySet() { return Collections.unmodifiableMap(m).entrySet(); }
    }
    static final class ReadOnlyList extends AbstractList<Object> {
        final List<Object> l; ReadOnlyList(Collection<?> l) { this.l = new ArrayList<>(l); }
        @Override public Object get(int i) { return l.get(i); }
        @Override public int size() { return l.size(); }
    }
    static final class Plain extends AbstractCollection<Object> {
        final List<Object> l; Plain(Collection<?> l) { this.l = new ArrayList<>(l); }
        @Override public Iterator<Object> iterator() { return Collections.unmodifiableList(l).iterator(); }
        @Override public int size() { return l.size(); }
    }
    @SuppressWarnings("unchecked")
    static Object rebuilt(Object o, Function<Map<String, Object>, Map<String, Object>> mf, Function<Collection<?>, Collection<Object>> lf) {
        if (o instanceof Map<?, ?> m) { Map<String, Object> r = new LinkedHashMap<>(); m.forEach((k, v) -> r.put((String) k, rebuilt(v, mf, lf))); return mf.apply(r); }
        if (o instanceof Set<?>) return o;
        if (o instanceof Collection<?> s) { List<Object> r = new ArrayList<>(); for (Object x : s) r.add(rebuilt(x, mf, lf)); return lf.apply(r); }
        return o;
    }
    private static Map<String, Object> noNulls(Map<String, Object> m) { Map<String, Object> r = new LinkedHashMap<>(m); r.values().removeIf(Objects::isNull); return r; }
    static Map<String, Function<Map<String, Object>, Map<String, Object>>> mapKinds() {
        Map<String, Function<Map<String, Object>, Map<String, Object>>> k = new LinkedHashMap<>();
        k.put("HashMap", HashMap::new);
        k.put("reversed LinkedHashMap", m -> { Map<String, Object> r = new LinkedHashMap<>(); List<String> ks = new ArrayList<>(m.keySet()); Collections.reverse(ks); for (String x : ks) r.put(x, m.get(x)); return r; });
        k.put("TreeMap", TreeMap::new);
        k.put("reversed TreeMap", m -> { Map<String, Object> r = new TreeMap<>(Comparator.reverseOrder()); r.putAll(m); return r; });
        k.put("ConcurrentHashMap", m -> new ConcurrentHashMap<>(noNulls(m)));
        k.put("ConcurrentSkipListMap", m -> new ConcurrentSkipListMap<>(noNulls(m)));
        k.put("Hashtable", m -> new Hashtable<>(noNulls(m)));
        k.put("Map.copyOf", m -> Map.copyOf(noNulls(m)));
        k.put("unmodifiableMap", Collections::unmodifiableMap);
        k.put("synchronizedMap", Collections::synchronizedMap);
        k.put("AbstractMap", ReadOnlyMap::new);
        return k;
    }
    static Map<String, Function<Collection<?>, Collection<Object>>> listKinds() {
        Map<String, Function<Collection<?>, Collection<Object>>> k = new LinkedHashMap<>();
        k.put("LinkedList", LinkedList::new);
        k.put("unmodifiableList", l -> Collections.unmodifiableList(new ArrayList<>(l)));
        k.put("AbstractList", ReadOnlyList::new);
        k.put("AbstractCollection", Plain::new);
        k.put("CopyOnWriteArrayList", CopyOnWriteArrayList::new);
        k.put("Vector", Vector::new);
        return k;
    }

    static List<E> conds() {
        List<E> r = new ArrayList<>(PLang.corpus());
        r.addAll(Arrays.asList(any("lt", s("y"), s("z")), all("st", i(7), i(8)), cmp("=", fn("min", f("l")), i(1)), cmp("=", fn("median", f("l"), i(9), i(4)), i(3)), cmp(">", fn("mode", f("l"), i(2)), i(1)), cmp("=", fn("len", f("l")), i(2)), in("a", f("l")), cmp("=", f("zz"), i(1)), cmp("=", f("s"), s("abc")), cmp("=", f("p.n"), i(3)), cmp(">", f("p.zz"), i(3)), cmp("=", f("p.q"), b(true)),
                and(cmp("=", f("a"), i(2)), cmp("=", f("zz"), i(1))), cmp("=", f("d"), date("2024-02-29")), cmp("=", f("v"), ver("1.5.10")), rng("big", i(0), i(4000000000L))));
        return r;
    }
    private static Map<String, Object> flip(Map<String, Object> m, Object... kv) { return G.with(copy(m), kv); }
    /** the same fields with other values of the same types */
    @SuppressWarnings("unchecked")
    static Map<String, Object> other(Map<String, Object> m) {
        Map<String, Object> r = new LinkedHashMap<>();
        m.forEach((k, v) -> r.put(k, v instanceof Map ? other((Map<String, Object>) v) : otherValue(v)));
        return r;
    }
    private static Object otherValue(Object v) {
        if (v instanceof Boolean b) return !b;
        if (v instanceof Integer n) return n + 3;
        if (v instanceof Long n) return n + 3;
        if (v instanceof Double n) return n + 2.5;
        if (v instanceof Float n) return n + 2.5f;
        if (v instanceof BigDecimal n) return n.add(BigDecimal.ONE);
        if (v instanceof LocalDate d) return d.plusDays(40);
        if (v instanceof List<?> l) { List<Object> r = new ArrayList<>(); for (Object x : l) r.add(otherValue(x)); r.add(0, r.isEmpty() ? 1 : r.get(0)); return r; }
        if (v instanceof Set<?> l) { Set<Object> r = new LinkedHashSet<>(); for (Object x : l) r.add(otherValue(x)); return r; }
        if (v instanceof String t && t.matches("\\d{4}-.*")) return "2031" + t.substring(4);
        if (v instanceof String t && t.matches("\\d+(\\.\\d+)+")) return "7" + t;
        if (v instanceof String t) return t + "x";
        return v;
    }
    static List<Map<String, Object>> datas() {
        Map<String, Object> d = PLang.DATA;
        return Arrays.asList(d, flip(d, "a", 2, "t", false), flip(d, "l", Arrays.asList(2, 1, 2), "b", -1), flip(d, "a", null, "s", "x AND y"), flip(d, "p", G.data("q", false, "n", 4), "v", "1.5.9"), flip(d, "a", "1", "b", 2.5d, "d", java.time.LocalDate.of(2024, 2, 28)), G.data(), flip(d, "a", 1L, "l", new LinkedHashSet<>(Arrays.asList("x", "y")), "t", true, "f", true));
    }

    /** runs a history and compares every outcome with what the call gives alone */
    private static Ck.Bad history(Ck.Worker w, Ck c, Impl[] on, Call[] h, boolean fresh) {
        StringBuilder sn = new StringBuilder();
        for (int i = 0; i < h.length; i++) {
            if (fresh && i == h.length - 1) new Impl(new BoolParser());
            Out want = h[i].want();
            Impl.Got got = h[i].on(on[i]);
            w.count(!want.isAny());
            if (Impl.agrees(want, got)) continue;
            StringBuilder b = new StringBuilder();
            for (int j = 0; j <= i; j++) b.append(j == 0 ? "" : "; then ").append(h[j]);
            Impl.Got alone = h[i].on(new Impl());
            return new Ck.Bad(b.toString(), h[i].data(), h[i].def(), want + " (alone, on new instances: " + alone + ")", got.toString()).snippet(historySnippet(h, i, on));
        }
        return null;
    }
    private static String historySnippet(Call[] h, int n, Impl[] on) {
        StringBuilder b = new StringBuilder();
        List<Impl> inst = new ArrayList<>();
        for (int i = 0; i <= n; i++) {
            int k = -1; for (int j = 0; j < inst.size(); j++) if (inst.get(j) == on[i]) k = j;
            if (k < 0) { k = inst.size(); inst.add(on[i]); b.append("BoolParser p" + k + " = new BoolParser(); BooleanExpressionEvaluator b" + k + " = new BooleanExpressionEvaluator(p" + k + "); ArithmeticExpressionEvaluator a" + k + " = new ArithmeticExpressionEvaluator(p" + k + ");\n"); }
            Call x = h[i];
            b.append("show(").append(x.cond() ? "b" : "a").append(k).append(".evaluate(").append(Replay.lit(x.text())).append(", ").append(Replay.java(x.data())).append(x.def() == null ? "" : ", " + Replay.lit(x.def())).append("));\n");
        }
        return b.toString();
    }

    /** data whose lists are neither sorted nor free of repetitions */
    static List<Map<String, Object>> listDatas() {
        List<Map<String, Object>> r = new ArrayList<>();
        List<Object> big = new ArrayList<>();
        for (int i = 0; i < 40; i++) big.add(i * 17 % 41);
        for (Object[] l : new Object[][]{{3, 1, 2}, {1, 2, 3}, {3, 3, 1, 2, 1}, {2.5d, 1, 4L, new BigDecimal("0.50")}, {9, 8, 7, 6, 5, 4, 3, 2, 1, 0}, {5}, {"b", "c", "a"}, big.toArray(), {-1, 5, -7, 0}, {}}) for (int k = 0; k < 3; k++) {
            List<Object> al = new ArrayList<>(Arrays.asList(l));
            Object o = k == 0 ? al : k == 1 ? new LinkedList<>(al) : new LinkedHashSet<>(al);
            r.add(G.data("a", 1, "b", 7, "s", "a", "l", o, "n", G.data("l", new ArrayList<>(al)), "m", new ArrayList<>(Arrays.asList(10, 2, 7, 1)), "arr", al.toArray()));
        }
        return r;
    }
    static List<E> listExprs() {
        List<E> r = new ArrayList<>();
        E[] args = {f("l"), f("n.l"), f("m"), i(4), f("a"), bin('+', f("a"), i(1)), fn("max", f("m"))};
        for (String fn : AGG) for (int n = 1; n <= 3; n++) G.vectors(n, n == 3 ? 4 : args.length, v -> { List<E> l = new ArrayList<>(); for (int q : v) l.add(args[q]); r.add(fn(fn, l)); });
        r.add(fn("len", f("l"))); r.add(fn("len", f("n.l"))); r.add(fn("len", f("m")));
        for (int n = 1; n <= 8; n++) for (int at = -1; at < n; at++) for (int k = 0; k < 6; k++) {
            E x = new E[]{bin('+', f("a"), i(2)), fn("min", f("m"), i(3)), f("l"), neg(f("b")), f("b"), fn("sum", f("m"))}[k];
            List<E> l = new ArrayList<>();
            for (int j = 0; j < n; j++) l.add(j == at ? x : i(20 - j * 3 % 7));
            r.add(new In("b", false, l)); r.add(new In("a", true, l));
            if (!(x instanceof Fld)) { r.add(new Con("m", false, l)); r.add(new Con("l", true, l)); r.add(new Con("arr", n % 2 == 0, l)); }
            List<E> t = new ArrayList<>();
            for (int j = 0; j < n; j++) t.add(j == at ? k % 2 == 0 ? bin('+', f("s"), s("x")) : f("s") : s("t" + j * 5 % 8));
            r.add(new In("s", k < 3, t)); r.add(new Con("l", k < 3, t));
        }
        for (String op : CMPS) for (String fn : AGG) { r.add(cmp(op, fn(fn, f("l")), fn(fn, f("m")))); r.add(cmp(op, f("b"), fn(fn, f("n.l"), f("l")))); }
        r.add(and(cmp(">", fn("median", f("m")), i(1)), or(in("b", f("m")), any("m", i(2), i(99)))));
        r.add(not(all("m", i(1), i(2), i(7), i(10))));
        return r;
    }
    static BoolExpressionParser only(Node node) {
        return new BoolExpressionParser() {
            @Override public Try<Node> parseExpression(String t) { return Try.success(node); }
            @Override public Try<Node> parseExpression(String t, String d) { return Try.success(node); }
        };
    }
    /** data and tree after one evaluation (and one by the wrong evaluator) are what they were; the second evaluation of the tree agrees */
    static Ck.Bad unchanged(Ck.Worker w, Ck c, Call x) {
        Impl.Got p = w.impl.parse(x.text(), x.def());
        if (!(p.ok() && p.value() instanceof Node node)) return new Ck.Bad(x.text(), x.data(), x.def(), "a tree", p.toString());
        Map<String, Object> d = copy(x.data());
        String before = shot(d), tree = Dump.full(node);
        Impl fixed = new Impl(only(node));
        Out want = x.want();
        c.state("un", x.text(), x.data(), x.def());
        for (int round = 0; round < 2; round++) {
            Impl.Got got = new Call(x.cond(), x.text(), x.e(), d, x.def()).on(fixed);
            w.count(!want.isAny());
            String after = shot(d), tree2 = Dump.full(node);
            String sn = "BoolParser parser = new BoolParser();\nMap<String, Object> data = " + Replay.java(x.data()) + ";\nshow(data);\nshow(new BooleanExpressionEvaluator(parser).evaluate(" + Replay.lit(x.text()) + ", data));\nshow(new ArithmeticExpressionEvaluator(parser).evaluate(" + Replay.lit(x.text()) + ", data));\nshow(data);\n";
            if (!before.equals(after)) return new Ck.Bad(x.toString(), x.data(), x.def(), "data unchanged: " + before, after).snippet(sn);
            if (!tree.equals(tree2)) return new Ck.Bad(x.toString(), x.data(), x.def(), "the tree unchanged by evaluating it: " + tree, tree2).snippet(sn);
            if (!Impl.agrees(want, got)) return new Ck.Bad("one tree of " + x + ", evaluation " + (round + 1), x.data(), x.def(), want.toString(), got.toString()).snippet(sn);
            if (round == 0) { if (x.cond()) fixed.val(x.text(), d); else fixed.cond(x.text(), d, null); }
        }
        return null;
    }

    /** one tree evaluated with each of the data maps in turn and again in reverse: tree and outcomes stay those of the expression */
    private static void sequence(Ck c, E e, List<Map<String, Object>> ds, boolean cond) {
        c.add(w -> {
            String text = print(e);
            Impl.Got p = w.impl.parse(text, null);
            c.state("sq", text, null, null);
            if (!(p.ok() && p.value() instanceof Node node)) return new Ck.Bad(text, null, null, "a tree", p.toString());
            String before = Dump.full(node);
            Impl fixed = new Impl(only(node));
            for (int k = 0; k < 2 * ds.size(); k++) {
                Map<String, Object> d = ds.get(k < ds.size() ? k : 2 * ds.size() - 1 - k);
                Out want = cond ? Ref.cond(e, d) : Ref.val(e, d);
                Impl.Got got = cond ? fixed.cond(text, d, null) : fixed.val(text, d);
                w.count(!want.isAny());
                Ref.STEPS.get()[0]++;
                if (!Impl.agrees(want, got)) return new Ck.Bad("one tree of " + text + ", evaluation " + (k + 1) + " in a row", d, null, want.toString(), got.toString());
            }
            String after = Dump.full(node);
            return before.equals(after) ? null : new Ck.Bad(text, ds.get(0), null, "the tree unchanged by evaluating it: " + before, after);
        });
    }

    static void c21(Ck c) {
        List<E> conds = conds(), vals = PLang.arithmetic();
        List<Map<String, Object>> datas = datas();
        List<Call> calls = new ArrayList<>();
        for (E e : conds) for (Map<String, Object> d : datas) calls.add(cond(e, d, null));
        for (E e : vals) for (Map<String, Object> d : datas.subList(0, 4)) calls.add(value(e, d));
        for (Map<String, Object> d : datas) { calls.add(cond(cmp("=", new Omit(), i(1)), d, "a")); calls.add(cond(cmp("=", new Omit(), i(1)), d, "b")); calls.add(cond(and(cmp(">", new Omit(), i(0)), f("t")), d, null)); calls.add(cond(cmp("=", f("a"), i(1)), d, "b")); }

        if (c.space("history 1, repeated", calls.size() + " calls, each 3 times on one instance and once on another: always the same outcome")) for (Call x : calls) c.add(w -> {
            c.state("h", x.toString(), x.data(), x.def());
            Call[] h = {x, x, x, x};
            return history(w, c, new Impl[]{w.impl, w.impl, w.impl, new Impl()}, h, false);
        });
        int many = c.quick ? 5000 : 70000;
        if (c.space("many calls", "each of 14 calls " + many + " times on one new instance, all in turn " + many + " times each on one instance, and pairs alternating 1100 times: every outcome is that of the call alone")) {
            List<Call> fs = new ArrayList<>();
            for (int i = 0; i < calls.size(); i += Math.max(1, calls.size() / 10)) fs.add(calls.get(i));
            fs.addAll(calls.subList(calls.size() - 4, calls.size()));
            List<Call[]> plans = new ArrayList<>();
            for (Call x : fs) plans.add(new Call[]{x});
            plans.add(fs.toArray(new Call[0]));
            for (Call x : fs) for (Call y : fs) if (x != y) plans.add(new Call[]{x, y});
            for (Call[] plan : plans) c.heavy(w -> {
                Impl one = new Impl();
                Out[] want = new Out[plan.length];
                for (int i = 0; i < plan.length; i++) { want[i] = plan[i].want(); c.state("many", plan[i] + "|" + plan.length, plan[i].data(), plan[i].def()); }
                for (int n = 0; n < (plan.length == 2 ? 1100 : many); n++) for (int i = 0; i < plan.length; i++) {
                    Impl.Got got = plan[i].on(one);
                    w.count(true); Ref.STEPS.get()[0]++;
                    if (!Impl.agrees(want[i], got)) return new Ck.Bad(plan[i] + ", call " + (n * plan.length + i + 1) + " on one instance (" + plan.length + " calls in turn)", plan[i].data(), plan[i].def(), want[i].toString(), got.toString());
                }
                return null;
            });
        }
        if (c.space("lists", "every function over 1..3 list fields and literals, and IN/CONTAINS with 1..8 items whose first, middle or last is computed, over unsorted, repeating, mixed, long and sorted mutable lists (ArrayList, LinkedList, set, array, nested): the data and the tree are unchanged and a second evaluation of the same tree gives the same outcome")) {
            List<Call> all = new ArrayList<>();
            List<Map<String, Object>> ds = listDatas();
            for (E e : listExprs()) for (Map<String, Object> d : ds) all.add(e instanceof Fn ? value(e, d) : cond(e, d, null));
            for (Call x : all) c.add(w -> unchanged(w, c, x));
        }
        int step = 1;
        if (c.space("history 2", "all ordered pairs of " + calls.size() + " calls (" + "same instances, and a new instance in between): the outcome of each is its outcome alone")) for (int i = 0; i < calls.size(); i += step) for (Call y : calls) {
            Call x = calls.get(i);
            c.add(w -> {
                c.state("h2", x + "|" + y, x.data(), y.def());
                return history(w, c, new Impl[]{w.impl, w.impl}, new Call[]{x, y}, x.text().length() % 16 == 0);
            });
        }
        Call[] few = {cond(cmp("=", f("a"), i(1)), datas.get(0), null), cond(cmp("=", f("a"), i(1)), datas.get(1), null), cond(cmp("=", f("a"), i(1)), datas.get(6), null), cond(cmp("=", new Omit(), i(1)), datas.get(0), "a"), cond(cmp("=", new Omit(), i(1)), datas.get(0), null), cond(f("t"), datas.get(0), null), cond(not(f("t")), datas.get(1), null), cond(any("l", i(1), i(9)), datas.get(2), null),
            cond(in("a", f("l"), i(7)), datas.get(0), null), value(fn("median", f("l"), i(9), i(4)), datas.get(2)), value(bin('+', f("s"), s("x")), datas.get(3)), value(bin('*', neg(f("b")), d("2.5")), datas.get(5)), cond(cmp(">", f("v"), ver("1.5.9")), datas.get(4), null), new Call(true, "a = (", new Fld("no such field at all"), datas.get(0), null)};
        for (int n = 3; n <= (c.quick ? 4 : 5); n++) { int k = n; if (c.space("history " + n, "all sequences of " + n + " of " + few.length + " calls x every assignment to 2 instances x new construction before the last")) G.vectors(n, few.length, v -> {
            for (int m = 0; m < 1 << k - 1; m++) {
                int mask = m;
                if (c.quick && k == 3 && m == 2) continue;
                int[] vv = v.clone();
                c.add(w -> {
                    Impl other = OTHER.get();
                    Call[] h = new Call[k]; Impl[] on = new Impl[k];
                    StringBuilder key = new StringBuilder();
                    for (int i = 0; i < k; i++) { h[i] = few[vv[i]]; on[i] = i > 0 && (mask >> i - 1 & 1) == 1 ? other : w.impl; key.append(vv[i]).append(on[i] == other ? "o" : "w"); }
                    c.state("h3", key.toString(), null, null);
                    return history(w, c, on, h, mask == 1);
                });
            }
        }); }
        if (c.space("data unchanged", calls.size() + " calls x mutable data: order, content, types and identity of every map, list and value after the call, and after a failing one, are what they were")) for (Call x : calls) c.add(w -> {
            Map<String, Object> d = copy(x.data());
            String before = shot(d);
            Impl.Got g1 = new Call(x.cond(), x.text(), x.e(), d, x.def()).on(w.impl);
            Impl.Got g2 = x.cond() ? w.impl.val(x.text(), d) : w.impl.cond(x.text(), d, null);
            w.count(true);
            c.state("u", x.text(), x.data(), x.def());
            String after = shot(d);
            return before.equals(after) ? null : new Ck.Bad(x.toString(), x.data(), x.def(), "data unchanged: " + before, after).snippet("BoolParser parser = new BoolParser();\nMap<String, Object> data = " + Replay.java(x.data()) + ";\nshow(data);\nnew BooleanExpressionEvaluator(parser).evaluate(" + Replay.lit(x.text()) + ", data);\nnew ArithmeticExpressionEvaluator(parser).evaluate(" + Replay.lit(x.text()) + ", data);\nshow(data);\n");
        });
        if (c.space("data changed by the caller", calls.size() + " calls and all lists, each twice on one evaluator with the caller changing the same map, nested map and list objects in between to the content of another data map and back: every outcome is that of the content at the time of the call")) {
            List<Call> all = new ArrayList<>();
            for (E e : conds) all.add(cond(e, null, null));
            for (E e : vals) all.add(value(e, null));
            for (String d : new String[]{"a", "b"}) { all.add(cond(cmp("=", new Omit(), i(1)), null, d)); all.add(cond(and(cmp(">", new Omit(), i(0)), f("t")), null, d)); }
            for (E e : new E[]{and(f("t"), f("f")), and(cmp("=", f("a"), i(1)), f("t")), or(cmp("=", f("a"), i(1)), f("t")), and(f("t"), cmp("=", f("a"), i(1))), or(f("f"), f("t")), not(f("t")), and(not(f("t")), f("p.q")), cmp("=", f("t"), b(true)), in("s", f("s"), s("q")), cmp("=", bin('+', f("a"), f("b")), bin('+', f("b"), f("a"))), any("l", f("a")), rng("p.n", i(3), i(4))}) all.add(cond(e, null, null));
            List<Map<String, Object>> ds = new ArrayList<>(datas);
            for (Call x : all) for (int i = 0; i < ds.size(); i++) for (int j = 0; j < ds.size(); j++) if (i != j) {
                Map<String, Object> d1 = ds.get(i), d2 = ds.get(j);
                for (int cache = 0; cache < 2; cache++) { int k = cache; c.add(w -> changing(w, c, x, d1, d2, k == 0 ? w.impl : CACHED.get())); }
            }
            List<Map<String, Object>> ls = listDatas();
            for (E e : listExprs()) for (int i = 0; i < ls.size(); i += c.quick ? 7 : 1) { Map<String, Object> d1 = ls.get(i), d2 = ls.get((i + 4) % ls.size()); Call x = e instanceof Fn ? value(e, null) : cond(e, null, null); c.add(w -> changing(w, c, x, d1, d2, w.impl)); }
        }
        mapKinds().forEach((name, mf) -> {
            if (c.space("maps: " + name, calls.size() + " calls with every map of the data (nested too) as a " + name)) for (Call x : calls) {
                @SuppressWarnings("unchecked") Map<String, Object> d = (Map<String, Object>) rebuilt(x.data(), mf, l -> new ArrayList<>(l));
                Call y = new Call(x.cond(), x.text(), x.e(), d, x.def());
                c.add(w -> { c.state("m" + name, x.toString(), x.data(), name); Out want = x.want(); Impl.Got got = y.on(w.impl); w.count(true); return Impl.agrees(want, got) ? null : new Ck.Bad(x + " with the data in a " + name, d, x.def(), want.toString(), got.toString()); });
            }
        });
        listKinds().forEach((name, lf) -> {
            if (c.space("lists: " + name, calls.size() + " calls with every list of the data as a " + name)) for (Call x : calls) {
                @SuppressWarnings("unchecked") Map<String, Object> d = (Map<String, Object>) rebuilt(x.data(), m -> m, lf);
                Call y = new Call(x.cond(), x.text(), x.e(), d, x.def());
                c.add(w -> { c.state("l" + name, x.toString(), x.data(), name); Out want = x.want(); Impl.Got got = y.on(w.impl); w.count(true); return Impl.agrees(want, got) ? null : new Ck.Bad(x + " with lists as " + name, d, x.def(), want.toString(), got.toString()); });
            }
        });
        if (c.space("tree unchanged", "trees of all expressions, evaluated with " + datas.size() + " data maps by both evaluators through a parser that hands out one tree: the tree and every outcome stay the same")) {
            List<Call> all = new ArrayList<>();
            for (E e : conds) all.add(cond(e, null, null));
            for (E e : vals) all.add(value(e, null));
            for (Call x : all) c.add(w -> {
                Node node = (Node) w.impl.parse(x.text(), null).value();
                if (node == null) return null;
                String before = Dump.full(node);
                Impl fixed = new Impl(new BoolExpressionParser() {
                    @Override public Try<Node> parseExpression(String t) { return Try.success(node); }
                    @Override public Try<Node> parseExpression(String t, String d) { return Try.success(node); }
                });
                for (int round = 0; round < 2; round++) for (Map<String, Object> d : datas) {
                    Call y = new Call(x.cond(), x.text(), x.e(), d, null);
                    Out want = y.want();
                    Impl.Got got = y.on(fixed);
                    if (x.cond()) fixed.val(x.text(), d); else fixed.cond(x.text(), d, null);
                    w.count(true);
                    c.state("tr", x.text(), d, null);
                    String after = Dump.full(node);
                    if (!before.equals(after)) return new Ck.Bad(x.text(), d, null, "the tree unchanged by evaluating it: " + before, after);
                    if (!Impl.agrees(want, got)) return new Ck.Bad("one tree of " + x.text() + " evaluated again", d, null, want.toString(), got.toString());
                }
                return null;
            });
        }
        {
            E[] ks = {f("t"), cmp("=", f("a"), i(1)), in("a", i(1), i(3)), notIn("b", f("a"), i(9)), rng("a", i(0), i(1)), any("l", i(1), i(9)), all("l", i(1), f("a")), cmp("=", f("n"), new Null("null")), cmp(">", bin('+', f("a"), i(1)), f("b")), cmp("<", fn("min", f("a"), f("b")), i(2)), cmp("!=", s("x"), f("s")), cmp(">", ver("1.5.9"), f("v")), cmp("<=", f("d"), date("2024-02-29")), b(true), cmp("=", bin('^', neg(i(2)), i(2)), bin('*', f("a"), i(4))), in("a", bin('-', f("b"), i(1)), fn("max", f("l")))};
            List<Map<String, Object>> ds = Arrays.asList(
                    G.data("t", true, "a", 1, "b", 2, "l", new ArrayList<>(Arrays.asList(1, 2)), "n", null, "s", "y", "v", "1.5.8", "d", "2024-02-28"),
                    G.data("t", false, "a", 2, "b", 2, "l", new ArrayList<>(Arrays.asList(3, 4)), "n", 5, "s", "x", "v", "1.6.0", "d", "2024-03-01"),
                    G.data("t", true, "a", 3, "b", 9, "n", 5, "s", "x", "v", "1.0.0"),
                    G.data("t", false, "a", 1L, "b", 1.5d, "l", new ArrayList<>(Arrays.asList(1, 9)), "s", "q", "v", "1.5.9", "d", LocalDate.of(2024, 2, 29)),
                    G.data("b", 2, "l", new ArrayList<>(Arrays.asList(1)), "d", "2024-02-28"));
            if (c.space("one tree, conditions", "all trees of two of " + ks.length + " sorts of conditions with AND/OR and NOT at every node, and of three (both shapes, all operators, two choices of NOT), each tree evaluated in turn, and again in reverse, with " + ds.size() + " data maps that turn the conditions true, false and failing: the tree and every outcome are those of a fresh parse")) {
                G.vectors(2, ks.length, v -> { int[] w = v.clone(); for (int ops = 0; ops < 2; ops++) for (int nots = 0; nots < 8; nots++) sequence(c, G.tree(G.shapes(2).get(0), i -> ks[w[i]], ops, nots), ds, true); });
                G.vectors(3, ks.length, v -> { int[] w = v.clone(); for (Object[] sh : G.shapes(3)) for (int ops = 0; ops < 4; ops++) for (int nots : c.quick ? new int[]{0, w[0] % 2 == 0 ? 6 : 9} : new int[]{0, 1, 2, 4, 8, 16, 6, 9, 21}) sequence(c, G.tree(sh, i -> ks[w[i]], ops, nots), ds, true); });
                for (int n : G.sizes(c.quick ? 130 : 513)) for (int and = 0; and < 2; and++) for (int at : G.places(n)) { E l = null; for (int j = 0; j < n; j++) { E x = j == at ? ks[(n + at) % ks.length] : and == 1 ? cmp("!=", f("b"), i(j + 50)) : cmp("=", f("b"), i(j + 50)); l = j == 0 ? x : new Log(and == 1, l, x); } sequence(c, l, ds, true); }
            }
            E[] as = {i(2), d("1.5"), neg(i(3)), f("a"), f("b"), fn("max", f("l")), fn("sum", i(1), f("a")), bin('*', i(2), i(3))};
            if (c.space("one tree, arithmetic", "all trees of two and three of " + as.length + " sorts of operands (thorough four) x all operators x both shapes, plain and with unary minus at two choices of nodes, as value and compared, each tree evaluated in turn, and again in reverse, with " + ds.size() + " data maps")) {
                G.vectors(2, as.length, v -> { int[] w = v.clone(); for (char o : OPS) { E e = bin(o, as[w[0]], as[w[1]]); sequence(c, e, ds, false); sequence(c, neg(e), ds, false); sequence(c, cmp(">", e, as[w[0]]), ds, true); sequence(c, in("a", as[w[1]], e), ds, true); sequence(c, fn("min", e, as[w[1]]), ds, false); } });
                for (int n = 3; n <= (c.quick ? 3 : 4); n++) G.vectors(n, n == 3 ? as.length : 4, v -> { int[] w = v.clone(); for (Object[] sh : G.shapes(w.length)) G.vectors(w.length - 1, 6, o -> { int[] q = o.clone(); E e = G.arith(sh, i -> as[w[i]], i -> OPS[q[i]]); sequence(c, e, ds, false); if ((w[0] + q[0] + q[1]) % 4 == 0) { sequence(c, cmp("<=", as[w[1]], e), ds, true); sequence(c, bin('-', neg(e), e), ds, false); } }); });
                for (String fn : AGG) G.vectors(2, as.length, v -> { int[] w = v.clone(); sequence(c, fn(fn, as[w[0]], as[w[1]]), ds, false); sequence(c, fn(fn, as[w[0]], f("l"), as[w[1]]), ds, false); sequence(c, bin('+', fn(fn, as[w[0]]), as[w[1]]), ds, false); });
            }
        }
        if (c.space("parsing", "all ordered pairs of " + (conds.size() + vals.size()) + " texts x default fields {none, a}: each parse gives the tree it gives on a new parser")) {
            List<String> ts = new ArrayList<>();
            for (E e : conds) ts.add(print(e));
            for (E e : vals) ts.add(print(e));
            ts.addAll(Arrays.asList("a = ", "= 1", "(a = 1", "a = 'x", ") a = 1", "a AND", "> 1 OR < 0"));
            Map<String, String> alone = new HashMap<>();
            for (String t : ts) for (String d : new String[]{null, "a"}) alone.put(d + "|" + t, outcome(new Impl().parse(t, d)));
            for (String t : ts) for (String u : ts) for (int m = 0; m < 4; m++) {
                String d = (m & 1) == 1 ? "a" : null, e = (m & 2) == 2 ? "a" : null;
                c.add(w -> {
                    c.state("pp", t + "\u0001" + u, null, d + "|" + e);
                    Impl.Got g1 = w.impl.parse(t, d);
                    String o1 = outcome(g1);
                    String o2 = outcome(w.impl.parse(u, e));
                    String o3 = outcome(g1);
                    w.count(true);
                    if (o1.equals(alone.get(d + "|" + t)) && o2.equals(alone.get(e + "|" + u)) && o3.equals(o1)) return null;
                    return new Ck.Bad("parse " + t + " (default " + d + "), then " + u + " (default " + e + ")", null, null, alone.get(d + "|" + t) + " ; " + alone.get(e + "|" + u), o1 + " ; " + o2 + " ; the first afterwards " + o3);
                });
            }
        }
    }
    /** makes the content of a (map or list) that of b, keeping the objects */
    @SuppressWarnings("unchecked")
    static void become(Map<String, Object> a, Map<String, Object> b) {
        a.keySet().retainAll(b.keySet());
        b.forEach((k, v) -> {
            Object o = a.get(k);
            if (o instanceof Map && v instanceof Map) become((Map<String, Object>) o, (Map<String, Object>) v);
            else if (o instanceof List && v instanceof List) { ((List<Object>) o).clear(); ((List<Object>) o).addAll((List<Object>) v); }
            else if (o instanceof Set && v instanceof Set) { ((Set<Object>) o).clear(); ((Set<Object>) o).addAll((Set<Object>) v); }
            else a.put(k, deepCopy(v));
        });
    }
    static Ck.Bad changing(Ck.Worker w, Ck c, Call x, Map<String, Object> d1, Map<String, Object> d2, Impl on) {
        Map<String, Object> m = copy(d1);
        c.state("cd", x.text(), d1, x.def() + Ck.show(d2));
        for (int round = 0; round < 3; round++) {
            Map<String, Object> now = round == 1 ? d2 : d1;
            if (round > 0) become(m, now);
            Out want = new Call(x.cond(), x.text(), x.e(), now, x.def()).want();
            Impl.Got got = new Call(x.cond(), x.text(), x.e(), m, x.def()).on(on);
            w.count(!want.isAny());
            Ref.STEPS.get()[0]++;
            if (!Impl.agrees(want, got)) return new Ck.Bad(x.text() + ", call " + (round + 1) + " with one map object whose content the caller changes", now, x.def(), want.toString(), got.toString());
        }
        return null;
    }
    private static final ThreadLocal<Impl> OTHER = ThreadLocal.withInitial(Impl::new);
    static String outcome(Impl.Got g) { return g.ok() ? g.value() instanceof Node n ? Dump.full(n) : String.valueOf(g.value().getClass().getSimpleName() + " " + g.value()) : g.fail() ? "failure" : g.toString(); }

    // ---- C22 ------------------------------------------------------------------------------------

    /** one call of a caching-parser history: entry point, text, default field */
    record Ask(int entry, String text, String def) {
        @Override public String toString() { return new String[]{"parse", "parse", "boolean", "boolean", "arithmetic"}[entry] + " " + Replay.lit(text) + (entry == 1 || entry == 3 ? " default " + Replay.lit(def) : ""); }
    }
    private static final Map<String, Object> CD = G.data("a", 1, "b", 2, "Aa", 1, "BB", 2, "t", true, "aa", 5, "A", 7, "s", "a  b");

    static void c22(Ck c) {
        c.assumptions.add("Cache maintenance (eviction) runs in tasks of the common pool; the check runs with common-pool parallelism 0 and enumerates after every call whether pending maintenance runs.");
        List<Ask> asks = new ArrayList<>();
        for (Object[] o : new Object[][]{{"a = 1", null}, {"a = 1", "a"}, {"a = 1", "b"}, {"a=1", null}, {"a  = 1", null}, {"A = 1", null}, {"a = 2", null}, {"aa = 1", null}, {"= 1", null}, {"= 1", "a"}, {"= 1", "b"}, {"= 1", ""}, {"= 1", " "}, {"= 1", "Aa"}, {"= 1", "BB"}, {"Aa = 1", null}, {"BB = 1", null}, {"a = ", null}, {"a = ", "a"}, {"s = 'a b'", null}, {"s = 'a  b'", null}, {"(a = 1)", null}, {"a = 1 AND t", null}, {"a = 1 and t", null}, {"a = 1 OR t", null}, {"NOT t", null}, {"", null}, {"", "a"}, {null, null}, {null, "a"}, {"> 0 AND < 2", "a"}, {"> 0 AND < 2", "b"}, {"a", "= 1"}})
            for (int entry : o[1] == null ? new int[]{0, 2} : new int[]{1, 3}) asks.add(new Ask(entry, (String) o[0], (String) o[1]));
        for (Object[] o : new Object[][]{{"a + 1"}, {"a +1"}, {"a + 2"}, {"A + 1"}, {"a +"}, {"min(a, b)"}, {"min(b, a)"}, {"a"}, {"b"}}) for (int entry : new int[]{0, 4}) asks.add(new Ask(entry, (String) o[0], null));
        asks.add(new Ask(3, "a = 1", null)); asks.add(new Ask(1, "a = 1", null)); asks.add(new Ask(1, "= 1", null)); asks.add(new Ask(3, "= 1", null));
        Map<Ask, String> alone = new HashMap<>();
        for (Ask a : asks) alone.put(a, outcome(call(new Impl(), a.entry(), a.text(), CD, a.def())));
        for (int size : new int[]{0, 1, 2, 3, 100}) if (c.space("history 2, size " + size, "all ordered pairs of " + asks.size() + " calls (texts differing in spacing, case, a character, the default field; failing; equal hash codes) and the first again, x maintenance after each, on a cache of " + size)) for (Ask x : asks) for (Ask y : asks) for (int m = 0; m < 4; m++) cached(c, size, m, alone, x, y, x);
        List<Ask> few = Arrays.asList(new Ask(0, "a = 1", null), new Ask(3, "a = 1", "b"), new Ask(1, "= 1", "Aa"), new Ask(3, "= 1", "BB"), new Ask(3, "= 1", "a"), new Ask(2, "= 1", null), new Ask(2, "a = ", null), new Ask(2, "a=1", null), new Ask(0, "A = 1", null), new Ask(4, "a + 1", null), new Ask(0, "a + 1", null), new Ask(2, "a = 1", null), new Ask(0, null, null));
        for (int n = 3; n <= (c.quick ? 4 : 5); n++) for (int size : new int[]{0, 1, 2, 3}) {
            int k = n;
            List<Ask> use = n == 4 && c.quick ? few.subList(0, 9) : n == 5 ? few.subList(0, 8) : few;
            if (c.space("history " + n + ", size " + size, "all sequences of " + n + " of " + use.size() + " calls x " + (n == 3 ? "every choice of maintenance after each call" : "maintenance never or always") + " on a cache of " + size)) G.vectors(n, use.size(), v -> {
                Ask[] h = new Ask[k];
                for (int i = 0; i < k; i++) h[i] = use.get(v[i]);
                if (k == 3) for (int m = 0; m < 8; m++) cached(c, size, m, alone, h);
                else { cached(c, size, 0, alone, h); cached(c, size, -1, alone, h); }
            });
        }
        if (c.space("corpus", "every expression of the corpus through a cache of 0, 2 and 1000, twice in order and once in reverse, next to the plain parser, with and without default field")) {
            List<E> all = new ArrayList<>(conds()); all.addAll(PLang.arithmetic());
            for (int size : new int[]{0, 2, 1000}) for (String def : new String[]{null, "a", "zz"}) c.heavy(w -> {
                Impl cached = Impl.cached(size);
                List<Object> trees = new ArrayList<>(); List<String> dumps = new ArrayList<>();
                for (int round = 0; round < 3; round++) for (int i = 0; i < all.size(); i++) {
                    String text = print(all.get(round == 2 ? all.size() - 1 - i : i));
                    for (int entry = 0; entry < 5; entry++) {
                        Impl.Got g = call(cached, entry, text, PLang.DATA, def), p = call(w.impl, entry, text, PLang.DATA, def);
                        w.count(true);
                        c.state("cc" + entry, text, null, size + def);
                        if (!outcome(g).equals(outcome(p))) return new Ck.Bad(text, PLang.DATA, def, "as the plain parser from " + ENTRY[entry] + ": " + outcome(p), outcome(g)).snippet(callSnippet(entry, text, PLang.DATA, def, "new CachedBoolParser(" + size + ")"));
                        if (g.ok() && g.value() instanceof Node) { trees.add(g.value()); dumps.add(outcome(g)); }
                    }
                }
                for (int i = 0; i < trees.size(); i++) if (!Dump.full(trees.get(i)).equals(dumps.get(i))) return new Ck.Bad(dumps.get(i), null, def, "results handed out earlier unchanged", Dump.full(trees.get(i)));
                return null;
            });
        }
        int many = c.quick ? 20000 : 200000;
        if (c.space("working set", many + " different texts through caches of 0, 10 and 1000, each asked twice at distance 7: every tree is the tree of its own text")) for (int size : new int[]{0, 10, 1000}) c.heavy(w -> {
            Impl cached = Impl.cached(size);
            for (int i = 0; i < many; i++) for (int k : new int[]{i, Math.max(0, i - 7)}) {
                String text = "f" + k + " = " + k * 3;
                String want = "EQUALS(FIELD<f" + k + ">, INTEGER:Integer<" + k * 3 + ">)";
                Impl.Got g = cached.parse(text, null);
                w.count(true); Ref.STEPS.get()[0]++;
                c.state("ws", text, null, String.valueOf(size));
                String got = g.ok() ? Dump.of(g.value()) : g.toString();
                if (!got.equals(want)) return new Ck.Bad(text + " after " + i + " other texts, cache of " + size, null, null, want, got);
                if (i % 1000 == 999) ForkJoinPool.commonPool().awaitQuiescence(1, java.util.concurrent.TimeUnit.SECONDS);
            }
            return null;
        });
        int reps = c.quick ? 5000 : 70000;
        if (c.space("many calls", "each of " + asks.size() + " calls " + reps + " times on one caching parser, all of them in turn " + reps / 5 + " times, pairs of 13 alternating 1100 times, on caches of 0, 2 and 100: every outcome is that of the plain parser")) for (int size : new int[]{0, 2, 100}) {
            List<Ask[]> plans = new ArrayList<>();
            for (Ask x : asks) plans.add(new Ask[]{x});
            plans.add(asks.toArray(new Ask[0]));
            for (Ask x : few) for (Ask y : few) if (x != y) plans.add(new Ask[]{x, y});
            for (Ask[] plan : plans) c.heavy(w -> {
                Impl cached = Impl.cached(size);
                for (int n = 0; n < (plan.length == 1 ? reps / (size == 0 ? 5 : 1) : plan.length == 2 ? 1100 : reps / 5 / (size == 100 ? 1 : 5)); n++) for (Ask x : plan) {
                    Impl.Got g = call(cached, x.entry(), x.text(), CD, x.def());
                    w.count(true); Ref.STEPS.get()[0]++;
                    String got = outcome(g);
                    if (!got.equals(alone.get(x))) return new Ck.Bad(x + ", time " + (n + 1) + " on a cache of " + size + " (" + plan.length + " calls in turn)", CD, x.def(), alone.get(x), got);
                }
                c.state("many" + size, plan[0] + "|" + plan[plan.length - 1], null, null);
                return null;
            });
        }
        if (c.space("long texts", "pairs of texts of sizes round 16, 32, ... 1024 (thorough 10000) that differ in one character at the ends, the middle or round a limit, or only in length, or in the default field (long too), asked one after the other and again, on caches of 1 and 100")) {
            for (int n : G.sizes(c.quick ? 1100 : 10001)) {
                if (n < 12) continue;
                String base = "abcdefghij".repeat(n).substring(0, n);
                for (int p : G.places(n)) for (int size : new int[]{1, 100}) {
                    if (c.quick && n > 130 && (p + size) % 2 == 0) continue;
                    String other = base.substring(0, p) + "Z" + base.substring(p + 1);
                    String[][] texts = {{base + " = 1", null}, {other + " = 1", null}, {"= 1", base}, {"= 1", other}, {base + " = 1", other}, {"s = '" + base + "'", null}, {"s = '" + other + "'", null}, {"s = '" + base.substring(0, p) + " " + base.substring(p) + "'", null}, {base + "1 = 1", null}, {"(" + base + " = 1)", null},
                            {base + " = 1", "a"}, {other + " = 1", "a"}, {other + " = 1", base}, {base + " = 1 AND > 2", "a"}, {other + " = 1 AND > 2", "a"}, {base + " = 1 AND > 2", other}, {base + " = 1 AND > 2", base}, {"> 2 OR s = '" + base + "'", "a"}, {"> 2 OR s = '" + other + "'", "a"}};
                    c.add(w -> {
                        Impl cached = Impl.cached(size);
                        for (int round = 0; round < 2; round++) for (String[] a : texts) {
                            String got = outcome(cached.parse(a[0], a[1])), want = outcome(w.impl.parse(a[0], a[1]));
                            w.count(true); Ref.STEPS.get()[0]++;
                            c.state("cl" + size, a[0], null, a[1]);
                            if (!got.equals(want)) return new Ck.Bad(a[0] + " after texts differing at " + p + ", cache of " + size, null, a[1], Ck.cut(want, 300), Ck.cut(got, 300));
                        }
                        return null;
                    });
                }
            }
        }
        String[] seps = {"", " ", "  ", "|", "||", ":", "::", ",", ", ", ";", "#", "-", "--", "_", "__", ".", "/", "@", "$", "&", "=", "~", "+", "\t", "\n", "\0", "\u0001", "\u001f", "null", "->"};
        if (c.space("text and default field", "pairs and triples of calls whose text and default field, put together with one of " + seps.length + " separators in either order, read the same, and default fields that differ only in case, blanks, quotes, accents, dots, hash or by being absent, empty or 'null', each with 9 texts: in every order on caches of 1 and 100")) {
            String[] bodies = {"= 1", "> 0 AND < 2", "IN (1, 2)", "> 0 OR b = 1", "NOT (> 5)", "= 'x'", "1 TO 3", "CONTAINS_ANY (1)", "a = 1"};
            for (String body : bodies) for (String sep : seps) for (int order = 0; order < 2; order++) {
                String x = "a", y = "b";
                // body + sep + (x + sep + y)  ==  (body + sep + x) + sep + y
                Ask[] h = order == 0 ? new Ask[]{new Ask(1, body, x + sep + y), new Ask(1, body + sep + x, y), new Ask(3, body + sep + x + sep + y, null), new Ask(1, body + sep + x + sep + y, "")}
                        : new Ask[]{new Ask(1, body, y + sep + x), new Ask(1, x + sep + body, y), new Ask(0, y + sep + x + sep + body, null), new Ask(3, y + sep + x + sep + body, "")};
                for (int size : new int[]{1, 100}) for (int i = 0; i < h.length; i++) for (int j = 0; j < h.length; j++) if (i != j) { cached(c, size, 0, null, h[i], h[j], h[i]); cached(c, size, 0, null, new Ask(h[i].entry() | 1, h[i].text(), h[i].def()), new Ask(h[j].entry() | 1, h[j].text(), h[j].def())); }
            }
            String[] names = {"a", "A", "b", " a", "a ", "a.b", "a.B", "ab", "a_b", "'a'", "aa", "\u00e0", "a\u0300", "\u0131", "i", "I", "\u0130", "Aa", "BB", "AaAa", "BBBB", "AaBB", "null", "NULL", "", " ", null, "first.name", "first.Name", "firstname", "0", "00", "1", "true"};
            for (String body : bodies) for (String d : names) for (String e : names) if (!Objects.equals(d, e)) for (int size : new int[]{1, 100}) { cached(c, size, 0, null, new Ask(1, body, d), new Ask(1, body, e), new Ask(3, body, d)); if (size == 1) continue; cached(c, size, 0, null, new Ask(3, body, d), new Ask(3, body, e)); if (e == null) cached(c, size, 0, null, new Ask(1, body, d), new Ask(0, body, null), new Ask(2, body, null)); if (d == null) cached(c, size, 0, null, new Ask(0, body, null), new Ask(1, body, e), new Ask(4, body, null)); }
        }
        if (c.space("separate caches", "two caching parsers and a plain one used alternately: pairs of calls x pairs of parsers")) for (Ask x : asks) for (Ask y : asks) c.add(w -> {
            Impl p = Impl.cached(10), q = Impl.cached(10);
            c.state("sc", x + "|" + y, null, null);
            Object[][] plan = {{p, x}, {q, y}, {p, y}, {q, x}, {w.impl, x}, {p, x}};
            for (Object[] o : plan) {
                Ask a = (Ask) o[1];
                String got = outcome(call((Impl) o[0], a.entry(), a.text(), CD, a.def()));
                w.count(true);
                if (!got.equals(alone.get(a))) return new Ck.Bad(x + " and " + y + " on two caching parsers", CD, null, alone.get(a), got);
            }
            return null;
        });
    }
    private static void cached(Ck c, int size, int maintain, Map<Ask, String> alone, Ask... h) {
        c.add(w -> {
            Impl cached = Impl.cached(size);
            Object[] trees = new Object[h.length];
            String[] wants = new String[h.length];
            StringBuilder key = new StringBuilder().append(size).append('/').append(maintain);
            for (int i = 0; i < h.length; i++) {
                key.append('|').append(h[i]);
                Impl.Got g = call(cached, h[i].entry(), h[i].text(), CD, h[i].def());
                w.count(true);
                Ref.STEPS.get()[0]++;
                String got = outcome(g);
                wants[i] = alone != null ? alone.get(h[i]) : outcome(call(w.impl, h[i].entry(), h[i].text(), CD, h[i].def()));
                if (!got.equals(wants[i])) return bad(size, maintain, h, i, wants[i], got);
                if (g.ok() && g.value() instanceof Node) trees[i] = g.value();
                if ((maintain >> i & 1) == 1) ForkJoinPool.commonPool().awaitQuiescence(1, java.util.concurrent.TimeUnit.SECONDS);
                for (int j = 0; j <= i; j++) if (trees[j] != null && !Dump.full(trees[j]).equals(wants[j])) return bad(size, maintain, h, i, "the tree returned by call " + (j + 1) + " unchanged: " + wants[j], Dump.full(trees[j]));
            }
            c.state("ch", key.toString(), null, null);
            c.sample(key.toString(), null, null, "as the plain parser");
            return null;
        });
    }
    private static Ck.Bad bad(int size, int maintain, Ask[] h, int n, String want, String got) {
        StringBuilder b = new StringBuilder("cache of " + size + ": "), s = new StringBuilder("CachedBoolParser parser = new CachedBoolParser(" + size + ");\nBooleanExpressionEvaluator b = new BooleanExpressionEvaluator(parser); ArithmeticExpressionEvaluator a = new ArithmeticExpressionEvaluator(parser);\nMap<String, Object> data = " + Replay.java(CD) + ";\n");
        for (int i = 0; i <= n; i++) {
            b.append(i == 0 ? "" : "; then ").append(h[i]);
            String t = h[i].text() == null ? "(String) null" : Replay.lit(h[i].text()), d = h[i].def() == null ? "(String) null" : Replay.lit(h[i].def());
            s.append("show(").append(switch (h[i].entry()) { case 0 -> "parser.parseExpression(" + t + ")"; case 1 -> "parser.parseExpression(" + t + ", " + d + ")"; case 2 -> "b.evaluate(" + t + ", data)"; case 3 -> "b.evaluate(" + t + ", data, " + d + ")"; default -> "a.evaluate(" + t + ", data)"; }).append(");\n");
            if ((maintain >> i & 1) == 1) s.append("java.util.concurrent.ForkJoinPool.commonPool().awaitQuiescence(1, java.util.concurrent.TimeUnit.SECONDS);\n");
        }
        return new Ck.Bad(b.toString(), CD, null, "as the plain parser: " + want, got).snippet(s.toString());
    }
}
