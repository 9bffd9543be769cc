package mc;

import static mc.E.*;
import java.math.BigDecimal;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.Collections;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.Vector;
import java.util.function.Consumer;
import java.util.function.Function;

/** C07 to C12: ranges, membership, containment, null checks, fields, default field. */
final class PSets {
    static Lit lit(String n) { return n.contains(".") ? d(n) : new Lit(n, V.integer(new BigDecimal(n))); }

    static List<Object> objs(String n) {
        List<Object> r = new ArrayList<>();
        for (PCompare.Rep x : PCompare.reps(n)) if (!x.isLit()) r.add(x.obj());
        return r;
    }

    // ---- C07 ------------------------------------------------------------------------------------

    static void c07(Ck c) {
        String[] bounds = {"0", "0.0", "1", "1.0", "2", "5", "10", "0.5", "1.5", "0.999", "1.001", "127", "128", "16777217", "2147483647", "2147483648", "9007199254740993", "9223372036854775807", "9007199254740993.5", "0.00000000000000000001", "9223372036854775808.5"};
        String[] values = {"0", "1", "-1", "2", "3", "5", "6", "10", "11", "0.5", "-0.5", "1.5", "0.999", "0.9999", "1.001", "1.0005", "127", "128", "129", "16777216", "16777217", "16777218", "2147483646", "2147483647", "2147483648", "2147483649", "9007199254740992", "9007199254740993", "9007199254740994",
            "9223372036854775806", "9223372036854775807", "-9223372036854775808", "9007199254740993.5", "9223372036854775807.5", "0.00000000000000000001", "-0.00000000000000000001", "9223372036854775808.5", "9223372036854775809", "-2147483648", "100000000000000000000"};
        if (c.space("boundary ranges", values.length + " values in every numeric type x " + bounds.length + "^2 bounds (also reversed), simple and nested field")) {
            for (String v : values) for (Object o : objs(v)) {
                Map<String, Object> d = G.data("x", o, "n", G.data("m", G.data("x", o)));
                for (String lo : bounds) for (String hi : bounds) {
                    c.cond(rng("x", lit(lo), lit(hi)), d);
                    if (!c.quick || lo.length() + hi.length() < 6) c.cond(rng("n.m.x", lit(lo), lit(hi)), d);
                }
            }
        }
        if (c.space("dense ranges", "every 0 <= lo,hi <= 12 (integer and decimal bounds, reversed too) x every value -2..14 in steps of 1/2 in every type; and its equivalent AND of two comparisons")) {
            for (int v2 = -4; v2 <= 28; v2++) {
                BigDecimal v = new BigDecimal(v2).divide(BigDecimal.valueOf(2));
                for (Object o : objs(v.stripTrailingZeros().toPlainString())) {
                    Map<String, Object> d = G.data("x", o);
                    for (int lo = 0; lo <= 12; lo++) for (int hi = 0; hi <= 12; hi++) for (int k = 0; k < (c.quick ? 2 : 4); k++) {
                        Lit l = lit(lo + (k % 2 == 0 ? "" : ".0")), h = lit(hi + (k == 1 || k == 2 ? ".5" : ""));
                        c.cond(rng("x", l, h), d);
                        if (k == 0) c.cond(and(cmp(">=", f("x"), l), cmp("<=", f("x"), h)), d);
                    }
                }
            }
        }
        if (c.space("digits", "bounds and values of 1..30 digits, off by one in the last place, whole and decimal, in every type")) {
            for (int n = 1; n <= 30; n++) for (int dot = 0; dot < 3; dot++) {
                String s = "123456789012345678901234567890".substring(0, n);
                BigDecimal b = new BigDecimal(s).movePointLeft(dot == 0 ? 0 : dot == 1 ? n / 2 : n);
                BigDecimal ulp = BigDecimal.ONE.movePointLeft(b.scale());
                for (int dv = -1; dv <= 1; dv++) for (int dl = -1; dl <= 1; dl++) for (int dh = -1; dh <= 1; dh++) {
                    BigDecimal lo = b.add(ulp.multiply(BigDecimal.valueOf(dl))), hi = b.add(ulp.multiply(BigDecimal.valueOf(dh)));
                    if (lo.signum() < 0 || hi.signum() < 0 || !fits(lo) || !fits(hi)) continue;
                    for (Object o : objs(b.add(ulp.multiply(BigDecimal.valueOf(dv))).toPlainString()))
                        c.cond(rng("x", lit(lo.toPlainString()), lit(hi.toPlainString())), G.data("x", o));
                }
            }
        }
        if (c.space("no number", "missing, null and non-numeric fields (text, boolean, date, list, map) x 9 ranges, plain and under NOT, AND, OR: failures")) {
            Object[] bad = {null, "abc", "", "x5", true, false, LocalDate.of(2024, 1, 1), LocalDateTime.of(2024, 1, 1, 0, 0), Arrays.asList(1, 2), Arrays.asList(3), G.data("y", 3), Collections.emptyList(), "2024-01-01", " ", "five"};
            for (Object o : bad) for (String lo : new String[]{"0", "1.5", "3000000000"}) for (String hi : new String[]{"5", "7.25", "9000000000"}) for (String fld : new String[]{"x", "n.x", "zz", "n.zz", "x.y.z", "n"}) {
                if (o instanceof Map && fld.equals("x.y")) continue;
                Map<String, Object> d = G.data("x", o, "n", G.data("x", o), "t", true, "f", false);
                E r = rng(fld, lit(lo), lit(hi));
                c.cond(r, d);
                c.cond(not(r), d);
                c.cond(and(f("t"), r), d);
                c.cond(or(f("f"), r), d);
                c.cond(or(r, f("t")), d);
            }
        }
        if (c.space("context", "ranges in chains of AND, OR and NOT with other conditions, keyword in both cases")) {
            for (int a = 0; a <= 6; a++) for (int lo = 0; lo <= 6; lo++) for (int hi = 0; hi <= 6; hi++) for (int k = 0; k < 2; k++) {
                Map<String, Object> d = G.data("a", a, "b", 3.5, "t", k == 0);
                E r = rng("a", i(lo), i(hi)), q = rng("b", lit(lo + ".5"), i(hi));
                c.cond(and(r, f("t")), d);
                c.cond(or(f("t"), r), d);
                c.cond(not(and(r, q)), d);
                c.cond(or(r, not(q)), d);
                c.cond(print(r).replace(" TO ", " to ") + " && " + print(q), and(r, q), d, null);
                c.cond(print(r) + " OR t AND " + print(q), and(or(r, f("t")), q), d, null);
            }
        }
    }
    static boolean fits(BigDecimal b) { return b.scale() > 0 || Ref.fitsLong(b); }

    // ---- C08 ------------------------------------------------------------------------------------

    static final Map<String, Object> D8 = G.data("one", 1, "two", 2L, "half", 0.5d, "onebd", new BigDecimal("1.00"), "txt", "abc", "t", true, "f", false, "neg", -1, "big", 9007199254740993L, "nums", Arrays.asList(1, 5), "mixed", Arrays.asList("abc", 2, true),
            "empty", Collections.emptyList(), "single", Collections.singletonList(0.5d), "date", LocalDate.of(2024, 2, 29), "sdate", "2024-02-29", "ver", "1.5.9", "nil", null, "n", G.data("one", 1, "txt", "abc"), "i128", 128, "l128", 128L, "set", new LinkedHashSet<>(Arrays.asList(1, 2)));

    static void c08(Ck c) {
        E[] items = {i(1), i(2), d("1.0"), d("0.5"), neg(i(1)), s("abc"), s("1"), b(true), f("one"), f("half"), f("txt"), f("nums"), f("mixed"), bin('+', f("one"), i(1)), fn("min", i(3), f("one")), s("ABC"), b(false), f("n.one"), fn("max", f("nums")), i(9007199254740993L),
            date("2024-02-29"), ver("1.5.9.0"), f("zz"), f("nil"), bin('/', i(1), i(0)), f("single"), f("empty"), neg(f("neg")), i(128), f("set"), s2("abc"), f("t"), bin('-', f("txt"), i(1))};
        String[] fields = {"one", "two", "half", "onebd", "txt", "t", "f", "neg", "big", "date", "sdate", "ver", "zz", "nil", "n.one", "n.zz", "i128", "l128", "n.txt"};
        int m3 = c.quick ? 20 : items.length;
        if (c.space("lists of 1 and 2", items.length + " kinds of items (literals, negated, text, booleans, fields, lists, arithmetic, functions, dates, versions, missing, failing)^1..2 x " + fields.length + " fields x IN / NOT IN")) {
            for (String x : fields) for (int n = 1; n <= 2; n++) G.vectors(n, items.length, v -> {
                E[] l = Arrays.stream(v).mapToObj(q -> items[q]).toArray(E[]::new);
                c.cond(in(x, l), D8);
                c.cond(notIn(x, l), D8);
            });
        }
        if (c.space("lists of 3", m3 + "^3 items x 7 fields x IN (thorough: all items)")) {
            for (String x : new String[]{"one", "txt", "half", "t", "big", "neg", "date"}) G.vectors(3, m3, v -> {
                E[] l = Arrays.stream(v).mapToObj(q -> items[q]).toArray(E[]::new);
                c.cond((v[0] + v[1] + v[2]) % 2 == 0 ? in(x, l) : notIn(x, l), D8);
            });
        }
        int max = c.quick ? 40 : 150;
        if (c.space("positions", "lists of 1.." + max + " items with the hit (or a missing field) at each position, for numbers, text, decimals and mixed items")) {
            for (int n = 1; n <= max; n++) for (int hit = -1; hit < n; hit++) for (int k = 0; k < 5; k++) {
                E[] l = new E[n];
                for (int j = 0; j < n; j++) {
                    l[j] = k == 0 ? i(1000 + j) : k == 1 ? s("w" + j) : k == 2 ? d(j + ".25") : k == 3 ? (j % 3 == 0 ? i(j + 5) : j % 3 == 1 ? s("v" + j) : neg(i(j))) : i(100 + j);
                    if (j == hit) l[j] = k == 0 ? f("one") : k == 1 ? s("abc") : k == 2 ? d("1.00") : k == 3 ? fn("min", f("one"), i(7)) : f("zz");
                }
                c.cond(in(k == 1 ? "txt" : "one", l), D8);
                c.cond(notIn(k == 1 ? "txt" : "one", l), D8);
            }
        }
        int big = c.quick ? 1100 : 10001;
        if (c.space("sizes", "lists in the data and lists of items of sizes round 4, 8, 16, ... 1024 (thorough 10000), the hit at the ends, the middle and round each of these limits, numbers, text and longs; null elements before the hit; the list alone, first, last")) {
            for (int n : G.sizes(big)) {
                int[] at = G.places(n);
                for (int k = 0; k < 3; k++) {
                    int kind = k;
                    for (int h = -1; h < at.length; h++) {
                        if (n > 2100 && h > 12) break;
                        List<Object> l = new ArrayList<>(n);
                        for (int j = 0; j < n; j++) l.add(kind == 0 ? (Object) (j + 100) : kind == 1 ? "w" + j : (Object) (5000000000L + j));
                        if (h >= 0) l.set(at[h], kind == 0 ? (Object) 1 : kind == 1 ? "abc" : (Object) 7L);
                        Map<String, Object> d = G.data("one", kind == 2 ? 7 : 1, "txt", "abc", "l", l, "m", new LinkedHashSet<>(l), "n", G.data("l", l));
                        String x = kind == 1 ? "txt" : "one";
                        E other = kind == 1 ? s("zz") : i(9);
                        c.cond(in(x, f("l")), d);
                        c.cond(notIn(x, other, f("n.l")), d);
                        c.cond(in(x, f("m"), other), d);
                    }
                }
                if (n <= 600 || !c.quick && n < 5000) for (int h = -1; h < at.length; h++) for (int k = 0; k < 3; k++) {
                    E[] l = new E[n];
                    for (int j = 0; j < n; j++) l[j] = k == 0 ? i(100 + j) : k == 1 ? s("w" + j) : j % 2 == 0 ? f("t" + j) : i(5000000000L + j);
                    Map<String, Object> d = G.data("one", 1, "txt", "abc");
                    if (k == 2) for (int j = 0; j < n; j += 2) d.put("t" + j, 3000 + j);
                    if (h >= 0) l[at[h]] = k == 0 ? f("one") : k == 1 ? s("abc") : i(1);
                    c.cond(h % 2 == 0 ? in(k == 1 ? "txt" : "one", l) : notIn(k == 1 ? "txt" : "one", l), d);
                }
            }
        }
        {
            // values of every sort, also those whose comparison the model leaves open: the code's own answer to = decides
            Object[] vals = {1, 2L, 0.5d, 1.5f, new BigDecimal("1.00"), -1, 3000000000L, "abc", "", " ", "1", "1.0", "0.5", "true", "null", true, false, LocalDate.of(2024, 2, 29), LocalDate.of(2023, 1, 1), LocalDateTime.of(2024, 2, 29, 0, 0), LocalDateTime.of(2024, 2, 29, 10, 0, 0, 5), "2024-02-29", "2024-02-29 00:00:00", "2024-02-30", "1.5.9", "1.5.9.0", "1.5", "2024", G.data("a", 1), 'c', (short) 1, java.math.BigInteger.ONE, Double.NaN};
            E[] lits = {i(1), d("1.0"), d("0.5"), neg(i(1)), s("abc"), s("1"), s(""), b(true), date("2024-02-29"), date("2023-01-01"), dt("2024-02-29 00:00:00"), dt("2023-01-01 00:00:00"), ver("1.5.9"), ver("1.5.9.0"), s("2024-02-29"), i(3000000000L)};
            Map<String, Object> base = G.data();
            List<E> its = new ArrayList<>(Arrays.asList(lits));
            for (int q = 0; q < vals.length; q++) { base.put("v" + q, vals[q]); its.add(f("v" + q)); }
            if (c.space("disjunction", vals.length + " fields of every sort (also foreign types) against all lists of 1 and 2 of " + its.size() + " items, all lists of 3 of the literals and lists of 3..6 with one item at each place among others of one sort: the outcome (also failure) is that of = with the items in their order")) {
                for (int q = 0; q < vals.length; q++) {
                    String x = "v" + q;
                    for (E a : its) { disjunction(c, x, base, a); for (E b2 : its) disjunction(c, x, base, a, b2); }
                    G.vectors(3, lits.length, v -> disjunction(c, x, base, lits[v[0]], lits[v[1]], lits[v[2]]));
                    for (E a : its) for (E b2 : its) for (int n = 3; n <= 6; n++) for (int at = 0; at < n; at += c.quick ? n - 1 : 1) {
                        if (c.quick && n == 5) continue;
                        E[] l = new E[n];
                        Arrays.fill(l, b2);
                        l[at] = a;
                        disjunction(c, x, base, l);
                    }
                }
            }
        }
        if (c.space("list fields", "field lists of length 0..4 over 6 values as the only item, first, last and twice, list/set x IN/NOT IN")) {
            Object[] el = {1, 2L, 0.5d, "abc", true, new BigDecimal("1.0")};
            for (int n = 0; n <= (c.quick ? 3 : 4); n++) G.vectors(n, el.length, v -> {
                List<Object> l = new ArrayList<>();
                for (int q : v) l.add(el[q]);
                for (Collection<Object> cc : Arrays.asList(l, new LinkedHashSet<>(l))) {
                    Map<String, Object> d = G.data("one", 1, "txt", "abc", "t", true, "l", cc, "m", Arrays.asList(7, "q"));
                    for (String x : new String[]{"one", "txt", "t"}) {
                        c.cond(in(x, f("l")), d);
                        c.cond(notIn(x, f("l"), i(9)), d);
                        c.cond(in(x, s("zz"), f("m"), f("l")), d);
                    }
                }
            });
        }
        if (c.space("context", "membership in AND, OR, NOT, as an operand, keyword spellings, redundant parentheses round items")) {
            for (String x : fields) for (int a = 0; a < 18; a++) for (int q = 0; q < 18; q++) {
                E e = in(x, items[a], items[q]), ne = notIn(x, items[q]);
                c.cond(and(e, ne), D8);
                c.cond(or(ne, e), D8);
                c.cond(not(e), D8);
                c.cond(not(ne), D8);
                c.cond(x + " in (" + print(items[a]) + "," + print(items[q]) + ")", e, D8, null);
                c.cond(x + " not in ((" + print(items[q]) + "))", ne, D8, null);
                c.cond(x + " not IN (" + print(items[q]) + " )", ne, D8, null);
                c.cond(cmp("=", e, b(true)), D8);
            }
        }
    }

    /** x IN (items) on the code against = on the code, item by item; NOT IN the negation */
    private static void disjunction(Ck c, String x, Map<String, Object> d, E... items) {
        c.add(w -> {
            String want = "false";
            StringBuilder how = new StringBuilder();
            for (E e : items) {
                String t = x + " = " + print(e);
                Impl.Got g = w.impl.cond(t, d, null);
                how.append(t).append(" -> ").append(g).append("; ");
                if (g.broken()) return new Ck.Bad(t, d, null, "a result", g.toString());
                if (!g.ok()) { want = "fails"; break; }
                if (Boolean.TRUE.equals(g.value())) { want = "true"; break; }
            }
            String t1 = print(in(x, items)), t2 = print(notIn(x, items));
            c.state("c", t1, d, null);
            w.count(true);
            Impl.Got a = w.impl.cond(t1, d, null), b = w.impl.cond(t2, d, null);
            String ga = a.ok() ? "" + a.value() : "fails", gb = b.ok() ? "" + b.value() : "fails";
            if (!a.broken() && ga.equals(want)) {
                if (!b.broken() && gb.equals(want.equals("fails") ? want : want.equals("true") ? "false" : "true")) return null;
                return new Ck.Bad(t2, d, null, "the negation of " + t1 + ", which is " + want, b.toString()).snippet(Replay.evalSnippet(true, t2, d, null));
            }
            return new Ck.Bad(t1, d, null, want + " (" + how + ")", a.toString()).snippet(Replay.evalSnippet(true, t1, d, null));
        });
    }

    // ---- C09 ------------------------------------------------------------------------------------

    static final List<Function<List<Object>, Object>> CONTAINERS = Arrays.asList(
            ArrayList::new, LinkedHashSet::new, List::toArray, l -> Collections.unmodifiableList(new ArrayList<>(l)), HashSet::new, LinkedList::new, ArrayDeque9::new, l -> Arrays.asList(l.toArray()));
    /** a collection that is neither a list nor a set */
    static final class ArrayDeque9 extends java.util.AbstractCollection<Object> {
        private final List<Object> l;
        ArrayDeque9(List<Object> l) { this.l = new ArrayList<>(l); }
        @Override public java.util.Iterator<Object> iterator() { return Collections.unmodifiableList(l).iterator(); }
        @Override public int size() { return l.size(); }
    }

    private static boolean plain(Object q) { return q == null || q instanceof String t && !t.isBlank() && !V.looksNumeric(t) || q instanceof Number n && !Double.isNaN(n.doubleValue()) && (n instanceof Integer || n instanceof Long || n instanceof BigDecimal || n instanceof Double); }

    /** one item in a collection: there, or not there; among elements of foreign types the code's own answer for the element alone decides */
    private static void containing(Ck c, Object col, E item, boolean there, boolean foreign) {
        Map<String, Object> d = G.data("l", col);
        if (!foreign) { c.cond(any("l", item), d); c.cond(all("l", item), d); c.cond(any("l", item, item), d); return; }
        if (col.getClass().isArray() || !(col instanceof Collection<?>)) { if (!(col instanceof Object[])) return; }
        List<Object> es = col instanceof Object[] a ? Arrays.asList(a) : new ArrayList<>((Collection<?>) col);
        c.add(w -> {
            boolean hit = false, fail = false;
            for (Object x : es) {
                Impl.Got g = w.impl.cond("l CONTAINS_ANY (" + print(item) + ")", G.data("l", Collections.singletonList(x)), null);
                if (g.ok()) hit |= Boolean.TRUE.equals(g.value()); else fail = true;
            }
            w.count(!fail);
            if (there && !hit) return new Ck.Bad(print(any("l", item)), d, null, "true for the element alone", "not true");
            for (E e : new E[]{any("l", item), all("l", item), any("l", item, item)}) {
                Impl.Got g = w.impl.cond(print(e), d, null);
                c.state("c", print(e), d, null);
                if (g.broken() || !fail && (!g.ok() || !g.value().equals(hit))) return new Ck.Bad(print(e), d, null, hit + " as for the elements alone", g.toString());
            }
            return null;
        });
    }

    static void c09(Ck c) {
        Object[] el = {1, 2, 2L, 0.5d, "a", "b", true, new BigDecimal("1.0"), "A", -1, 128, 128L, false, "1"};
        E[][] groups = {
            {i(1), i(2), i(3), neg(i(1)), fn("min", i(1), i(2)), i(128), bin('+', i(1), i(1)), f("one")},
            {d("1.0"), d("0.5"), d("2.50"), neg(d("1.0")), f("half"), d("128.00")},
            {s("a"), s("b"), s("A"), s("1"), s2("a"), s("c"), f("txt"), s("")},
            {b(true), b(false), f("t")},
        };
        int ml = c.quick ? 3 : 4;
        for (int g = 0; g < groups.length; g++) {
            E[] its = groups[g];
            int mi = c.quick ? 2 : 3, fg = g;
            if (c.space("items " + new String[]{"integer", "decimal", "text", "boolean"}[g], "collections of 0.." + ml + " over " + el.length + " elements of all types x 1.." + mi + " of " + its.length + " items x ANY/ALL; container kinds rotating")) {
                int[] count = new int[1];
                for (int n = 0; n <= ml; n++) G.vectors(n, el.length, v -> {
                    List<Object> l = new ArrayList<>();
                    for (int q : v) l.add(el[q]);
                    Map<String, Object> d = G.data("l", CONTAINERS.get(count[0]++ % 3).apply(l), "one", 1, "half", 0.5d, "txt", "b", "t", true);
                    for (int k = 1; k <= (v.length == ml ? mi - 1 : mi); k++) G.vectors(k, its.length, w -> {
                        E[] e = Arrays.stream(w).mapToObj(q -> its[q]).toArray(E[]::new);
                        c.cond(any("l", e), d);
                        c.cond(all("l", e), d);
                    });
                });
            }
        }
        if (c.space("one type", "collections of 1..3 elements of one type (Integer, Long, Float, Double, BigDecimal of two scales, text; then one of another type at each place) over 5 values x items written as whole number, decimal, decimal with zeros, negated, computed x ANY/ALL, in each container")) {
            String[] vals = {"1", "2", "-1", "0.5", "128"};
            List<Function<String, Object>> types = Arrays.asList(v -> v.contains(".") ? null : Integer.valueOf(v), v -> v.contains(".") ? null : Long.valueOf(v), v -> Float.valueOf(v), v -> Double.valueOf(v), v -> new BigDecimal(v), v -> new BigDecimal(v).setScale(3), v -> "t" + v);
            List<List<E>> its = Arrays.asList(
                    Arrays.asList(i(1), i(2), neg(i(1)), i(128), i(3), bin('+', i(1), i(1))), Arrays.asList(d("1.0"), d("0.5"), d("2.00"), neg(d("1.0")), d("128.0"), d("0.50"), d("0.25"), bin('/', i(1), i(2))), Arrays.asList(s("t1"), s("t2"), s("1"), s("t0.5"), s("t")));
            for (Function<String, Object> ty : types) for (Function<String, Object> other : types) for (int n = 1; n <= 3; n++) for (int odd = -1; odd < n; odd++) {
                if (odd >= 0 == (ty == other)) continue;
                int fo = odd;
                int[] cn = {0};
                G.vectors(n, vals.length, v -> {
                    List<Object> l = new ArrayList<>();
                    for (int j = 0; j < v.length; j++) { Object o = (j == fo ? other : ty).apply(vals[v[j]]); if (o == null) return; l.add(o); }
                    if (c.quick && fo >= 0 && v.length == 3 && (v[0] + v[1] + v[2]) % 3 != 0) return;
                    Map<String, Object> d = G.data("l", CONTAINERS.get(cn[0]++ % 3).apply(l));
                    for (List<E> g : its) for (int q = 0; q < g.size(); q++) { c.cond(any("l", g.get(q)), d); c.cond(all("l", g.get(q)), d); c.cond(cn[0] % 2 == 0 ? all("l", g.get(q), g.get((q + cn[0]) % g.size())) : any("l", g.get((q + cn[0]) % g.size()), g.get(q)), d); }
                });
            }
        }
        if (c.space("containers", CONTAINERS.size() + " kinds of collections (lists, sets, arrays, read-only, other) with 0..3 of 5 elements x 1..2 items x ANY/ALL, nested field too")) {
            Object[] e2 = {1, "a", true, 2.5d, 7000000000L};
            E[] its = {i(1), s("a"), b(true), d("2.5"), i(7000000000L), i(5), s("zz")};
            for (Function<List<Object>, Object> f : CONTAINERS) for (int n = 0; n <= 3; n++) G.vectors(n, e2.length, v -> {
                List<Object> l = new ArrayList<>();
                for (int q : v) l.add(e2[q]);
                Object o = f.apply(l);
                Map<String, Object> d = G.data("l", o, "n", G.data("l", o));
                for (int k = 1; k <= 2; k++) G.vectors(k, its.length, w -> {
                    E[] e = Arrays.stream(w).mapToObj(q -> its[q]).toArray(E[]::new);
                    c.cond(any("l", e), d);
                    c.cond(all("n.l", e), d);
                });
            });
        }
        if (c.space("elements of every sort", "collections (list, set, array, read-only, other) of 1..3 elements among them null, lists, maps, arrays, dates, foreign objects, the element sought at each place x items of each sort x ANY/ALL: other elements make no difference")) {
            Object[] odd = {null, Arrays.asList(1, 2), G.data("a", 1), new Object[]{1}, new int[]{1}, LocalDate.of(2024, 2, 29), new Object(), 'c', Collections.emptyList(), Double.NaN, "", " ", "null", new Thread(), Long.MAX_VALUE, new BigDecimal("1E+30"), new java.util.Date(0), java.math.BigInteger.TEN, (byte) 3, E.b(true)};
            Object[][] own = {{1, i(1)}, {"a", s("a")}, {0.5d, d("0.5")}, {true, b(true)}, {5000000000L, i(5000000000L)}, {"1.5.9", ver("1.5.9.0")}, {LocalDate.of(2023, 1, 2), date("2023-01-02")}, {LocalDateTime.of(2023, 1, 2, 3, 4), dt("2023-01-02 03:04:00")}};
            for (Function<List<Object>, Object> f : CONTAINERS) for (Object o : odd) for (Object o2 : odd) for (Object[] w : own) for (int at = -1; at < 3; at++) for (int n = 1; n <= 3; n++) {
                if (at >= n || o != o2 && n < 2 + (at >= 0 ? 1 : 0)) continue;
                List<Object> l = new ArrayList<>();
                for (int j = 0; j < n; j++) l.add(j == at ? w[0] : l.contains(o) ? o2 : o);
                containing(c, f.apply(l), (E) w[1], at >= 0, l.stream().anyMatch(q -> q != w[0] && !plain(q)));
            }
        }
        int max = c.quick ? 30 : 100;
        if (c.space("positions", "collections of 1.." + max + " and lists of 1.. items with the decisive element at each position, numbers and text")) {
            for (int n = 1; n <= max; n++) for (int hit = -1; hit < n; hit++) for (int k = 0; k < 2; k++) {
                List<Object> l = new ArrayList<>();
                E[] it = new E[n];
                for (int j = 0; j < n; j++) { l.add(k == 0 ? (Object) (j + 100) : "w" + j); it[j] = k == 0 ? i(j + 100) : s("w" + j); }
                E[] miss = it.clone(), one = new E[n];
                for (int j = 0; j < n; j++) one[j] = k == 0 ? i(j + 900) : s("x" + j);
                if (hit >= 0) { miss[hit] = k == 0 ? i(5) : s("none"); one[hit] = k == 0 ? i(100 + (hit * 7) % n) : s("w" + (hit * 7) % n); }
                Map<String, Object> d = G.data("l", l);
                c.cond(all("l", miss), d);
                c.cond(any("l", one), d);
                c.cond(any("l", it[Math.max(0, hit)]), d);
                c.cond(all("l", it[Math.max(0, hit)], it[0], it[n - 1]), d);
            }
        }
        int big = c.quick ? 1100 : 10001;
        if (c.space("sizes", "collections and lists of items of sizes round 4, 8, 16, ... 1024 (thorough 10000), the decisive element at the ends, the middle and round each of these limits; list, set, array; items as literals and as a list field")) {
            for (int n : G.sizes(big)) {
                int[] at = G.places(n);
                for (int k = 0; k < 2; k++) for (int h = -1; h < at.length; h++) {
                    if (n > 2100 && h > 12) break;
                    List<Object> l = new ArrayList<>(n);
                    for (int j = 0; j < n; j++) l.add(k == 0 ? (Object) (j + 100) : "w" + j);
                    if (h >= 0) l.set(at[h], k == 0 ? (Object) 1 : "abc");
                    Map<String, Object> d = G.data("l", CONTAINERS.get((h + 1) % 3).apply(l), "n", G.data("l", l));
                    E hit = k == 0 ? i(1) : s("abc"), miss = k == 0 ? i(9) : s("zz");
                    c.cond(any("l", hit), d);
                    c.cond(all("n.l", hit), d);
                    c.cond(any("l", miss, hit), d);
                    c.cond(all("l", hit, k == 0 ? i(n + 99) : s("w" + (n - 1)), k == 0 ? i(100) : s("w0")), d);
                }
                if (n <= 600 || !c.quick && n < 5000) for (int k = 0; k < 2; k++) for (int h = -1; h < at.length; h++) {
                    List<Object> l = new ArrayList<>();
                    E[] there = new E[n], none = new E[n];
                    for (int j = 0; j < n; j++) { if (k == 0 || j % 50 == 0) l.add(k == 0 ? (Object) (j + 100) : "w" + j); there[j] = k == 0 ? i(j + 100) : s("w" + j / 50 * 50); none[j] = k == 0 ? i(j + 90000) : s("x" + j); }
                    if (h >= 0) { there[at[h]] = k == 0 ? i(5) : s("none"); none[at[h]] = k == 0 ? i(100 + (n - 1)) : s("w0"); }
                    Map<String, Object> d = G.data("l", l);
                    c.cond(all("l", there), d);
                    c.cond(any("l", none), d);
                }
            }
        }
        if (c.space("dates and versions", "collections of dates / version texts x date and version items")) {
            String[] ds = {"2024-02-29", "2024-03-01", "2023-12-31"};
            for (String a : ds) for (String b2 : ds) for (String x : ds) for (String y : ds) {
                Map<String, Object> d = G.data("l", Arrays.asList(LocalDate.parse(a), LocalDate.parse(b2)), "v", Arrays.asList("1.5.9", "2.0.0"));
                c.cond(any("l", date(x), date(y)), d);
                c.cond(all("l", date(x), date(y)), d);
                c.cond(any("v", ver("1.5." + (x.charAt(9) - '0')), ver("2.0.0.0")), d);
                c.cond(all("v", ver("1.5.9.0"), ver(y.charAt(9) == '1' ? "2.0" + ".0" : "2.0.1")), d);
            }
        }
        if (c.space("no collection", "missing, null and non-collection fields x items x ANY/ALL, under NOT, AND, OR: failures")) {
            Object[] bad = {null, 1, "abc", "a", true, 1.5d, LocalDate.of(2024, 1, 1), G.data("a", 1), new BigDecimal("1"), "", "1,2", "[1]"};
            for (Object o : bad) for (E it : new E[]{i(1), s("a"), s("abc"), b(true), d("1.5"), f("one")}) for (String fld : new String[]{"x", "zz", "n.x", "n.zz", "x.y"}) {
                Map<String, Object> d = G.data("x", o, "n", G.data("x", o), "t", true, "one", 1);
                for (E e : new E[]{any(fld, it), all(fld, it), any(fld, it, it), all(fld, it, it)}) { c.cond(e, d); c.cond(not(e), d); c.cond(and(f("t"), e), d); c.cond(or(e, f("t")), d); }
            }
        }
        if (c.space("heterogeneous items", "all lists of 2..3 items mixing numbers, text, booleans, failing and missing items: failures")) {
            E[] its = {i(1), s("a"), b(true), d("0.5"), neg(i(2)), s("1"), f("txt"), f("one"), f("zz"), bin('/', i(1), i(0)), fn("max", i(1), i(2)), b(false), f("l2")};
            Map<String, Object> d = G.data("l", Arrays.asList(1, "a", true, 0.5d, "1"), "e", Collections.emptyList(), "txt", "a", "one", 1, "l2", Arrays.asList(1, 2));
            for (int n = 2; n <= 3; n++) G.vectors(n, its.length, w -> {
                E[] e = Arrays.stream(w).mapToObj(q -> its[q]).toArray(E[]::new);
                for (String fld : new String[]{"l", "e"}) { c.cond(any(fld, e), d); c.cond(all(fld, e), d); }
            });
        }
        if (c.space("context", "containment in AND, OR, NOT; keyword in lower case")) {
            for (int a = 0; a < 5; a++) for (int q = 0; q < 5; q++) for (int r = 0; r < 5; r++) {
                Map<String, Object> d = G.data("l", Arrays.asList(a, q), "t", r % 2 == 0);
                E e = any("l", i(r), i(4)), g = all("l", i(a), i(r));
                c.cond(and(e, g), d);
                c.cond(or(not(g), e), d);
                c.cond(not(or(e, f("t"))), d);
                c.cond("l contains_any (" + r + ", 4) and l contains_all (" + a + "," + r + ")", and(e, g), d, null);
            }
        }
    }

    // ---- C10 ------------------------------------------------------------------------------------

    /** a value of every sort, and of the ones that could be taken for none */
    @SuppressWarnings({"removal", "deprecation"})
    static Object[] leaves() {
        return new Object[]{1, 0, "abc", "", "null", false, true, 0.0d, Arrays.asList(), Arrays.asList(1), LocalDate.of(2024, 1, 1), new int[0], new Object(),
                -1, Integer.MIN_VALUE, Long.MIN_VALUE, -0.0d, Double.NaN, Float.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, Float.POSITIVE_INFINITY, Double.MIN_VALUE, BigDecimal.ZERO, new BigDecimal("0E+9"), new BigDecimal("1e400"), java.math.BigInteger.ZERO, (byte) 0, (short) 0, 0f, 0L, '\0', ' ', 'n', " ", "\t", "\u00a0", "\0", "NULL", "nil", "none", "None", "undefined", "NaN", "-", "0", "false", "N/A",
                Boolean.FALSE, java.util.Optional.empty(), java.util.Optional.of(1), java.util.OptionalInt.empty(), new String[0], new Object[0], new Object[]{null}, Collections.singletonList(null), Collections.emptySet(), Arrays.asList((Object) null, null), new ArrayDeque<>(), LocalDate.MIN, java.time.LocalDate.EPOCH, java.time.LocalDateTime.MAX, java.time.Instant.EPOCH, java.time.Duration.ZERO, new java.util.Date(0), new StringBuilder(), new java.util.concurrent.atomic.AtomicReference<>(), new java.util.concurrent.atomic.AtomicBoolean(), java.lang.ref.Reference.class, Void.class, Thread.State.NEW, new java.util.UUID(0, 0), java.util.Locale.ROOT, new java.lang.ref.WeakReference<>(null), java.util.concurrent.CompletableFuture.completedFuture(null)};
    }

    static void c10(Ck c) {
        String[] paths = {"x", "y", "x.a", "x.b", "x.a.b", "x.a.b.c", "zz", "zz.a", "X", "x.A", "a", "xa", "x_a"};
        Object[] leaves = leaves();
        List<Map<String, Object>> ds = new ArrayList<>();
        ds.add(G.data());
        ds.add(G.data("x", null));
        ds.add(G.data("x", G.data()));
        ds.add(G.data("x", G.data("a", null)));
        ds.add(G.data("x", G.data("a", G.data())));
        ds.add(G.data("x", G.data("a", G.data("b", null))));
        ds.add(G.data("x", G.data("a", G.data("b", G.data()))));
        ds.add(G.data("x", G.data("a", G.data("b", G.data("c", null)))));
        ds.add(G.data("x.a", 1, "x", null, "null", 1));
        ds.add(G.data("x.a", 1, "null", null));
        ds.add(G.data("X", 1, "Y", 1, "ZZ", 1));
        for (Object l : leaves) {
            ds.add(G.data("x", l));
            ds.add(G.data("y", l, "x", G.data("a", l)));
            ds.add(G.data("x", G.data("b", l, "a", G.data("b", l))));
            ds.add(G.data("x", G.data("a", G.data("b", G.data("c", l)))));
            ds.add(G.data("x", l, "x.a", 7, "null", 3));
            ds.add(G.data("zz", G.data("a", l), "a", l));
        }
        String[] nulls = {"null", "NULL", "Null", "nULL"};
        if (c.space("null checks", ds.size() + " data shapes (absent, null, unreachable, empty map, every type of value, distractors) x " + paths.length + " paths x = / != x both operand orders x 4 spellings x plain, NOT, doubled NOT, parenthesised")) {
            for (Map<String, Object> d : ds) for (String p : paths) for (String op : new String[]{"=", "!="}) for (String nl : nulls) for (int o = 0; o < 2; o++) {
                E e = o == 0 ? cmp(op, f(p), new Null(nl)) : cmp(op, new Null(nl), f(p));
                c.cond(e, d);
                c.cond(not(e), d);
                if (nl.equals("null")) { c.cond(not(not(e)), d); c.cond("(" + print(e) + ")", e, d, null); c.cond(print(e).replace(" ", ""), e, d, null); }
            }
        }
        if (c.space("combinations", "pairs of null checks and value conditions joined by AND and OR (guards: x != null AND x > 0)")) {
            for (Map<String, Object> d : ds) for (String p : new String[]{"x", "x.a", "x.a.b", "zz", "y"}) for (String q : new String[]{"x", "x.a", "y", "x.b"}) {
                E a = cmp("=", f(p), new Null("null")), b2 = cmp("!=", new Null("NULL"), f(q));
                c.cond(and(a, b2), d);
                c.cond(or(b2, a), d);
                c.cond(and(cmp("!=", f(p), new Null("null")), cmp("=", f(p), i(1))), d);
                c.cond(or(a, cmp("=", f(q), s("abc"))), d);
            }
        }
        if (c.space("other operators", "missing, null and unreachable fields with every other operator, on either side and in every construct: failures")) {
            for (Map<String, Object> d : ds) for (String p : paths) {
                if (Ref.lookup(p, d) != null) continue;
                for (E x : new E[]{i(1), s("abc"), d("0.5"), b(true), date("2024-01-01"), ver("1.2.3"), s("null"), s("")}) for (String op : CMPS) { c.cond(cmp(op, f(p), x), d); c.cond(cmp(op, x, f(p)), d); }
                for (String op : CMPS) { c.cond(cmp(op, f(p), f(p)), d); c.cond(cmp(op, f(p), bin('+', f(p), i(1))), d); }
                c.cond(f(p), d); c.cond(not(f(p)), d); c.cond(in(p, i(1)), d); c.cond(notIn(p, i(1)), d); c.cond(any(p, i(1)), d); c.cond(all(p, i(1)), d); c.cond(rng(p, i(0), i(5)), d);
                c.cond(in("x", f(p)), d);
                c.val(f(p), d);
                c.val(bin('+', f(p), i(1)), d);
                c.val(bin('+', s("a"), f(p)), d);
                for (String fn : new String[]{"min", "max", "sum", "avg", "mean", "median", "mode", "len", "int", "days_elapsed"}) c.val(fn(fn, f(p)), d);
            }
        }
        if (c.space("the text null", "data holding the text 'null', and comparisons with the quoted text 'null', are ordinary text")) {
            Map<String, Object> d = G.data("x", "null", "y", "abc", "z", null, "n", G.data("x", "NULL"));
            for (String p : new String[]{"x", "y", "n.x"}) for (String op : new String[]{"=", "!="}) for (Lit l : new Lit[]{s("null"), s2("null"), s("NULL"), s("abc")}) {
                c.cond(cmp(op, f(p), l), d); c.cond(cmp(op, l, f(p)), d);
                c.cond(cmp(op, f(p), f("x")), d);
            }
            for (String op : new String[]{"=", "!="}) for (Lit l : new Lit[]{s("null"), s2("NULL")}) { c.cond(cmp(op, f("z"), l), d); c.cond(cmp(op, l, f("zz")), d); }
        }
        if (c.space("empty parts", "null checks of names with nothing before, after or between dots (all of 2..4 parts of nothing, x, a with at least one gap)")) {
            String[] parts = {"", "x", "a"};
            for (int n = 2; n <= 4; n++) G.vectors(n, 3, v -> {
                List<String> q = new ArrayList<>(); for (int i : v) q.add(parts[i]);
                if (!q.contains("")) return;
                String p = String.join(".", q);
                for (Map<String, Object> d : ds) for (String op : new String[]{"=", "!="}) { c.cond(cmp(op, f(p), new Null("null")), d); c.cond(cmp(op, new Null("NULL"), f(p)), d); }
                for (Object a : new Object[]{1, null, G.data("", 1), G.data("", null)}) for (String op : new String[]{"=", "!="}) {
                    c.cond(cmp(op, f(p), new Null("null")), G.data("x", a));
                    c.cond(cmp(op, f(p), new Null("null")), G.data("", a, "x", G.data("a", a)));
                }
            });
        }
        if (c.space("names with null", "names that are, begin with, end with or contain null, nil, none, undefined in any case, as a whole name and as each part of a path, present, null and absent: only the whole word null is the literal")) {
            String[] names = {"isnull", "isNull", "ISNULL", "is_null", "notnull", "xnull", "null1", "null_", "_null", "nulls", "nullable", "nullValue", "NULLABLE", "nul", "nnull", "nulll", "nil", "NIL", "none", "None", "undefined", "empty", "missing", "absent", "NaN", "nan", "void", "na", "value", "a", "id"};
            for (String n : names) for (int k = 0; k < 6; k++) for (Object v : new Object[]{1, "null", "abc", false, null, ABSENT, G.data(), Collections.emptyList()}) {
                String p = k == 0 ? n : k == 1 ? "a." + n : k == 2 ? n + ".a" : k == 3 ? "x." + n + ".y" : k == 4 ? "a.b." + n : n + "." + n;
                Map<String, Object> cur = G.data();
                String[] parts = p.split("\\.");
                if (v != ABSENT) cur.put(parts[parts.length - 1], v);
                for (int j = parts.length - 2; j >= 0; j--) cur = G.data(parts[j], cur);
                Map<String, Object> d = cur, e = G.with(cur, "null", 5, "q", 1);
                for (Map<String, Object> m : Arrays.asList(d, e)) {
                    for (String op : new String[]{"=", "!="}) {
                        c.cond(cmp(op, f(p), new Null("null")), m); c.cond(cmp(op, new Null("NULL"), f(p)), m);
                        c.cond(not(cmp(op, f(p), new Null("Null"))), m);
                        c.cond(cmp(op, f(p), i(1)), m); c.cond(cmp(op, s("abc"), f(p)), m);
                        c.cond(cmp(op, f("q"), f(p)), m); c.cond(cmp(op, f(p), f("q")), m); c.cond(cmp(op, f(p), f("zz")), m);
                    }
                    c.cond(cmp(">", f(p), i(0)), m); c.cond(in(p, i(1), s("abc")), m); c.cond(in("q", f(p)), m); c.cond(not(f(p)), m);
                    c.val(f(p), m);
                }
            }
            // null as a part of a path is an ordinary name
            for (String p : new String[]{"a.null", "null.a", "a.null.b", "a.NULL", "x.null"}) for (Object v : new Object[]{1, null, ABSENT, "null"}) {
                Map<String, Object> cur = G.data();
                String[] parts = p.split("\\.");
                if (v != ABSENT) cur.put(parts[parts.length - 1], v);
                for (int j = parts.length - 2; j >= 0; j--) cur = G.data(parts[j], cur);
                Map<String, Object> m = cur;
                for (String op : new String[]{"=", "!="}) { c.cond(cmp(op, f(p), new Null("null")), m); c.cond(cmp(op, new Null("null"), f(p)), m); c.cond(cmp(op, f(p), i(1)), m); c.cond(cmp(op, f(p), f("zz")), m); c.cond(cmp(op, f("zz"), f(p)), m); c.cond(cmp(op, f(p), s("null")), m); }
                c.cond(in(p, i(1)), m); c.val(f(p), m);
            }
        }
        if (c.space("depth", "null checks at path depth 1..30 with the path cut at each depth (absent, null, a value in the way)")) {
            for (int n = 1; n <= 30; n++) for (int cut = 0; cut <= n; cut++) for (int k = 0; k < 3; k++) {
                Object v = cut == n ? (Object) 5 : k == 0 ? null : k == 1 ? "s" : G.data();
                StringBuilder p = new StringBuilder("k1");
                for (int j = 2; j <= n; j++) p.append(".k").append(j);
                for (int j = cut == n ? n : cut; j >= 2; j--) { v = G.data("k" + j, v); }
                Map<String, Object> d = cut == 0 ? G.data() : G.data("k1", v);
                for (String op : new String[]{"=", "!="}) { c.cond(cmp(op, f(p.toString()), new Null("null")), d); c.cond(cmp(op, new Null("null"), f(p.toString())), d); }
            }
        }
    }

    // ---- C11 ------------------------------------------------------------------------------------

    /** all maps over two keys and a depth: each key absent, null, a leaf or a map */
    static List<Object> shapes(int depth, String leaf) {
        List<Object> sub = new ArrayList<>();
        sub.add(ABSENT);
        sub.add(null);
        sub.add(leaf);
        if (depth > 1) sub.addAll(maps(depth - 1, leaf));
        return sub;
    }
    static final Object ABSENT = new Object();
    static List<Map<String, Object>> maps(int depth, String leaf) {
        List<Map<String, Object>> r = new ArrayList<>();
        for (Object a : shapes(depth, leaf + "a")) for (Object b : shapes(depth, leaf + "b")) {
            Map<String, Object> m = new LinkedHashMap<>();
            if (a != ABSENT) m.put("a", a);
            if (b != ABSENT) m.put("b", b);
            r.add(m);
        }
        return r;
    }

    /** keys that are not the name but that somebody might take for it */
    static List<String> variants(String n) {
        java.util.Set<String> r = new LinkedHashSet<>();
        String cap = Character.toUpperCase(n.charAt(0)) + n.substring(1), unc = Character.toLowerCase(n.charAt(0)) + n.substring(1);
        String snake = n.replaceAll("([a-z0-9])([A-Z])", "$1_$2");
        StringBuilder sw = new StringBuilder();
        for (char ch : n.toCharArray()) sw.append(Character.isUpperCase(ch) ? Character.toLowerCase(ch) : Character.toUpperCase(ch));
        r.addAll(Arrays.asList(n.toLowerCase(), n.toUpperCase(), cap, unc, sw.toString(), n.substring(0, n.length() - 1) + Character.toUpperCase(n.charAt(n.length() - 1)), snake.toLowerCase(), snake.toUpperCase(), snake.replace('_', '-'), n.replace("_", ""), " " + n, n + " ", n + "s", n + n, n + "_", "_" + n, "get" + cap, "is" + cap, n + "0", n + ".0", n + "[0]", "'" + n + "'", "\"" + n + "\"", "$" + n, "${" + n + "}", "." + n, n + ".", "top." + n, n + ".k"));
        if (n.length() > 1) { r.add(n.substring(1)); r.add(n.substring(0, n.length() - 1)); }
        r.remove(n);
        r.remove("");
        return new ArrayList<>(r);
    }

    static void c11(Ck c) {
        if (c.space("values", "a value of every sort (empty, infinite, not a number, zero, containers, foreign objects) under names of 1 to 4 parts: the reference gives that very value, and is not null")) {
            for (Object l : leaves()) for (String path : new String[]{"x", "x.a", "x.a.b", "x.x.x.x", "null_", "l", "x.size"}) {
                String[] ns = path.split("\\.");
                Object v = l;
                for (int k = ns.length - 1; k >= 0; k--) v = G.data(ns[k], v, "w", 1);
                @SuppressWarnings("unchecked") Map<String, Object> d = (Map<String, Object>) v;
                c.add(w -> {
                    Impl.Got got = w.impl.val(path, d);
                    w.count(true);
                    c.state("v", path, d, null);
                    if (got.ok() && got.value() == l) return null;
                    return new Ck.Bad(path, d, null, "the object stored under that name", got.toString()).snippet(Replay.evalSnippet(false, path, d, null));
                });
                c.cond(cmp("=", f(path), new Null("null")), d);
                c.cond(cmp("!=", new Null("null"), f(path)), d);
            }
        }
        String[] paths = {"a", "b", "a.a", "a.b", "b.a", "b.b", "a.a.a", "a.a.b", "a.b.a", "a.b.b", "b.a.a", "b.b.a", "a.a.a.a", "A", "c", "a.c", "ab"};
        List<Map<String, Object>> m2 = maps(2, "v"), m3 = maps(3, "v");
        if (c.space("shapes, depth 2", "all " + m2.size() + " nested maps over keys a, b (absent, null, value, map) x " + paths.length + " paths x every position a field can take")) {
            for (Map<String, Object> d0 : m2) {
                Map<String, Object> d = G.with(d0, "l9", Arrays.asList("va", "vb"), "va", "wrong", "one", 1);
                for (String p : paths) {
                    c.val(f(p), d);
                    c.val(bin('+', f(p), s("!")), d);
                    c.val(bin('+', s("!"), f(p)), d);
                    c.val(fn("len", f(p)), d);
                    for (String v : new String[]{"va", "vaa", "vab", "vb"}) {
                        c.cond(cmp("=", f(p), s(v)), d);
                        c.cond(cmp("!=", s(v), f(p)), d);
                        c.cond(in(p, s(v)), d);
                        c.cond(notIn(p, s("q"), s(v)), d);
                        c.cond(any("l9", f(p)), d);
                        c.cond(in("va", f(p), s(v)), d);
                        c.cond(not(cmp("<", f(p), s(v))), d);
                    }
                    c.cond(f(p), d);
                    c.cond(not(f(p)), d);
                    c.cond(rng(p, i(0), i(5)), d);
                    c.cond(any(p, s("va")), d);
                    c.cond(cmp("=", f(p), f("b")), d);
                    c.cond(cmp("=", f(p), f("a")), d);
                }
            }
        }
        if (c.space("shapes, depth 3", "all " + m3.size() + " nested maps of depth 3 x " + paths.length + " paths x value, comparison on both sides")) {
            for (Map<String, Object> d : m3) for (String p : paths) {
                c.val(f(p), d);
                if (!c.quick) { c.cond(cmp("=", f(p), s("vab")), d); c.cond(cmp("!=", s("vaa"), f(p)), d); }
            }
        }
        if (c.space("values", "20 kinds of values at depths 1..4 in every position: numbers, text, booleans, dates, lists")) {
            Object[] vals = {1, 2L, 3.5d, 4.5f, new BigDecimal("5.25"), -6, "txt", "", "a.b", "null", true, false, LocalDate.of(2024, 2, 29), LocalDateTime.of(2024, 2, 29, 1, 2, 3), Arrays.asList(1, 2), Arrays.asList("x"), 9007199254740993L, "2024-02-29", "1.2.3", Collections.emptyList()};
            String[] ps = {"k", "n.k", "n.n.k", "n.n.n.k"};
            for (Object v : vals) {
                Map<String, Object> d = G.data("k", v, "n", G.data("k", v, "n", G.data("k", v, "n", G.data("k", v))), "one", 1, "lst", Arrays.asList(1, "txt", 2));
                for (String p : ps) {
                    for (String q : ps) for (String op : CMPS) c.cond(cmp(op, f(p), f(q)), d);
                    for (E l : new E[]{i(1), s("txt"), d("3.5"), b(true), date("2024-02-29"), ver("1.2.3")}) for (String op : CMPS) { c.cond(cmp(op, f(p), l), d); c.cond(cmp(op, l, f(p)), d); }
                    c.val(f(p), d); c.val(neg(f(p)), d);
                    for (char o : OPS) { c.val(bin(o, f(p), i(2)), d); c.val(bin(o, i(2), f(p)), d); c.val(bin(o, bin('+', f(p), i(0)), f(p)), d); }
                    for (String fn : new String[]{"min", "max", "sum", "avg", "mean", "median", "mode", "len", "int"}) { c.val(fn(fn, f(p)), d); if (!fn.equals("len") && !fn.equals("int")) c.val(fn(fn, i(1), f(p), f("one")), d); }
                    c.cond(rng(p, i(0), i(5)), d); c.cond(in(p, i(1), s("txt")), d); c.cond(in("one", i(3), f(p)), d); c.cond(any(p, i(1)), d); c.cond(all(p, i(1), i(2)), d); c.cond(any("lst", f(p)), d);
                    c.cond(f(p), d); c.cond(not(f(p)), d); c.cond(and(f(p), f(p)), d);
                    c.cond(cmp(">", bin('*', f(p), i(2)), i(3)), d);
                }
            }
        }
        if (c.space("distractors", "keys that must not be mistaken for the path: flat 'a.b', prefixes, other case, last or first segment alone, blanks, with the path itself absent or present")) {
            Object[][] distract = {{"a.b", 9}, {"A", G.data("B", 9)}, {"a", G.data("B", 9)}, {"b", 9}, {"a", 9}, {"ab", 9}, {"a ", G.data("b", 9)}, {" a", G.data("b", 9)}, {"a.", G.data("b", 9)}, {"a", G.data("b ", 9)}, {"a", G.data(" b", 9)}, {"a", G.data("", 9)}, {"", 9}, {"a", G.data("b.c", 9)}, {"a_b", 9}, {"a", Arrays.asList(9)}, {"a", "b"}, {"a", G.data("a", G.data("b", 9))}, {"a.b.c", 9}, {"null", 9}, {"default", 9}};
            for (Object[] x : distract) for (Object[] y : distract) for (int has = 0; has < 2; has++) for (String p : new String[]{"a.b", "b", "a.b.c", "B", "a.B.c", "a"}) {
                Map<String, Object> d = G.data();
                d.put((String) x[0], x[1]);
                d.put((String) y[0], y[1]);
                if (has == 1) d.put("a", G.data("b", 4, "B", G.data("c", 5)));
                c.val(f(p), d);
                c.cond(cmp("=", f(p), i(9)), d);
                c.cond(cmp("=", i(4), f(p)), d);
                c.cond(in(p, i(9), i(4)), d);
                c.cond("= 9 OR " + p + " = 4", or(cmp("=", new Omit(), i(9)), cmp("=", f(p), i(4))), d, p);
            }
        }
        if (c.space("names", "field names: single letters, digits inside, underscores, keywords inside, very long, upper/lower case pairs; each with all case variants as distractors")) {
            String[] names = {"x", "X", "x1", "x_1", "_x", "__", "_1", "Xy", "xY", "android", "ORder", "inn", "IN_", "note", "NOTx", "tox", "minx", "maximum", "and_", "trueish", "nullable", "x".repeat(200), "a1b2", "lens", "integer", "days_elapsed_", "truefalse", "contains_anything", "e1", "E", "in1"};
            for (String n : names) for (String o : names) {
                Map<String, Object> d = G.data(o, 2, o.toLowerCase(), 3, o.toUpperCase(), 4);
                d.put(o, 2);
                c.val(f(n), d);
                c.cond(cmp("=", f(n), i(2)), d);
                c.val(f("m." + n), G.data("m", d));
                c.val(f(n + "." + o), G.data(n, d));
            }
        }
        if (c.space("near names", "15 names x every way of misreading them (other case of the whole, the first or the last letter, camel/snake/kebab spelling, trimmed, plural, prefix, suffix, doubled, bean getter, index) as a decoy key, next to and instead of the name, at the first, middle and last part of a path")) {
            String[] names = {"User", "user", "USER", "userId", "UserId", "user_id", "uSER", "U", "u", "firstName", "FIRST_NAME", "a1", "A1b2", "items", "Value", "getName", "x1"};
            for (String n : names) for (String o : variants(n)) for (String q : new String[]{"k", "Key", o}) for (int has = 0; has < 2; has++) {
                Map<String, Object> d = G.data(), inner = G.data(), leafs = G.data("k", 1, "Key", 2);
                leafs.put(o, 3);
                if (has == 1) leafs.put(n, 4);
                inner.put(o, leafs);
                if (has == 1) inner.put(n, G.data("k", 11, "Key", 12, n, 14));
                d.put(o, inner);
                d.put("top", inner);
                d.put("l", Arrays.asList(4, 14));
                if (has == 1) d.put(n, G.data("k", G.data("k", 21, n, 24), n, G.data(n, 25), "Key", 26));
                Map<String, Object> flat = G.data(o, 3, "one", 3);
                if (has == 1) flat.put(n, 4);
                for (String p : new String[]{n + ".k", n + "." + n, "top." + n, "top." + n + ".k", "top." + n + "." + n, o.matches("[A-Za-z_][A-Za-z0-9_]*") ? "top." + o + "." + n : n, n + ".k." + n, n + "." + n + "." + n, n + ".Key"}) {
                    c.val(f(p), d);
                    c.cond(cmp("=", f(p), i(3)), d);
                    c.cond(cmp("=", f(p), new Null("null")), d);
                    c.cond(in(p, i(3), i(4)), d);
                    c.cond(any("l", f(p)), d);
                }
                c.val(f(n), flat);
                c.val(bin('+', f("one"), f(n)), flat);
                c.val(fn("max", f(n), i(1)), flat);
                c.cond(cmp("=", f(n), i(3)), flat);
                c.cond(cmp("!=", new Null("null"), f(n)), flat);
                c.cond(in(n, i(3)), flat);
                c.cond(in("one", f(n)), flat);
                c.cond(rng(n, i(0), i(9)), flat);
            }
        }
        if (c.space("empty parts", "names with nothing before, after or between dots (all of 1..3 parts of nothing, a, b with at least one dot) x maps with and without entries of the empty name: the parts before the gap are no substitute")) {
            List<String> ns = new ArrayList<>();
            String[] parts = {"", "a", "b"};
            for (int n = 2; n <= 4; n++) G.vectors(n, 3, v -> { List<String> q = new ArrayList<>(); for (int i : v) q.add(parts[i]); if (q.contains("")) ns.add(String.join(".", q)); });
            List<Map<String, Object>> dss = new ArrayList<>();
            for (Object a : new Object[]{1, null, "t", true, G.data("b", 1), G.data("", 1), G.data("b", G.data("", 1, "a", 2)), G.data("", G.data("", 3, "a", 1))}) {
                dss.add(G.data("a", a));
                dss.add(G.data("a", a, "b", 1));
                dss.add(G.data("", a, "a", 1));
                dss.add(G.data("a", a, "a.", 1, ".a", 1, "a..b", 1, ".", 1, "..", 1));
                dss.add(G.data("b", a, "", 1));
            }
            for (String n : ns) for (Map<String, Object> d : dss) {
                c.val(f(n), d);
                c.cond(cmp("=", f(n), i(1)), d);
                c.cond(cmp(">=", i(1), f(n)), d);
                c.cond(cmp("=", f(n), new Null("null")), d);
                c.cond(cmp("!=", new Null("null"), f(n)), d);
                c.cond(in(n, i(1)), d); c.cond(in("a", f(n)), d);
                c.cond(rng(n, i(0), i(9)), d);
                c.cond(any(n, i(1)), d);
                c.cond(f(n), d); c.cond(not(f(n)), d);
                c.val(bin('+', f(n), i(1)), d);
                c.val(fn("max", f(n), i(1)), d);
            }
        }
        if (c.space("telling names", "50 names with a meaning elsewhere (size, length, value, first, 0, key, class, ...) as the last, middle or first part of a path, over parents of every sort (list, set, array, text, number, boolean, date, map empty, map of one entry of that or another telling name, map with it): only the entry of that name counts")) {
            String[] names = {"size", "length", "count", "value", "values", "get", "first", "last", "_0", "_1", "key", "keys", "name", "class", "empty", "isEmpty", "items", "item", "data", "entry", "entries", "entrySet", "content", "body", "element", "elements", "index", "it", "this", "self", "parent", "root", "id", "type", "year", "month", "day", "string", "text", "toString", "hashCode", "getClass", "max_", "sum_", "head", "tail", "result", "present", "scale", "default"};
            List<Object> parents = new ArrayList<>(Arrays.asList(Arrays.asList(1, 2, 3), new ArrayList<>(), new LinkedHashSet<>(Arrays.asList(4, 5)), new Object[]{1, 2}, new int[]{1, 2}, "abc", "", 5, 7L, 2.5d, true, LocalDate.of(2024, 2, 29), LocalDateTime.of(2024, 2, 29, 1, 2), null, G.data(), Arrays.asList(G.data("size", 9, "value", 8)), java.util.Optional.of(1), new BigDecimal("1.5")));
            for (String n : names) {
                List<Object> ps = new ArrayList<>(parents);
                for (String m : new String[]{n, "value", "size", "data", "b"}) { ps.add(G.data(m, 3)); ps.add(G.data(m, G.data(n, 4))); ps.add(G.data(m, G.data("b", 4))); ps.add(G.data(m, Arrays.asList(1, 2))); ps.add(G.data(m, null)); }
                ps.add(G.data(n, 3, "b", 6)); ps.add(G.data(n, G.data(n, G.data(n, 7)))); ps.add(G.data("b", G.data("b", 4)));
                for (Object p : ps) {
                    Map<String, Object> d = G.data("a", p, "q", G.data("a", p), "l9", Arrays.asList(3, 4, 0));
                    for (String path : new String[]{"a." + n, "q.a." + n, "a." + n + ".b", "a.b", "a." + n + "." + n, "q." + n, n, n + ".a", "a.b." + n}) {
                        c.val(f(path), d);
                        c.cond(cmp("=", f(path), i(3)), d); c.cond(cmp("!=", new Null("null"), f(path)), d);
                        c.cond(in(path, i(3), i(2)), d); c.cond(any("l9", f(path)), d); c.cond(rng(path, i(0), i(9)), d);
                        c.val(bin('+', f(path), i(1)), d); c.val(fn("max", f(path), i(1)), d);
                    }
                    if (p instanceof Map) { Map<String, Object> e = G.data(n, p, "b", 1); for (String path : new String[]{n + ".b", n, n + "." + n, "b", "b." + n}) { c.val(f(path), e); c.cond(cmp("=", f(path), i(4)), e); } }
                }
            }
        }
        int deep = c.quick ? 40 : 150;
        if (c.space("depth", "paths of depth 1.." + deep + ", the value present, or cut at each depth (absent, null, a leaf in the way)")) {
            for (int n = 1; n <= deep; n++) for (int cut = 0; cut <= n; cut++) for (int k = 0; k < (cut == n ? 1 : 3); k++) {
                Object v = cut == n ? (Object) 5 : k == 0 ? null : k == 1 ? "s" : G.data("other", 1);
                StringBuilder p = new StringBuilder("k1");
                for (int j = 2; j <= n; j++) p.append(".k").append(j);
                for (int j = cut; j >= 2; j--) v = G.data("k" + j, v);
                Map<String, Object> d = cut == 0 ? G.data() : G.data("k1", v);
                c.val(f(p.toString()), d);
                c.cond(cmp("=", f(p.toString()), i(5)), d);
            }
        }
    }

    // ---- C12 ------------------------------------------------------------------------------------

    private static void sameTree(Ck c, String t1, String t2, String df) {
        c.add(wk -> {
            Impl.Got a = wk.impl.parse(t1, df), b2 = wk.impl.parse(t2, df), b3 = wk.impl.parse(t2, null);
            wk.count(true);
            c.state("p", t1, null, df);
            String sa = a.ok() ? Dump.of(a.value()) : a.kind() + "", sb = b2.ok() ? Dump.of(b2.value()) : b2.kind() + "", sc = b3.ok() ? Dump.of(b3.value()) : b3.kind() + "";
            if (sa.equals(sb) && sb.equals(sc) && !a.broken()) return null;
            return new Ck.Bad(t1, null, df, "the tree of " + t2 + ": " + sc, "omitted: " + sa + "\n written out with default field: " + sb);
        });
    }

    static void c12(Ck c) {
        Map<String, Object> data = G.data("d", 5, "a", 3, "b", 7, "t", true, "p", G.data("q", 5, "r", "abc"), "s", "abc", "bool", true, "date", "2024-02-29", "ver", "1.5.9", "nil", null, "big", 3000000000L, "default", 1);
        String[] defs = {null, "", " ", "d", "p.q", "zz", "s", "p.r", "bool", "nil", "date", "ver", "big", "d1", "p.zz"};
        E[] rights = {i(5), i(4), d("5.0"), neg(i(5)), s("abc"), s("ABC"), b(true), f("a"), f("b"), f("zz"), f("p.q"), date("2024-02-29"), ver("1.5.9"), new Null("null"), bin('+', f("a"), i(2)), fn("min", f("a"), f("b")), i(3000000000L), dt("2024-02-29 00:00:00"), f("d"), bin('*', i(5), i(1)), s("")};
        if (c.space("one comparison", defs.length + " default fields (none, blank, simple, nested, missing, of every type) x 6 operators x " + rights.length + " operands x omitted on the left / nothing omitted, plain, NOT, parenthesised; and a bare operand")) {
            for (String df : defs) for (E r : rights) for (String op : CMPS) {
                E e = cmp(op, new Omit(), r);
                // a computed right operand is written in parentheses: comparison binds tighter than arithmetic
                c.cond(e, data, df);
                c.cond(not(e), data, df);
                c.cond("(" + print(e).trim() + ")", e, data, df);
                c.cond(cmp(op, f("a"), r), data, df);
                c.cond(cmp(op, r, f("d")), data, df);
                c.cond(print(e).trim().replaceFirst(" ", ""), e, data, df);
            }
        }
        if (c.space("same tree", "the tree of the text with operands omitted equals the tree of the text with the default field written out")) {
            for (String df : new String[]{"d", "p.q", "zz", "a"}) for (E r : rights) for (String op : CMPS) for (int k = 0; k < 6; k++) {
                E o = cmp(op, new Omit(), r), w = cmp(op, f(df), r);
                E x = cmp("=", f("a"), i(3));
                E[] pr = k == 0 ? new E[]{o, w} : k == 1 ? new E[]{and(o, x), and(w, x)} : k == 2 ? new E[]{or(x, o), or(x, w)} : k == 3 ? new E[]{not(o), not(w)} : k == 4 ? new E[]{and(o, or(o, x)), and(w, or(w, x))} : new E[]{or(not(o), and(x, o)), or(not(w), and(x, w))};
                sameTree(c, print(pr[0]), print(pr[1]), df);
            }
        }
        int leaves = c.quick ? 3 : 4;
        for (int n = 2; n <= leaves; n++) {
            int fn = n;
            if (c.space("trees, " + n + " conditions", "all trees over " + n + " comparisons, each subset of them with the operand omitted, x operators x up to 2 NOT x 8 default fields")) {
                E[] rs = {i(5), s("abc"), f("a"), neg(i(5))};
                List<Integer> nm = G.masks(2 * n - 1, n == 4 ? 1 : 2);
                for (String df : new String[]{null, " ", "d", "p.q", "zz", "s", "p.r", "nil"}) for (Object[] sh : G.shapes(n)) for (int ops = 0; ops < 1 << (n - 1); ops++) for (int nots : nm)
                    for (int om = 0; om < 1 << n; om++) for (int rv = 0; rv < 4; rv++) for (int cv = 0; cv < 3; cv++) {
                        int fo = om, fr = rv, fc = cv;
                        E e = G.tree(sh, i -> cmp(CMPS[(fc + i * 2) % (i % 2 == 0 ? 2 : 6)], (fo >> i & 1) == 1 ? new Omit() : f(i % 2 == 0 ? "a" : "p.q"), rs[(i + fr) % (i == 0 ? 4 : 3)]), ops, nots);
                        c.cond(e, data, df);
                    }
            }
        }
        if (c.space("chains", "unparenthesised chains of 2..5 comparisons with every subset omitted x AND/OR")) {
            for (int n = 2; n <= 5; n++) for (int om = 0; om < 1 << n; om++) for (int ops = 0; ops < 1 << (n - 1); ops++) for (String df : new String[]{null, "d", "p.q", "zz"}) {
                StringBuilder t = new StringBuilder();
                E e = null;
                for (int i = 0; i < n; i++) {
                    E x = cmp(CMPS[(i * 5 + 2 + om) % 6], (om >> i & 1) == 1 ? new Omit() : f("a"), i(3 + (i * 2) % 5));
                    boolean and = i > 0 && (ops >> (i - 1) & 1) == 0;
                    t.append(i == 0 ? "" : and ? " AND " : " OR ").append(print(x).trim());
                    e = i == 0 ? x : new Log(and, e, x);
                }
                c.cond(t.toString(), e, data, df);
            }
        }
        if (c.space("deep default fields", "default fields of 1 to 6 segments (distinct, equal and alike names) in nested data that holds another value at every shortened, reordered and case-changed path x sorts of condition with omitted operands: outcome and tree as with the field written out")) {
            for (String[] ns : new String[][]{{"a", "b", "c", "d", "e", "f"}, {"a", "a", "a", "a", "a", "a"}, {"x", "X", "x", "X", "x", "X"}, {"k1", "k", "k1", "k", "k1", "k"}, {"in", "to", "and", "or", "not", "min"}, {"_", "a_b", "__", "b_a", "_c", "c_"}}) for (int n = 1; n <= 6; n++) {
                String path = String.join(".", Arrays.copyOf(ns, n));
                Map<String, Object> inner = null;
                for (int level = n - 1; level >= 0; level--) {
                    Map<String, Object> m = new LinkedHashMap<>();
                    for (String x : ns) m.put(x, 100 + level);
                    m.put(path, 99);
                    m.put(ns[level], inner == null ? (Object) 7 : inner);
                    inner = m;
                }
                Map<String, Object> top = inner;
                top.put("zq", 3);
                for (String op : CMPS) { c.cond(cmp(op, new Omit(), i(7)), top, path); c.cond(cmp(op, new Omit(), f("zq")), top, path); c.cond(not(cmp(op, new Omit(), i(100))), top, path); c.cond(and(cmp(op, new Omit(), i(7)), or(cmp(op, f("zq"), i(3)), cmp("<", new Omit(), i(6)))), top, path); }
                String w = n == 1 && ns[0].equals("in") ? null : path;
                if (w != null) for (String[] t : new String[][]{{"> 5", w + " > 5"}, {"= 7 AND < 9", w + " = 7 AND " + w + " < 9"}}) sameTree(c, t[0], t[1], path);
            }
        }
        if (c.space("names like the default field", "explicit fields that differ from the default field (plain and dotted) in case, an ending, a beginning, a level or a separator, before, after and between omitted operands, in every sort of condition: all pairs of 28 names x 16 mixtures")) {
            String[] names = {"d", "D", "dd", "d1", "d_", "total", "Total", "TOTAL", "totals", "sub_total", "p.q", "p.Q", "P.q", "P.Q", "p.qq", "p.q.r", "pq", "p_q", "q", "p", "q.p", "pp.q", "p.p", "order.totalAmount", "order.TotalAmount", "Order.totalAmount", "order.totalamount", "order.total"};
            Map<String, Object> m = new LinkedHashMap<>();
            for (String n : names) {
                String[] ks = n.split("\\.");
                Map<String, Object> at = m;
                boolean clash = false;
                for (int j = 0; j < ks.length - 1; j++) { Object o = at.computeIfAbsent(ks[j], x -> new LinkedHashMap<String, Object>()); if (!(o instanceof Map)) { clash = true; break; } @SuppressWarnings("unchecked") Map<String, Object> o2 = (Map<String, Object>) o; at = o2; }
                if (!clash && !at.containsKey(ks[ks.length - 1])) at.put(ks[ks.length - 1], 10 + java.util.Arrays.asList(names).indexOf(n));
            }
            for (String df : names) for (String n : names) {
                if (df.equals(n)) continue;
                Out o = Ref.val(f(df), m), o2 = Ref.val(f(n), m);
                Lit v = o.isVal() && o.v().isNum() ? i(o.v().num().longValue()) : i(1), v2 = o2.isVal() && o2.v().isNum() ? i(o2.v().num().longValue()) : i(1);
                E om = cmp("=", new Omit(), v), no = cmp("!=", new Omit(), v), x = cmp("=", f(n), v2), gt = cmp(">=", new Omit(), v);
                for (E e : new E[]{om, and(x, om), and(om, x), and(x, gt), or(cmp("!=", f(n), v2), om), or(no, x), and(x, and(om, x)), and(and(om, x), om), not(and(x, om)), and(in(n, v2), om), and(rng(n, v2, v2), om), and(cmp("=", bin('+', f(n), i(0)), v2), om), and(cmp("=", fn("max", f(n)), v2), om), and(cmp("!=", f(n), new Null("null")), om), or(not(x), gt), and(cmp("=", f(n), f(n)), and(gt, om))}) c.cond(e, m, df);
                for (E e : new E[]{cmp("=", f(n), f(df)), and(cmp("=", v2, f(n)), cmp("=", v, f(df))), cmp("<", new Omit(), f(n)), cmp("=", new Omit(), f(df))}) c.cond(e, m, df);
            }
        }
        if (c.space("long chains", "chains of sizes round 4, 8, ... 300 (thorough 1024) with the operand omitted at one place (the ends, the middle, round each limit), at all but one, or everywhere")) {
            for (int n : G.sizes(c.quick ? 301 : 1025)) for (int p : G.places(n)) for (int k = 0; k < 3; k++) for (int and = 0; and < 2; and++) {
                if (c.quick && n > 70 && p % 3 != k) continue;
                StringBuilder t = new StringBuilder();
                E e = null;
                for (int j = 0; j < n; j++) {
                    boolean om = k == 0 ? j == p : k == 1 ? j != p : true;
                    // all decisive only at p
                    E x = cmp("=", om ? new Omit() : f("a"), i(om ? (j == p) == (and == 1) ? 6 : 5 : (j == p) == (and == 1) ? 4 : 3));
                    if (and == 0) x = cmp("=", om ? new Omit() : f("a"), i(j == p ? om ? 5 : 3 : 9));
                    t.append(j == 0 ? "" : and == 1 ? " AND " : " OR ").append(print(x).trim());
                    e = j == 0 ? x : new Log(and == 1, e, x);
                }
                c.cond(t.toString(), e, data, "d");
                c.cond(t.toString(), e, data, "p.q");
                c.cond(t.toString(), e, data, "zz");
            }
        }
        if (c.space("nothing omitted", "every sort of condition (and failing condition) with 10 default fields: outcome as without one, and the same tree")) {
            for (String df : new String[]{null, "", " ", "a", "t", "zz", "s", "p.q", "b", "l"}) {
                for (E[] k : PLogic.KINDS) for (E x : k) { c.cond(x, PLogic.DATA, df); c.cond(and(x, not(x)), PLogic.DATA, df); }
                for (E x : PLogic.ERR) { c.cond(x, PLogic.DATA, df); c.cond(or(x, b(true)), PLogic.DATA, df); }
            }
            for (String df : new String[]{"", " ", "a", "t", "zz", "p.q"}) for (E[] k : PLogic.KINDS) for (E x : k) c.add(w -> {
                String t = print(x);
                Impl.Got a = w.impl.parse(t, df), b2 = w.impl.parse(t, null);
                w.count(true);
                c.state("p", t, null, df);
                String sa = a.ok() ? Dump.of(a.value()) : "" + a, sb = b2.ok() ? Dump.of(b2.value()) : "" + b2;
                return sa.equals(sb) ? null : new Ck.Bad(t, null, df, "the tree without default field: " + sb, sa);
            });
        }
        if (c.space("field names", "27 explicit field names (common words, parts of keywords, the name of the default field with another ending) x every sort of condition with that field x 6 default fields: outcome and tree as without a default field; as default field they stand for the omitted operand")) {
            String[] names = {"value", "field", "default", "name", "id", "key", "data", "type", "x", "d1", "dd", "D", "d_", "this", "it", "self", "_", "defaultField", "default_field", "operand", "left", "nothing", "none", "undefined", "empty", "v", "node"};
            Map<String, Object> base = G.data("d", 5, "p", G.data("q", 5), "s", "abc", "zzz", 1);
            for (String n : names) for (String df : new String[]{"d", "p.q", "zz", "s", "value", "name"}) {
                for (Object v : new Object[]{3, "abc", Arrays.asList(3, 4), true, ABSENT}) {
                    Map<String, Object> d = G.with(base, "q", G.data());
                    if (v != ABSENT) { d.put(n, v); d.put("q", G.data(n, v)); }
                    for (String x : new String[]{n, "q." + n}) {
                        E[] es = {cmp("=", f(x), i(3)), cmp("!=", s("abc"), f(x)), cmp("<", f(x), i(5)), cmp("=", f(x), new Null("null")), f(x), not(f(x)), in(x, i(3), s("abc")), notIn(x, i(5)), in("d", f(x), i(5)), rng(x, i(0), i(4)), any(x, i(3)), all(x, i(4), i(3)), any("q", f(x)), cmp(">", bin('+', f(x), i(1)), i(3)), cmp("=", fn("max", f(x), i(1)), i(3)), cmp("=", fn("len", f(x)), i(3)), and(cmp("=", new Omit(), i(5)), cmp("=", f(x), i(3))), or(in(x, i(3)), cmp(">", new Omit(), i(4))), and(rng(x, i(0), i(4)), cmp(">", new Omit(), i(4))), or(any(x, i(3)), not(cmp("=", new Omit(), s("abc"))))};
                        for (E e : es) c.cond(e, d, df);
                        if (v.equals(3)) for (E e : Arrays.asList(es).subList(0, 16)) c.add(w -> {
                            String t = print(e);
                            Impl.Got a = w.impl.parse(t, df), b2 = w.impl.parse(t, null);
                            w.count(true);
                            c.state("p", t, null, df);
                            String sa = a.ok() ? Dump.of(a.value()) : "" + a, sb = b2.ok() ? Dump.of(b2.value()) : "" + b2;
                            return sa.equals(sb) ? null : new Ck.Bad(t, null, df, "the tree without default field: " + sb, sa);
                        });
                    }
                    for (E e : new E[]{cmp("=", new Omit(), i(3)), cmp(">", new Omit(), i(2)), and(cmp("=", new Omit(), s("abc")), cmp("=", f("d"), i(5))), not(cmp("!=", new Omit(), i(3)))}) { c.cond(e, d, n); c.cond(e, d, "q." + n); }
                }
            }
        }
        if (c.space("sequence on one parser", "all ordered pairs of (expression, default field) over 9 expressions x 6 default fields on one parser: the second result is not affected by the first")) {
            E[] es = {cmp(">", new Omit(), i(4)), cmp("=", new Omit(), s("abc")), cmp("=", f("a"), i(3)), and(cmp("=", new Omit(), i(5)), cmp("=", new Omit(), i(5))), f("t"), cmp("=", new Omit(), new Null("null")), or(cmp("<", new Omit(), i(1)), cmp("=", f("d"), i(5))), cmp("=", new Omit(), f("d")), not(cmp("=", new Omit(), i(7)))};
            String[] df = {null, "d", "p.q", "s", "zz", "b"};
            for (E a : es) for (String da : df) for (E b2 : es) for (String db : df) c.add(w -> {
                Impl im = w.impl;
                im.cond(print(a), data, da);
                Out want = Ref.cond(b2, data, db);
                return c.judge(w, true, print(b2), data, db, want);
            });
        }
    }
}
