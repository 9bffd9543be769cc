package mc;

import static mc.E.*;
import java.math.BigDecimal;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.HashMap;
import java.util.LinkedHashSet;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import java.util.TimeZone;
import java.util.function.IntFunction;

/** C13 to C16 and C26: arithmetic and functions. */
final class PArith {

    // ---- C13 ------------------------------------------------------------------------------------

    static final Map<String, Object> D = G.data("i7", 7, "l9", 9L, "lmax", Long.MAX_VALUE, "lmin", Long.MIN_VALUE, "imax", Integer.MAX_VALUE, "imin", Integer.MIN_VALUE, "dbl", 2.5d, "flt", 0.5f, "bd", new BigDecimal("1.10"),
            "big", new BigDecimal("123456789012345678901234567890.5"), "s", "abc", "t", true, "date", LocalDate.of(2024, 1, 1), "l", Arrays.asList(1, 2), "m", G.data("x", 3), "nil", null, "zero", 0, "dz", 0.0d, "num", "5");

    static void c13(Ck c) {
        if (c.space("pairs", PCompare.NUMS.length + " boundary numbers in every representation, all ordered pairs x 6 operators")) {
            List<PCompare.Rep> all = new ArrayList<>();
            for (String n : PCompare.NUMS) for (PCompare.Rep r : PCompare.reps(n)) if (!c.quick || !r.name().equals("float") && !r.name().equals("exp")) all.add(r);
            for (PCompare.Rep x : all) for (PCompare.Rep y : all) {
                Map<String, Object> d = G.data();
                x.put(d, "x");
                y.put(d, "y");
                for (char o : OPS) c.val(bin(o, x.at("x"), y.at("y")), d);
            }
        }
        if (c.space("dense", "all ordered pairs of integers -40..40 (thorough -150..150) and of quarters -5..5 x 6 operators, as literals and as fields of each type")) {
            int n = c.quick ? 40 : 150;
            for (int x = -n; x <= n; x++) for (int y = -n; y <= n; y++) {
                Map<String, Object> d = (x + y) % 2 == 0 ? G.data("x", x, "y", (long) y) : G.data("x", (long) x, "y", y);
                for (char o : OPS) { c.val(bin(o, num(BigDecimal.valueOf(x)), num(BigDecimal.valueOf(y))), d); c.val(bin(o, f("x"), f("y")), d); }
            }
            int q = c.quick ? 12 : 20;
            for (int x = -q; x <= q; x++) for (int y = -q; y <= q; y++) {
                BigDecimal a = new BigDecimal(x).divide(BigDecimal.valueOf(4)), b = new BigDecimal(y).divide(BigDecimal.valueOf(4));
                Map<String, Object> d = G.data("x", a.doubleValue(), "y", b, "z", b.floatValue());
                for (char o : OPS) { c.val(bin(o, num(a), num(b)), d); c.val(bin(o, f("x"), f("y")), d); c.val(bin(o, f("x"), f("z")), d); c.val(bin(o, f("z"), i(Math.abs(x))), d); }
            }
        }
        if (c.space("near the limits", "operands within 2 of the limits of int and long (and of their square roots and halves) x small operands x + - * and negation: exact or a failure")) {
            String[] lim = {"2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808", "3037000499", "3037000500", "-3037000500", "46340", "46341", "-46341", "4611686018427387904", "-4611686018427387904", "1073741824", "4294967296", "-4294967296", "2305843009213693952"};
            List<BigDecimal> vs = new ArrayList<>();
            for (String s : lim) for (int k = -2; k <= 2; k++) { BigDecimal v = new BigDecimal(s).add(BigDecimal.valueOf(k)); if (Ref.fitsLong(v)) vs.add(v); }
            for (int k = -3; k <= 3; k++) vs.add(BigDecimal.valueOf(k));
            for (BigDecimal a : vs) for (BigDecimal b : vs) {
                Map<String, Object> d = G.data("x", fieldOf(a), "y", fieldOf(b), "z", b.longValueExact());
                for (char o : new char[]{'+', '-', '*', '/', '%'}) { c.val(bin(o, f("x"), f("y")), d); if (!c.quick) { c.val(bin(o, f("x"), f("z")), d); c.val(bin(o, num(a), num(b)), d); } }
                c.val(neg(bin('-', f("x"), f("y"))), d);
                c.val(bin('-', neg(f("x")), f("z")), d);
            }
        }
        if (c.space("negation", "unary minus, doubled and tripled, of every number in every representation")) {
            for (String n : PCompare.NUMS) for (PCompare.Rep r : PCompare.reps(n)) {
                Map<String, Object> d = G.data();
                r.put(d, "x");
                E e = r.at("x");
                for (int k = 0; k < 3; k++) { e = neg(e); c.val(e, d); }
                c.val(bin('+', neg(r.at("x")), r.at("x")), d);
            }
        }
        E[] leaves = {i(2), f("i7"), d("0.5"), neg(i(3)), f("dbl"), f("l9"), i(0), f("lmax"), f("bd"), f("flt"), f("imax"), i(1), f("big"), f("imin"), f("lmin"), i(10)};
        int n3 = c.quick ? 11 : leaves.length;
        if (c.space("trees, 3 operands", n3 + "^3 operands x both shapes x 36 operator pairs, fully parenthesised")) {
            G.vectors(3, n3, v -> {
                int[] w = v.clone();
                for (Object[] s : G.shapes(3)) for (char o1 : OPS) for (char o2 : OPS) { char[] os = {o1, o2}; c.val(G.arith(s, i -> leaves[w[i]], i -> os[i]), D); }
            });
        }
        int n4 = c.quick ? 4 : 7;
        if (c.space("trees, 4 operands", n4 + "^4 operands x 5 shapes x 216 operator triples")) {
            G.vectors(4, n4, v -> {
                int[] w = v.clone();
                for (Object[] s : G.shapes(4)) G.vectors(3, 6, o -> { int[] os = o.clone(); c.val(G.arith(s, i -> leaves[w[i]], i -> OPS[os[i]]), D); });
            });
        }
        if (c.space("trees with negation", "3 operands x both shapes x 36 operator pairs x unary minus at every subset of the 5 nodes")) {
            E[] lv = {i(2), f("i7"), d("1.5"), f("l9")};
            G.vectors(3, lv.length, v -> {
                for (Object[] s : G.shapes(3)) for (char o1 : OPS) for (char o2 : OPS) for (int m = 0; m < 32; m++)
                    c.val(negTree(s, new int[]{m, 0, 0}, i -> lv[v[i]], new char[]{o1, o2}), D);
            });
        }
        if (c.space("deep nesting", "left-, right-nested and balanced trees of 2..60 operands x operators, results growing past int, long and beyond as decimals")) {
            for (int n = 2; n <= 60; n++) for (char o : OPS) for (int k = 0; k < 5; k++) {
                E[] base = {i(2), f("i7"), d("1.5"), i(1000), f("lmax")};
                if (o == '^' && n > 4) continue;
                E l = base[k], r = base[k];
                for (int j = 1; j < n; j++) { E x = base[(k + j) % 4]; l = bin(o, l, x); r = bin(j % 2 == 0 ? '+' : o, x, r); }
                c.val(l, D);
                c.val(r, D);
                c.val(neg(l), D);
                c.val("(".repeat(n) + print(l) + ")".repeat(n), l, D);
            }
        }
        if (c.space("sizes", "sums, differences and products of sizes round 64, 100, 128, ... 600 (thorough 2049) with one operand of another type, sign or size at the ends, the middle and round each limit")) {
            for (int n : G.sizes(c.quick ? 600 : 2049)) for (int p : G.places(n)) for (int k = 0; k < 5; k++) {
                if (n < 60 || c.quick && (p + k) % 3 != 0) continue;
                E odd = new E[]{d("0.5"), i(3000000000L), neg(i(7)), f("i7"), f("lmax")}[k];
                E l = null;
                for (int j = 0; j < n; j++) { E x = j == p ? odd : k == 3 ? d("1.0") : i(1); l = j == 0 ? x : bin(k == 4 || j % 2 == 0 ? '+' : '-', l, x); }
                c.val(l, D);
                if (k != 4) { E m = null; for (int j = 0; j < n; j++) { E x = j == p ? odd : i(1); m = j == 0 ? x : bin('*', m, x); } c.val(m, D); }
            }
        }
        if (c.space("text", "+ with a text on either side and text, integers, longs, decimals, booleans, nested sums on the other")) {
            E[] ts = {s("abc"), s(""), s(" "), s2("q'x"), f("s"), s("1"), f("num"), s("a+b"), s("日")};
            E[] os = {s("abc"), i(1), neg(i(1)), f("i7"), f("l9"), f("lmax"), b(true), f("t"), d("1.50"), f("bd"), f("s"), bin('+', i(1), i(2)), bin('+', s("x"), i(1)), bin('+', i(1), s("x")), fn("len", f("s")), s(""), f("flt"), f("dbl"), i(3000000000L)};
            for (E t : ts) for (E o : os) { c.val(bin('+', t, o), D); c.val(bin('+', o, t), D); c.val(bin('+', bin('+', t, o), t), D); c.val(bin('+', t, bin('+', o, t)), D); }
            List<Object> ns = new ArrayList<>();
            for (String x : new String[]{"0.1", "0.2", "0.3", "0.7", "1.1", "2.2", "9.95", "2.0", "100.0", "0.001", "0.005", "123.456", "123456.789", "1234567.125", "0.30000000000000004", "3.141592653589793", "0.0", "19.99", "1.50", "1.500", "10.00", "2.675", "1.005", "4.35", "8.40", "999999.999"}) for (String g : new String[]{"", "-"}) {
                if (g.equals("-") && x.equals("0.0")) continue;   // 0.0 and -0.0 are one number
                ns.add(new BigDecimal(g + x)); ns.add(Double.valueOf(g + x)); ns.add(Float.valueOf(g + x));
                E l = g.isEmpty() ? d(x) : null;
                if (l != null) for (E t : new E[]{f("t1"), s("total: "), s("")}) { Map<String, Object> m = G.data("t1", "x"); c.val(bin('+', t, l), m); c.val(bin('+', l, t), m); c.val(bin('+', bin('+', t, l), l), m); }
            }
            for (int i : new int[]{0, 5, 10, 100, 1000, -40}) { ns.add(i); ns.add((long) i); ns.add(new BigDecimal(i)); ns.add((double) i); ns.add((float) i); }
            ns.addAll(Arrays.asList(Integer.MAX_VALUE, Integer.MIN_VALUE, Long.MAX_VALUE, Long.MIN_VALUE, 2147483648L, 16777217L, 9007199254740993L, true, false));
            for (Object n : ns) for (String txt : new String[]{"x", "", " ", "7", "total: "}) {
                Map<String, Object> m = G.data("t1", txt, "n", n, "p", G.data("n", n, "t1", txt));
                for (E t : new E[]{f("t1"), f("p.t1"), PCompare.text(txt)}) { c.val(bin('+', t, f("n")), m); c.val(bin('+', f("p.n"), t), m); c.val(bin('+', bin('+', t, f("n")), f("n")), m); c.val(bin('+', f("n"), bin('+', t, f("p.n"))), m); }
            }
        }
        if (c.space("failures", "operands without a meaning (text, boolean, date, list, map, missing, null) in every operator on either side and negated, nested at each depth; division and modulus by zero of every type; modulus of decimals")) {
            E[] bad = {s("abc"), f("s"), b(true), f("t"), f("date"), date("2024-01-01"), dt("2024-01-01 00:00:00"), f("l"), f("m"), f("nil"), f("zz"), f("m.y"), cmp("=", i(1), i(1)), s("5"), f("num"), ver("1.2.3"), in("i7", i(7)), and(f("t"), f("t"))};
            E[] good = {i(2), f("i7"), d("0.5"), neg(i(3)), f("dbl"), f("lmax")};
            for (E x : bad) {
                c.val(neg(x), D);
                for (E y : good) for (char o : OPS) {
                    if (x instanceof Cmp || x instanceof In || x instanceof Log) { c.valOut(print(bin(o, x, y)), D, Out.FAIL); c.valOut(print(bin(o, y, x)), D, Out.FAIL); continue; }
                    c.val(bin(o, x, y), D);
                    c.val(bin(o, y, x), D);
                    c.val(bin('*', bin(o, x, y), i(0)), D);
                    c.val(bin('*', i(0), neg(bin(o, y, x))), D);
                }
                for (E y : bad) for (char o : OPS) if (!(x instanceof Cmp || x instanceof In || x instanceof Log || y instanceof Cmp || y instanceof In || y instanceof Log)) c.val(bin(o, x, y), D);
            }
            E[] zeros = {i(0), d("0.0"), f("zero"), f("dz"), neg(i(0)), bin('-', i(2), i(2)), d("0.00"), bin('*', f("zero"), d("1.5"))};
            for (E z : zeros) for (E y : good) for (char o : new char[]{'/', '%'}) { c.val(bin(o, y, z), D); c.val(bin(o, z, z), D); c.val(bin(o, z, y), D); c.val(bin('+', i(1), bin(o, y, z)), D); }
            for (E x : good) for (E y : new E[]{d("0.5"), d("2.5"), f("dbl"), f("flt"), f("bd"), d("2.0")}) { c.val(bin('%', x, y), D); c.val(bin('%', y, x), D); }
        }
        if (c.space("in conditions", "arithmetic trees of 2 and 3 operands inside comparisons, on both sides")) {
            G.vectors(3, 7, v -> {
                for (char o1 : OPS) for (char o2 : OPS) {
                    E l = bin(o1, leaves[v[0]], leaves[v[1]]), r = bin(o2, leaves[v[2]], leaves[v[0]]);
                    c.cond(cmp(CMPS[(v[0] + v[1] + v[2]) % 6], l, r), D);
                    c.cond(cmp("=", l, leaves[v[2]]), D);
                }
            });
        }
    }
    static Object fieldOf(BigDecimal v) { return Ref.fitsInt(v) ? (Object) v.intValueExact() : (Object) v.longValueExact(); }
    /** st: mask, next leaf, next operator */
    private static E negTree(Object[] s, int[] st, IntFunction<E> leaf, char[] ops) {
        boolean n = (st[0] & 1) != 0;
        st[0] >>= 1;
        E r;
        if (s == null) r = leaf.apply(st[1]++);
        else {
            char o = ops[st[2]++];
            E l = negTree((Object[]) s[0], st, leaf, ops);
            r = bin(o, l, negTree((Object[]) s[1], st, leaf, ops));
        }
        return n ? neg(r) : r;
    }

    // ---- C14 ------------------------------------------------------------------------------------

    static int rank(char o) { return o == '^' ? 3 : o == '*' || o == '/' || o == '%' ? 2 : 1; }
    /** the ranks of the pinned grammar, which give every operator a rank of its own (known finding C14-ranks) */
    static int grammarRank(char o) { return "-+%*/^".indexOf(o); }

    static E group(List<E> operands, List<Character> ops, java.util.function.IntUnaryOperator rank) {
        List<E> st = new ArrayList<>();
        List<Character> os = new ArrayList<>();
        st.add(operands.get(0));
        for (int i = 0; i < ops.size(); i++) {
            char o = ops.get(i);
            while (!os.isEmpty() && rank.applyAsInt(os.get(os.size() - 1)) >= rank.applyAsInt(o)) reduce(st, os);
            os.add(o);
            st.add(operands.get(i + 1));
        }
        while (!os.isEmpty()) reduce(st, os);
        return st.get(0);
    }
    private static void reduce(List<E> st, List<Character> os) {
        E r = st.remove(st.size() - 1), l = st.remove(st.size() - 1);
        st.add(bin(os.remove(os.size() - 1), l, r));
    }

    /** a chain without parentheses against its conventional grouping; exactly the grammar's own grouping is the known finding */
    static void chain(Ck c, String text, E conventional, E grammar, Map<String, Object> data, String wrap) {
        c.add(w -> {
            String t = wrap == null ? text : wrap.replace("@", text);
            Out want, alt;
            if (wrap == null || !wrap.contains("=")) {
                E a = wrap == null ? conventional : fn("sum", conventional, i(1)), g = wrap == null ? grammar : fn("sum", grammar, i(1));
                want = Ref.val(a, data);
                alt = Ref.val(g, data);
            } else { want = Ref.cond(cmp("=", conventional, f("r")), data); alt = Ref.cond(cmp("=", grammar, f("r")), data); }
            boolean cond = wrap != null && wrap.contains("=");
            // the grammar's own grouping gives a number known only roughly, with no verdict on what follows from it: undecided
            boolean same = print(conventional).equals(print(grammar));
            if (!same && alt.isAny()) want = Out.ANY;
            Impl.Got got = cond ? w.impl.cond(t, data, null) : w.impl.val(t, data);
            w.count(!want.isAny());
            c.state("v", t, data, null);
            c.sample(t, data, null, got);
            if (Impl.agrees(want, got)) return null;
            Ck.Bad b = new Ck.Bad(t, data, null, want + " (as " + print(conventional) + ")", got.toString()).snippet(Replay.evalSnippet(cond, t, data, null));
            if (!same && !alt.isAny() && Impl.agrees(alt, got)) b.key("finding:ranks");
            return b;
        });
    }

    static void c14(Ck c) {
        Map<String, Object> data = G.data("a", 12, "b", 5, "x", 3L, "h", 0.5d, "r", 7, "l", Arrays.asList(2, 4), "n", G.data("k", 6));
        E[][] tuples = {{i(7), i(2), i(5), i(3), i(2), i(4), i(3)}, {f("a"), i(5), f("x"), i(2), f("b"), i(3), i(2)}, {d("1.5"), i(2), f("h"), i(4), d("2.5"), i(3), i(1)}, {i(100), i(7), i(3), i(2), i(6), i(5), i(2)}, {fn("max", f("l")), i(9), fn("min", i(3), i(8)), f("n.k"), i(2), i(2), i(5)}, {i(1), i(1), i(2), i(2), i(3), i(3), i(2)}};
        for (int n = 1; n <= (c.quick ? 5 : 6); n++) {
            int fn = n, maxNeg = n <= 3 ? n + 1 : n == 4 ? (c.quick ? 2 : 5) : n == 5 ? (c.quick ? 0 : 2) : 0;
            int nt = n <= 3 ? tuples.length : n == 4 ? (c.quick ? 3 : 6) : c.quick ? 2 : 3;
            if (c.space("chains of " + n + " operators", "all 6^" + n + " operator sequences x " + nt + " operand tuples (literals, fields, functions, mixed types) x unary minus before every subset of up to " + maxNeg + " operands")) {
                List<Integer> nm = G.masks(n + 1, maxNeg);
                G.vectors(n, 6, v -> {
                    List<Character> ops = new ArrayList<>();
                    for (int q : v) ops.add(OPS[q]);
                    for (int t = 0; t < nt; t++) for (int m : nm) {
                        List<E> os = new ArrayList<>();
                        StringBuilder s = new StringBuilder();
                        for (int i = 0; i <= fn; i++) {
                            E o = tuples[t][i];
                            if ((m >> i & 1) == 1) o = neg(o);
                            os.add(o);
                            if (i > 0) s.append(' ').append(ops.get(i - 1)).append(' ');
                            s.append(print(o));
                        }
                        chain(c, s.toString(), group(os, ops, x -> rank((char) x)), group(os, ops, x -> grammarRank((char) x)), data, null);
                        if (m == 0 && fn <= 3) {
                            chain(c, s.toString().replace(" ", ""), group(os, ops, x -> rank((char) x)), group(os, ops, x -> grammarRank((char) x)), data, null);
                            chain(c, s.toString(), group(os, ops, x -> rank((char) x)), group(os, ops, x -> grammarRank((char) x)), data, "sum(@, 1)");
                            chain(c, s.toString(), group(os, ops, x -> rank((char) x)), group(os, ops, x -> grammarRank((char) x)), data, "(@) = r");
                        }
                    }
                });
            }
        }
        if (c.space("parentheses override", "chains of 2..4 operators with one parenthesised group at every position, plain and negated, all operator sequences")) {
            for (int n = 2; n <= 4; n++) {
                int fn = n;
                G.vectors(n, 6, v -> {
                    for (int from = 0; from <= fn; from++) for (int to = from + 1; to <= fn; to++) for (int ng = 0; ng < (fn == 4 ? 1 : 2); ng++) {
                        E[] tp = tuples[(from + to + v[0]) % 4];
                        List<E> outer = new ArrayList<>(), inner = new ArrayList<>(), outerG = new ArrayList<>();
                        List<Character> oo = new ArrayList<>(), io = new ArrayList<>();
                        StringBuilder s = new StringBuilder();
                        for (int i = 0; i <= fn; i++) {
                            if (i > 0) { char o = OPS[v[i - 1]]; s.append(o == '-' ? " - " : " " + o + " "); if (i > from && i <= to) io.add(o); else oo.add(o); }
                            if (i == from) s.append(ng == 1 ? "-(" : "(");
                            s.append(print(tp[i]));
                            if (i == to) s.append(')');
                            if (i >= from && i <= to) {
                                inner.add(tp[i]);
                                if (i == to) {
                                    E a = group(inner, io, x -> rank((char) x)), b = group(inner, io, x -> grammarRank((char) x));
                                    outer.add(ng == 1 ? neg(a) : a);
                                    outerG.add(ng == 1 ? neg(b) : b);
                                }
                            } else { outer.add(tp[i]); outerG.add(tp[i]); }
                        }
                        chain(c, s.toString(), group(outer, oo, x -> rank((char) x)), group(outerG, oo, x -> grammarRank((char) x)), data, null);
                    }
                });
            }
        }
        if (c.space("unary minus", "runs of 1..3 unary minuses before literals, fields, functions and parentheses in chains of up to 2 operators")) {
            E[] os = {i(3), f("a"), fn("min", i(4), i(9)), d("2.5"), f("x")};
            for (int r1 = 0; r1 <= 3; r1++) for (int r2 = 0; r2 <= 3; r2++) for (int r3 = 0; r3 <= 2; r3++) for (char o1 : OPS) for (char o2 : OPS) for (int k = 0; k < os.length; k++) for (int par = 0; par < 3; par++) {
                List<E> l = new ArrayList<>();
                StringBuilder s = new StringBuilder();
                int[] r = {r1, r2, r3};
                for (int i = 0; i < 3; i++) {
                    E o = os[(k + i) % os.length];
                    String t = print(o);
                    if (par == 1) t = "(" + t + ")";
                    for (int j = 0; j < r[i]; j++) { o = neg(o); t = (par == 2 ? "- " : "-") + t; }
                    s.append(i == 0 ? "" : i == 1 ? " " + o1 + " " : " " + o2 + " ").append(t);
                    l.add(o);
                }
                chain(c, s.toString(), group(l, Arrays.asList(o1, o2), x -> rank((char) x)), group(l, Arrays.asList(o1, o2), x -> grammarRank((char) x)), data, null);
            }
        }
        if (c.space("long chains", "chains of 10..501 (thorough 2049) operands over pairs of operators, conventional and grammar grouping agreeing or not")) {
            for (int n : c.quick ? new int[]{10, 17, 30, 33, 60, 65, 101, 120, 129, 257, 501} : new int[]{10, 17, 30, 33, 60, 65, 101, 120, 129, 257, 501, 1025, 2049}) for (char o1 : OPS) for (char o2 : OPS) for (int k = 0; k < 3; k++) {
                if (o1 == '^' || o2 == '^') continue;
                List<E> l = new ArrayList<>();
                List<Character> ops = new ArrayList<>();
                StringBuilder s = new StringBuilder();
                for (int i = 0; i < n; i++) {
                    E o = k == 0 ? i(i % 7 + 1) : k == 1 ? d((i % 5 + 1) + ".5") : i % 2 == 0 ? f("x") : i(i % 3 + 1);
                    l.add(o);
                    if (i > 0) { char q = i % 2 == 0 ? o1 : o2; ops.add(q); s.append(' ').append(q).append(' '); }
                    s.append(print(o));
                }
                chain(c, s.toString(), group(l, ops, x -> rank((char) x)), group(l, ops, x -> grammarRank((char) x)), data, null);
            }
        }
    }

    // ---- C15 ------------------------------------------------------------------------------------

    /** the arguments in one of the ways they can be supplied; adds to the data what it needs */
    static List<E> args(List<Object> vals, int mode, Map<String, Object> d) {
        List<E> r = new ArrayList<>();
        int n = vals.size();
        switch (mode) {
            case 0 -> { for (Object v : vals) r.add(num(new BigDecimal(v.toString()))); }
            case 1 -> { d.put("l", new ArrayList<>(vals)); r.add(f("l")); }
            case 2 -> { for (int i = 0; i < n; i++) { if (i % 2 == 0) { d.put("f" + i, vals.get(i)); r.add(f("f" + i)); } else r.add(num(new BigDecimal(vals.get(i).toString()))); } }
            case 3 -> { int h = n / 2; d.put("l", new ArrayList<>(vals.subList(0, h))); d.put("k", G.data("l", new ArrayList<>(vals.subList(h, n)))); if (h > 0) r.add(f("l")); r.add(f("k.l")); }
            case 4 -> { for (int i = 0; i < n; i++) { E x = num(new BigDecimal(vals.get(i).toString())); r.add(i % 3 == 0 ? fn("max", x) : i % 3 == 1 ? bin('+', x, i(0)) : fn("sum", x, i(1), neg(i(1)))); } }
            case 5 -> { d.put("l", new LinkedList<>(vals.subList(1, n))); r.add(num(new BigDecimal(vals.get(0).toString()))); if (n > 1) r.add(f("l")); }
            case 6 -> { d.put("l", new ArrayList<>(vals.subList(0, n - 1))); d.put("x", vals.get(n - 1)); if (n > 1) r.add(f("l")); r.add(f("x")); }
            default -> { for (int i = 0; i < n; i++) { d.put("f" + i, vals.get(i)); r.add(f("f" + i)); } }
        }
        return r;
    }
    static void agg(Ck c, List<Object> vals, int mode, String... fns) {
        Map<String, Object> d = G.data();
        List<E> a = args(vals, mode, d);
        for (String fn : fns) c.val(fn(fn, a), d);
    }

    static void c15(Ck c) {
        Object[] nine = {1, 2, -3, 0.5d, new BigDecimal("2.50"), 2147483648L, 7L, -0.25f, 2};
        int ml = c.quick ? 4 : 5;
        if (c.space("lists over 9 numbers", "all lists of 1.." + ml + " over Integer, Long, Double, Float, BigDecimal values x 7 functions; ways of supplying the arguments (literals, fields, lists, nested lists, nested functions, arithmetic, mixed) rotating, all of them up to length 3")) {
            int[] rot = new int[1];
            for (int n = 1; n <= ml; n++) {
                int fn = n;
                G.vectors(n, nine.length, v -> {
                    List<Object> vals = new ArrayList<>();
                    for (int q : v) vals.add(nine[q]);
                    if (fn <= 3) for (int m = 0; m < 8; m++) agg(c, vals, m, AGG);
                    else for (int k = 0; k < 2; k++) agg(c, vals, (rot[0]++) % 8, AGG);
                });
            }
        }
        if (c.space("lists over 3 numbers", "all lists of 1.." + (c.quick ? 8 : 10) + " over {1, 2, 3} (as Integer, Long or Double) x 7 functions")) {
            for (int n = 1; n <= (c.quick ? 8 : 10); n++) {
                int fn = n;
                G.vectors(n, 3, v -> {
                    List<Object> vals = new ArrayList<>();
                    int kind = (v[0] + v[fn - 1] + fn) % 4;
                    for (int i = 0; i < fn; i++) vals.add(kind == 0 || kind == 3 && i % 2 == 0 ? (Object) (v[i] + 1) : kind == 1 ? (Object) (long) (v[i] + 1) : (Object) (v[i] + 1.0d));
                    agg(c, vals, fn % 2 == 0 ? 1 : 0, AGG);
                });
            }
        }
        if (c.space("boundary numbers", "all pairs and triples of 16 boundary numbers (int and long limits, long decimals, tiny decimals) x 7 functions")) {
            Object[] bn = {Integer.MAX_VALUE, Integer.MIN_VALUE, Long.MAX_VALUE, Long.MIN_VALUE, 9007199254740993L, 9007199254740992L, 0, -1, new BigDecimal("0.00000000000000000001"), new BigDecimal("123456789012345678901234567890.12345"), 0.1d, 0.2d, 2147483648L, new BigDecimal("1E+3"), -0.001d, 4294967297L};
            for (int n = 1; n <= 3; n++) G.vectors(n, bn.length, v -> {
                List<Object> vals = new ArrayList<>();
                for (int q : v) vals.add(bn[q]);
                agg(c, vals, (v[0] + v.length) % 2 == 0 ? 1 : 7, AGG);
            });
        }
        int max = c.quick ? 60 : 200;
        if (c.space("long lists", "lists of 1.." + max + " (ascending, descending, equal, alternating signs, decimals, longs, one value more frequent, an outlier at each position) x 7 functions")) {
            for (int n = 1; n <= max; n++) for (int pat = 0; pat < 8; pat++) {
                List<Object> vals = new ArrayList<>();
                for (int i = 0; i < n; i++) vals.add(switch (pat) { case 0 -> i; case 1 -> n - i; case 2 -> 5; case 3 -> i % 2 == 0 ? i : -i; case 4 -> i + 0.25d; case 5 -> 3000000000L + i; case 6 -> i % 3 == 0 ? 7 : i; default -> new BigDecimal(i % 10).movePointLeft(i % 4); });
                agg(c, vals, n % 2, AGG);
                agg(c, vals, 3, AGG);
            }
            for (int n = 2; n <= (c.quick ? 30 : 80); n++) for (int at = 0; at < n; at++) for (int k = 0; k < 3; k++) {
                List<Object> vals = new ArrayList<>(Collections.nCopies(n, (Object) 5));
                vals.set(at, k == 0 ? -4 : k == 1 ? (Object) 99.5d : (Object) 5000000000L);
                agg(c, vals, 1, AGG);
                agg(c, vals, 6, "min", "max", "sum", "mode");
            }
        }
        int big = c.quick ? 1100 : 10001;
        if (c.space("sizes", "lists of sizes round 4, 8, 16, ... 1024 (thorough 10000): the smallest, largest, most frequent and middle element at the ends, the middle and round each of these limits, integers, longs and decimals, as list field and (up to 300) as arguments x 7 functions")) {
            for (int n : G.sizes(big)) for (int at : G.places(n)) for (int k = 0; k < 4; k++) {
                if (n > 300 && k > 1 && at % 2 == 0) continue;
                if (n > 2100 && at % 7 != 0) continue;
                List<Object> vals = new ArrayList<>(n);
                for (int i = 0; i < n; i++) vals.add(k == 0 ? (Object) 5 : k == 1 ? (Object) (i * 7919 % n + 10) : k == 2 ? (Object) (3000000000L + i) : (Object) (i % 10 + 0.25d));
                vals.set(at, k == 0 ? (Object) (-4) : k == 1 ? (Object) (n + 5000) : k == 2 ? (Object) 2L : new BigDecimal("-1.125"));
                if (k == 1 && n > 2) vals.set((at + n - 1) % n, n + 5000);
                agg(c, vals, 1, AGG);
                if (n <= 300) { agg(c, vals, k == 3 ? 0 : 3, AGG); }
            }
        }
        if (c.space("two frequent values", "lists in which one value occurs m times and another m + 1 times, m round 4, 8, 16, ... 1024 (thorough 32768), in blocks in either order, alternating, and round each other, with and without other values; integers, longs, decimals: MODE is the more frequent one; also as arguments")) {
            for (int m : G.sizes(c.quick ? 1100 : 32769)) for (int k = 0; k < 3; k++) for (int order = 0; order < 4; order++) for (int rest = 0; rest < 2; rest++) {
                Object u = k == 0 ? (Object) 7 : k == 1 ? (Object) 5000000000L : (Object) 0.1d, v = k == 0 ? (Object) 3 : k == 1 ? (Object) 5000000001L : (Object) new BigDecimal("0.10000000000000000001");
                List<Object> l = new ArrayList<>();
                switch (order) {
                    case 0 -> { l.addAll(Collections.nCopies(m, u)); l.addAll(Collections.nCopies(m + 1, v)); }
                    case 1 -> { l.addAll(Collections.nCopies(m + 1, v)); l.addAll(Collections.nCopies(m, u)); }
                    case 2 -> { for (int j = 0; j < m; j++) { l.add(u); l.add(v); } l.add(v); }
                    default -> { l.addAll(Collections.nCopies(m / 2, v)); l.addAll(Collections.nCopies(m, u)); l.addAll(Collections.nCopies(m + 1 - m / 2, v)); }
                }
                if (rest == 1) { l.add(0, 1); l.add(l.size() / 2, 2.5d); l.add(-4L); }
                agg(c, l, 1, "mode", "median", "min", "max", "sum");
                if (m <= 40) agg(c, l, 0, "mode");
                if (m <= 130) agg(c, l, 3, "mode");
            }
        }
        {
            Object[][] kinds = {
                {0, 1, -1, 7, Integer.MAX_VALUE, Integer.MIN_VALUE, 16777217, 1000000007}, {0L, 1L, -3L, Long.MAX_VALUE, Long.MIN_VALUE, 9007199254740993L, 4294967297L, 2147483648L},
                {0f, 0.1f, -0.3f, 16777216f, 16777218f, 3.4028235E38f, 1.4E-45f, 33554432f, 1.1f, 0.2f}, {0d, 0.1d, -0.2d, 0.3d, 1e16, 9007199254740992d, 4.9E-324, 1.7976931348623157E308, 2.5d},
                {new BigDecimal("0.1"), new BigDecimal("1.00"), new BigDecimal("-0.00000000000000000000000000000001"), new BigDecimal("123456789012345678901234567890"), new BigDecimal("1E+3"), new BigDecimal("9007199254740993.000000000001"), BigDecimal.TEN}};
            if (c.space("one type", "all lists of 1..3, and lists of 4, 5, 8, 10, 16, 33 (each ordered pair alternating) of boundary values of one type (Integer, Long, Float, Double, BigDecimal), as list field, fields and nested lists x 7 functions")) for (Object[] kind : kinds) {
                for (int n = 1; n <= 3; n++) G.vectors(n, kind.length, v -> {
                    List<Object> vals = new ArrayList<>();
                    for (int q : v) vals.add(kind[q]);
                    agg(c, vals, 1, AGG); agg(c, vals, 7, AGG); if (vals.size() > 1) agg(c, vals, 3, AGG);
                });
                for (int n : new int[]{4, 5, 8, 10, 16, 33}) for (Object x : kind) for (Object y : kind) {
                    List<Object> vals = new ArrayList<>();
                    for (int j = 0; j < n; j++) vals.add(j % 2 == 0 ? x : y);
                    agg(c, vals, 1, AGG);
                    if (n <= 8) agg(c, vals, 7, AGG);
                }
            }
        }
        if (c.space("rounding", "AVG and MEAN of 2..9 integers with every remainder, both signs; MEDIAN of two values with 1..6 decimals")) {
            for (int n = 2; n <= (c.quick ? 9 : 20); n++) for (int s = -3 * n; s <= 3 * n; s++) for (int k = 0; k < 3; k++) {
                List<Object> vals = new ArrayList<>();
                for (int i = 0; i < n - 1; i++) vals.add(k == 1 ? (Object) 0L : (Object) 0);
                vals.add(k == 0 ? (Object) s : k == 1 ? (Object) (long) s : (Object) new BigDecimal(s).movePointLeft(2));
                agg(c, vals, 1, "avg", "mean", "median");
                agg(c, vals, 0, "avg", "mean");
            }
            for (int a = -30; a <= 30; a += 3) for (int sc = 0; sc <= 6; sc++) for (int b = -7; b <= 7; b++) agg(c, Arrays.asList(new BigDecimal(a).movePointLeft(sc), new BigDecimal(b).movePointLeft(sc)), 1, "median", "avg", "sum");
        }
        if (c.space("order", "all permutations of 5 and 6 values x 7 functions: the result does not depend on the order")) {
            Object[][] sets = {{3, 1, 4, 1, 5}, {0.5d, 2, -1L, new BigDecimal("2.0"), 7}, {1, 2, 3, 4, 5, 6}, {10, 9, 100, 9, -5, 0.1d}};
            for (Object[] st : sets) permute(new ArrayList<>(Arrays.asList(st)), 0, p -> agg(c, new ArrayList<>(p), 1, AGG));
        }
        if (c.space("failures", "a non-number, null or missing argument at every position of lists of 1..5, as argument or list element x 7 functions; empty lists")) {
            Object[] bad = {"abc", true, LocalDate.of(2024, 1, 1), LocalDateTime.of(2024, 1, 1, 0, 0), null, "", "1x"};
            for (int n = 1; n <= 5; n++) for (int at = 0; at < n; at++) for (Object b : bad) for (int k = 0; k < 3; k++) {
                List<Object> vals = new ArrayList<>();
                for (int i = 0; i < n; i++) vals.add(i == at ? b : k == 0 ? (Object) (i + 1) : k == 1 ? (Object) (i + 0.5d) : (Object) (i + 5000000000L));
                Map<String, Object> d = G.data("l", vals, "one", 1);
                for (String fn : AGG) { c.val(fn(fn, f("l")), d); c.val(fn(fn, f("one"), f("l")), d); c.val(fn(fn, f("l"), i(2)), d); }
                Map<String, Object> d2 = G.data();
                List<E> a = new ArrayList<>();
                for (int i = 0; i < n; i++) { d2.put("f" + i, vals.get(i)); a.add(f("f" + i)); }
                for (String fn : AGG) c.val(fn(fn, a), d2);
            }
            E[] be = {s("abc"), b(true), f("zz"), f("n.zz"), bin('/', i(1), i(0)), fn("min", f("zz")), date("2024-01-01"), bin('-', s("a"), i(1)), f("e"), fn("int", s("x"))};
            Map<String, Object> d = G.data("e", Collections.emptyList(), "n", G.data("a", 1), "one", 1);
            for (E x : be) for (int n = 1; n <= 5; n++) for (int at = 0; at < n; at++) {
                List<E> a = new ArrayList<>();
                for (int i = 0; i < n; i++) a.add(i == at ? x : i % 2 == 0 ? i(i + 1) : f("one"));
                for (String fn : AGG) { c.val(fn(fn, a), d); if (n < 4) c.cond(cmp(">", fn(fn, a), i(0)), d); }
            }
        }
        if (c.space("nested functions", "every function of every function of lists over 3 values; upper-case names; comparisons of two functions")) {
            Object[] v3 = {1, 2.5d, -4L};
            G.vectors(3, 3, v -> {
                Map<String, Object> d = G.data("l", Arrays.asList(v3[v[0]], v3[v[1]], v3[v[2]]), "x", v3[v[0]]);
                for (String g : AGG) for (String h : AGG) {
                    c.val(fn(g, fn(h, f("l")), f("x")), d);
                    c.val(fn(g, f("l"), fn(h, f("x"), i(3)), bin('*', f("x"), i(2))), d);
                    c.cond(cmp(CMPS[(v[0] + v[1] + v[2]) % 6], fn(g, f("l")), fn(h, f("l"), i(1))), d);
                    c.val(print(fn(g, fn(h, f("l")))).toUpperCase().replace("L", "l").replace("l", "l"), fn(g, fn(h, f("l"))), upper(d));
                }
            });
        }
    }
    /** the same data under upper-case names too */
    private static Map<String, Object> upper(Map<String, Object> d) { Map<String, Object> m = G.with(d); for (String k : d.keySet()) m.put(k.toUpperCase(), d.get(k)); return m; }
    static <T> void permute(List<T> l, int k, java.util.function.Consumer<List<T>> f) {
        if (k == l.size()) { f.accept(l); return; }
        for (int i = k; i < l.size(); i++) { Collections.swap(l, k, i); permute(l, k + 1, f); Collections.swap(l, k, i); }
    }

    // ---- C16 ------------------------------------------------------------------------------------

    static void c16(Ck c) {
        if (c.space("LEN of text", "texts of 0..200 characters and of sizes round powers of 2 and 10 up to 5000 (thorough 65536) (ASCII, blanks, unicode), look-alikes of dates, numbers, lists, as literal, field, nested field and concatenation")) {
            List<String> ts = new ArrayList<>(Arrays.asList(PCompare.TEXTS));
            for (int n = 0; n <= 200; n++) { ts.add("x".repeat(n)); ts.add(" ".repeat(n)); ts.add("a,b ".repeat(n).substring(0, n)); ts.add("é日".repeat(n).substring(0, n)); }
            for (int n : G.sizes(c.quick ? 5001 : 65537)) { ts.add("x".repeat(n)); ts.add("é\n日 ".repeat(n).substring(0, n)); }
            ts.addAll(Arrays.asList("2024-01-01", "2024-02-30", "2024-01-01 10:00:00", "1", "1.5", "1.2.3", "[1,2,3]", "null", "true", "a,b,c", "(1)"));
            for (String t : ts) {
                Map<String, Object> d = G.data("x", t, "n", G.data("x", t));
                c.val(fn("len", f("x")), d);
                c.val(fn("len", f("n.x")), d);
                if (!(t.contains("'") && t.contains("\""))) c.val(fn("len", PCompare.text(t)), d);
                if (!V.dateShaped(t)) c.val(fn("len", bin('+', f("x"), s("ab"))), d);
                c.cond(cmp("=", fn("len", f("x")), i(t.length())), d);
                c.cond(cmp(">", fn("len", f("x")), i(t.length())), d);
                c.val(print(fn("len", f("x"))).replace("len", "LEN"), fn("len", f("x")), d);
            }
        }
        if (c.space("LEN of special characters", "all texts of 1..3 over 20 characters a count could skip or merge (line ends, blanks of all kinds, tab, NUL, zero-width and combining characters, byte-order mark, quotes, backslash, escapes), every single character of the basic plane, alone and between letters")) {
            char[] al = {'a', ' ', '\n', '\r', '\t', '\u0000', '\u00a0', '\u0301', '\u200b', '\u200d', '\ufeff', '\u2028', '\\', '"', '%', '\u00ad', '\ufe0f', '\u3000', '&', '\u001b'};
            for (int n = 1; n <= 3; n++) G.vectors(n, al.length, v -> {
                StringBuilder b = new StringBuilder();
                for (int q : v) b.append(al[q]);
                String t = b.toString();
                c.val(fn("len", f("x")), G.data("x", t));
                c.val(fn("len", f("n.x")), G.data("n", G.data("x", "a" + t + "b")));
                if (!t.contains("\"")) c.val(fn("len", PCompare.text(t)), G.data());
                c.val(bin('+', fn("len", f("x")), fn("len", f("y"))), G.data("x", t, "y", t + "c"));
            });
            for (int ch = 0; ch < 0xd800; ch++) c.val(fn("len", f("x")), G.data("x", ch % 2 == 0 ? "" + (char) ch : "a" + (char) ch + "b"));
            for (int ch = 0xe000; ch < 0x10000; ch++) c.val(fn("len", f("x")), G.data("x", ch % 2 == 0 ? "" + (char) ch : "a" + (char) ch + "b"));
        }
        if (c.space("LEN of list", "lists of 0..4 over 11 kinds of elements (also null, lists, maps, texts), lists up to 200 and round sizes up to 10000 (thorough 65536), sets")) {
            Object[] el = {1, "abc", null, 0.5d, true, Arrays.asList(1, 2), G.data("a", 1), "", LocalDate.of(2024, 1, 1), Collections.emptyList(), 9L};
            for (int n = 0; n <= (c.quick ? 3 : 4); n++) G.vectors(n, el.length, v -> {
                List<Object> l = new ArrayList<>();
                for (int q : v) l.add(el[q]);
                Map<String, Object> d = G.data("x", l, "n", G.data("x", new LinkedHashSet<>(l)));
                c.val(fn("len", f("x")), d);
                c.val(fn("len", f("n.x")), d);
                c.cond(cmp(">=", fn("len", f("x")), i(v.length)), d);
            });
            for (int n = 0; n <= 200; n++) c.val(fn("len", f("x")), G.data("x", Collections.nCopies(n, n % 2 == 0 ? "a" : (Object) 1)));
            for (int n : G.sizes(c.quick ? 10001 : 65537)) { List<Object> l = new ArrayList<>(Collections.nCopies(n, n % 2 == 0 ? "a" : null)); c.val(fn("len", f("x")), G.data("x", l)); for (int q = 0; q < n; q++) l.set(q, q); c.val(fn("len", f("n.x")), G.data("n", G.data("x", new LinkedHashSet<>(l)))); }
        }
        if (c.space("LEN of arguments", "2..4 arguments over 9 kinds (texts, also empty, numbers, booleans, fields, computed, missing), and 5..300 arguments with an empty text at the ends, the middle and round size limits: as many as there are")) {
            E[] as = {s("a"), s(""), i(0), d("0.5"), b(false), f("x"), f("y"), bin('+', f("y"), i(1)), f("zz")};
            for (Map<String, Object> d : Arrays.asList(G.data("x", "", "y", 0), G.data("x", "abc", "y", 5L))) {
                for (int n = 2; n <= (c.quick ? 3 : 4); n++) G.vectors(n, as.length, v -> { E[] e = Arrays.stream(v).mapToObj(q -> as[q]).toArray(E[]::new); c.val(fn("len", e), d); c.cond(cmp("=", fn("len", e), i(v.length)), d); });
                for (int n : G.sizes(301)) for (int p : G.places(n)) { if (n > 70 && p % 3 != 0) continue; E[] e = new E[n]; for (int j = 0; j < n; j++) e[j] = j == p ? s("") : j % 2 == 0 ? i(j) : s("t"); c.val(fn("len", e), d); }
            }
        }
        if (c.space("INT of numbers", "boundary numbers, quarters -20..20, powers of two and ten with fractions, in every representation, computed, negated, nested")) {
            List<String> ns = new ArrayList<>(Arrays.asList(PCompare.NUMS));
            for (int q = -80; q <= 80; q++) ns.add(new BigDecimal(q).divide(BigDecimal.valueOf(4)).stripTrailingZeros().toPlainString());
            for (int k = 0; k <= 64; k++) for (String fr : new String[]{"0", "0.1", "0.5", "0.999999999", "-0.5", "-0.000001"}) { BigDecimal p = BigDecimal.valueOf(2).pow(k).add(new BigDecimal(fr)); ns.add(p.toPlainString()); ns.add(p.negate().toPlainString()); }
            for (int k = 0; k <= 20; k++) { ns.add(BigDecimal.TEN.pow(k).subtract(new BigDecimal("0.001")).toPlainString()); ns.add(BigDecimal.TEN.pow(k).negate().add(new BigDecimal("0.001")).toPlainString()); }
            for (String n : ns) for (PCompare.Rep r : PCompare.reps(n)) {
                Map<String, Object> d = G.data();
                r.put(d, "x");
                E x = r.at("x");
                c.val(fn("int", x), d);
                c.val(fn("int", neg(x)), d);
                c.val(fn("int", bin('*', x, d("1.0"))), d);
                c.val(fn("int", bin('/', x, i(4))), d);
                c.val(bin('+', fn("int", x), i(1)), d);
                c.val(fn("int", fn("int", x)), d);
                c.cond(cmp("<=", fn("int", x), x), d);
                c.cond(in("one", fn("int", x)), G.with(d, "one", 1));
            }
        }
        if (c.space("failures", "each function on arguments without a meaning, missing and null data, empty lists")) {
            Object[] vs = {"abc", "", true, false, LocalDate.of(2024, 1, 1), LocalDateTime.of(2024, 1, 1, 0, 0), null, "2024-02-30", "2023-13-01", "01-01-2024", "2024/01/01", "2024-1-1", "abcd-ef-gh", " 2024-01-01", 1, 20240101, 1.5d, 9L, "2024-01-01T00:00:00", "2024-01-01Z"};
            for (Object o : vs) {
                Map<String, Object> d = G.data("x", o, "n", G.data("x", o));
                for (String fn : new String[]{"int", "days_elapsed"}) for (E x : new E[]{f("x"), f("n.x"), f("zz"), f("n.zz"), f("x.y")}) {
                    if (fn.equals("days_elapsed") && o instanceof LocalDate) continue;
                    c.val(fn(fn, x), d);
                    c.val(bin('+', i(1), fn(fn, x)), d);
                    c.cond(cmp(">", fn(fn, x), i(0)), d);
                    c.cond(not(cmp(">", fn(fn, x), i(0))), d);
                }
                for (E x : new E[]{f("zz"), f("n.zz"), f("zz.a")}) { c.val(fn("len", x), d); c.cond(cmp("=", fn("len", x), i(0)), d); }
                if (o == null) { c.val(fn("len", f("x")), d); c.val(fn("len", f("n.x")), d); }
            }
            for (E x : new E[]{s("abc"), b(true), i(5), d("1.5"), bin('+', i(1), i(2)), s("2023-02-29"), date("2023-02-29"), neg(i(5)), ver("1.2.3")}) { c.val(fn("days_elapsed", x), G.data()); c.val(fn("int", x instanceof Lit l && l.val() != null && l.val().k == V.K.VER ? s("x") : x), G.data()); }
        }
        String[] zones = {"UTC", "Pacific/Kiritimati", "Etc/GMT+12", "America/New_York", "Asia/Kolkata"};
        TimeZone old = TimeZone.getDefault();
        try {
            for (String z : zones) if (c.space("DAYS_ELAPSED, " + z, "today +-" + (c.quick ? 800 : 3000) + " days and " + PCompare.DATES.length + " fixed dates, as literal, date object and text, in the time zone " + z)) {
                c.barrier();
                TimeZone.setDefault(TimeZone.getTimeZone(z));
                LocalDate today = LocalDate.now();
                int n = c.quick ? z.equals("UTC") ? 800 : 60 : 3000;
                for (int k = -n; k <= n; k++) for (PCompare.Rep r : PCompare.dateReps(today.plusDays(k).toString())) days(c, r);
                for (String s : PCompare.DATES) for (PCompare.Rep r : PCompare.dateReps(s)) days(c, r);
                c.barrier();
            }
        } finally {
            c.barrier();
            TimeZone.setDefault(old);
        }
    }
    /** the current date is read before and after: the answer must be right for one of them */
    static void days(Ck c, PCompare.Rep r) {
        Map<String, Object> d = G.data();
        r.put(d, "x");
        long now = LocalDate.now().toEpochDay();
        d.put("one", 1);
        d.put("w", Arrays.asList("q", now - 19000, 31, (int) (now - 20000)));
        E call = fn("days_elapsed", r.at("x"));
        for (E e : new E[]{call, bin('+', call, i(1)), bin('*', neg(call), i(2)), fn("max", call, i(31)), cmp(">=", call, i(31)), cmp("=", i(0), call), any("w", call, i(77)), all("w", i(31), call), in("one", i(2), call)}) {
            boolean cond = e instanceof Cmp || e instanceof Con || e instanceof In;
            String text = print(e);
            c.add(w -> {
                Out before = cond ? Ref.cond(e, d) : Ref.val(e, d);
                Impl.Got got = cond ? w.impl.cond(text, d, null) : w.impl.val(text, d);
                Out after = cond ? Ref.cond(e, d) : Ref.val(e, d);
                w.count(true);
                c.state("v", text, d, TimeZone.getDefault().getID());
                if (Impl.agrees(before, got) || Impl.agrees(after, got)) return null;
                return new Ck.Bad(text, d, null, after + " in zone " + TimeZone.getDefault().getID(), got.toString())
                        .snippet("TimeZone.setDefault(TimeZone.getTimeZone(" + Replay.lit(TimeZone.getDefault().getID()) + "));\n" + Replay.evalSnippet(cond, text, d, null));
            });
        }
    }

    // ---- C26 ------------------------------------------------------------------------------------

    interface Tpl { E of(E[] h); }
    record T(int holes, boolean cond, Tpl t) {}

    static void c26(Ck c) {
        Map<String, Object> base = G.data("a", 4, "b", 2L, "h", 2.5d, "s", "abc", "l", Arrays.asList(1, 6, 2.5d), "t", true, "x", 6, "y", "abc!", "n", G.data("k", 3));
        List<E> comp = new ArrayList<>(Arrays.asList(bin('+', f("a"), f("b")), bin('*', i(2), i(3)), bin('-', i(1), f("a")), bin('/', f("a"), i(8)), bin('^', f("b"), i(2)), fn("min", f("a"), f("b")), fn("sum", f("l")), fn("avg", i(1), f("a")), fn("len", f("s")), fn("int", f("h")), neg(f("a")),
                bin('+', f("s"), s("!")), bin('%', f("a"), i(3)), fn("max", fn("min", i(9), f("x")), f("b")), bin('*', bin('+', f("a"), i(1)), f("h")), fn("median", f("l"), i(1)),
                bin('/', i(1), i(0)), bin('+', f("zz"), i(1)), fn("min", f("zz"), i(1)), bin('-', f("s"), i(1)), fn("sum", f("s"), i(1)), neg(f("s"))));
        List<T> ts = new ArrayList<>();
        for (String op : CMPS) {
            ts.add(new T(1, true, h -> cmp(op, h[0], i(6))));
            ts.add(new T(1, true, h -> cmp(op, f("x"), h[0])));
            ts.add(new T(1, true, h -> cmp(op, s("abc!"), h[0])));
            ts.add(new T(2, true, h -> cmp(op, h[0], h[1])));
        }
        ts.add(new T(1, true, h -> in("x", h[0])));
        ts.add(new T(2, true, h -> in("x", h[0], h[1])));
        ts.add(new T(2, true, h -> notIn("x", i(9), h[0], h[1])));
        ts.add(new T(2, true, h -> in("y", s("q"), h[0], h[1])));
        ts.add(new T(2, true, h -> any("l", h[0], h[1])));
        ts.add(new T(2, true, h -> all("l", h[0], h[1])));
        ts.add(new T(1, true, h -> any("l", i(77), h[0])));
        for (String fn : AGG) ts.add(new T(2, false, h -> fn(fn, h[0], i(5), h[1])));
        ts.add(new T(1, false, h -> fn("int", h[0])));
        ts.add(new T(1, false, h -> fn("len", h[0])));
        for (char o : OPS) { ts.add(new T(2, false, h -> bin(o, h[0], h[1]))); ts.add(new T(1, false, h -> bin(o, h[0], i(3)))); ts.add(new T(1, false, h -> bin(o, i(3), h[0]))); }
        ts.add(new T(1, false, h -> neg(h[0])));
        ts.add(new T(2, true, h -> and(cmp(">", h[0], i(1)), cmp("<", h[1], i(7)))));
        ts.add(new T(2, true, h -> or(cmp("=", h[0], f("x")), not(cmp("!=", h[1], i(4))))));
        ts.add(new T(2, true, h -> not(cmp("=", h[0], h[1]))));
        ts.add(new T(2, true, h -> cmp(">", bin('+', h[0], h[1]), i(9))));
        ts.add(new T(2, true, h -> cmp("=", fn("max", h[0], h[1]), f("x"))));
        List<T> three = Arrays.asList(
                new T(3, true, h -> cmp(">", bin('+', h[0], h[1]), h[2])), new T(3, true, h -> cmp("=", h[0], bin('-', h[1], h[2]))), new T(3, true, h -> in("x", h[0], h[1], h[2])),
                new T(3, false, h -> fn("sum", h[0], h[1], h[2])), new T(3, false, h -> bin('*', bin('-', h[0], h[1]), h[2])), new T(3, true, h -> cmp("<=", fn("min", h[0], h[1]), fn("max", h[1], h[2]))),
                new T(3, true, h -> and(or(cmp("=", h[0], i(6)), cmp(">", h[1], i(2))), cmp("!=", h[2], f("x")))), new T(3, true, h -> all("l", h[0], h[1], h[2])), new T(3, false, h -> fn("avg", h[0], fn("min", h[1], i(4)), bin('+', h[2], i(1)))));
        // operands that look alike and differ in one place: neither may be taken for the other
        List<E[]> like = new ArrayList<>();
        {
            E[][] vary = {{i(1), i(5)}, {f("a"), f("b")}, {f("a"), f("x")}, {d("2.5"), d("2.50")}, {i(2), d("2.5")}, {neg(i(1)), i(1)}, {f("n.k"), f("n.zz")}, {bin('+', f("a"), i(1)), bin('-', f("a"), i(1))}, {bin('+', f("a"), i(1)), bin('+', f("a"), i(5))}, {bin('+', f("a"), i(1)), bin('+', f("b"), i(1))}, {fn("min", f("a"), i(3)), fn("max", f("a"), i(3))}, {fn("min", f("a"), i(3)), fn("min", f("a"), i(1))}, {fn("sum", f("l")), fn("avg", f("l"))}, {f("l"), f("x")}, {neg(f("a")), f("a")}, {fn("len", f("s")), fn("len", f("l"))}, {bin('*', i(2), i(3)), bin('*', i(3), i(3))}, {bin('-', i(7), i(2)), bin('-', i(2), i(7))}, {bin('^', f("b"), i(3)), bin('^', i(3), f("b"))}};
            interface H { E of(E x); }
            List<H> hs = new ArrayList<>(Arrays.asList(x -> x, x -> bin('+', x, i(2)), x -> bin('+', i(2), x), x -> bin('*', x, x), x -> bin('-', f("a"), x), x -> neg(x), x -> neg(bin('+', x, i(1))), x -> bin('+', bin('*', x, i(2)), i(1)), x -> bin('/', x, i(4)), x -> bin('+', f("s"), x)));
            for (String fn : AGG) { hs.add(x -> fn(fn, x)); hs.add(x -> fn(fn, x, i(2))); hs.add(x -> fn(fn, i(2), x, i(9))); hs.add(x -> fn(fn, bin('+', x, i(1)), i(2))); hs.add(x -> fn(fn, fn("max", x, i(0)), i(2))); }
            hs.add(x -> fn("int", x)); hs.add(x -> fn("len", bin('+', f("s"), x)));
            for (H h : hs) for (E[] v : vary) for (int k = 0; k < 2; k++) { E l = h.of(v[k]), r = h.of(v[1 - k]); if (l instanceof Lit || l instanceof Fld) continue; like.add(new E[]{l, r}); }
        }
        if (c.space("operands that look alike", like.size() + " pairs of computed operands of one shape that differ in one number, field, operator or function, at the top or nested, x the contexts of two computed operands, both orders, and twice the same: as the model says, and as with the first, or the second, replaced by its value")) {
            List<T> two = new ArrayList<>();
            for (T t : ts) if (t.holes() == 2) two.add(t);
            for (E[] p : like) for (T t : two) {
                E e0 = t.t().of(p);
                if (t.cond()) c.cond(e0, base); else c.val(e0, base);
                if (c.quick && (e0.hashCode() & 3) != 0) continue;
                E same = t.t().of(new E[]{p[0], p[0]});
                if (t.cond()) c.cond(same, base); else c.val(same, base);
                for (int k = 0; k < 2; k++) {
                    Out o = Ref.val(p[k], base);
                    if (!o.isVal() || o.v().approx) continue;
                    Map<String, Object> d = G.with(base, "r", o.v().isNum() ? obj(o.v()) : o.v().v);
                    E e = t.t().of(k == 0 ? new E[]{f("r"), p[1]} : new E[]{p[0], f("r")});
                    if (t.cond()) c.cond(e, d); else c.val(e, d);
                }
            }
        }
        int n3 = c.quick ? 12 : comp.size();
        // a value of every computed operand: literal or field
        for (int holes = 1; holes <= 3; holes++) {
            int fh = holes;
            List<T> list = new ArrayList<>();
            for (T t : holes == 3 ? three : ts) if (t.holes() == holes) list.add(t);
            int m = holes == 3 ? n3 : comp.size();
            if (c.space(holes + " computed operand" + (holes > 1 ? "s" : ""), list.size() + " contexts x " + m + "^" + holes + " computed operands (arithmetic, functions, concatenation, failing) x every subset replaced by the literal of its value, or by a field holding it")) {
                for (T t : list) G.vectors(holes, m, v0 -> {
                    int[] v = v0.clone();
                    if (fh == 3) for (int i = 0; i < 3; i++) if (v[i] >= n3 - 3 && n3 < comp.size()) v[i] = 16 + (v[i] - (n3 - 3)) * 2;   // keep failing ones in the smaller set
                    for (int mask = 0; mask < Math.pow(3, fh); mask++) {
                        int q = mask;
                        Map<String, Object> d = G.with(base);
                        E[] h = new E[fh];
                        boolean possible = true;
                        for (int i = 0; i < fh; i++, q /= 3) {
                            E e = comp.get(v[i]);
                            h[i] = e;
                            if (q % 3 == 0) continue;
                            Out o = Ref.val(e, base);
                            if (!o.isVal() || o.v().approx) { possible = false; break; }
                            if (q % 3 == 1) h[i] = o.v().isNum() ? num(o.v().num().signum() == 0 ? BigDecimal.ZERO : plain(o.v())) : PCompare.text((String) o.v().v);
                            else { d.put("r" + i, o.v().isNum() ? obj(o.v()) : o.v().v); h[i] = f("r" + i); }
                        }
                        if (!possible) continue;
                        E e = t.t().of(h);
                        if (t.cond()) c.cond(e, d); else c.val(e, d);
                        if (mask == 0) {
                            if (t.cond() && fh < 3) { c.cond(not(e), d); c.cond(and(f("t"), e), d); }
                            continue;
                        }
                        // the code against itself: computed against replaced
                        E[] h0 = new E[fh];
                        for (int i = 0; i < fh; i++) h0[i] = comp.get(v[i]);
                        E e0 = t.t().of(h0);
                        boolean concat = e instanceof Bin b && b.op() == '+' && involvesText(comp, v);
                        if (!concat) c.add(w -> {
                            String t0 = print(e0), t1 = print(e);
                            Impl.Got a = t.cond() ? w.impl.cond(t0, base, null) : w.impl.val(t0, base), b = t.cond() ? w.impl.cond(t1, d, null) : w.impl.val(t1, d);
                            w.count(true);
                            c.state("e", t0 + "~" + t1, d, null);
                            if (alike(a, b)) return null;
                            return new Ck.Bad(t0 + "   ~   " + t1, d, null, "the same outcome of both", a + "   ~   " + b).snippet(Replay.evalSnippet(t.cond(), t0, d, null) + Replay.evalSnippet(t.cond(), t1, d, null).replace("BoolParser parser", "parser").replace("Map<String, Object> data", "data"));
                        });
                    }
                });
            }
        }
        if (c.space("boundary values", PCompare.NUMS.length + " boundary numbers in every representation, each computed in eleven ways ((v + 0), (v * 1), (0 + v), (v - 0), -(-v), min, max, sum, mode, median of one, max of two), against itself and its neighbours x contexts (both sides of the six comparisons, membership and containment item, arithmetic, function argument)")) {
            for (String nv : PCompare.NUMS) for (PCompare.Rep r : PCompare.reps(nv)) {
                BigDecimal n = new BigDecimal(nv);
                E v = r.at("v");
                E[] computed = {bin('+', v, i(0)), bin('*', v, i(1)), bin('+', i(0), v), bin('-', v, i(0)), neg(neg(v)), fn("min", v), fn("max", v), fn("sum", v), fn("mode", v), fn("median", v), fn("max", v, fn("min", v, v))};
                for (E e : computed) {
                    for (BigDecimal o : new BigDecimal[]{n, n.add(BigDecimal.ONE), n.subtract(new BigDecimal("0.000000000000000000000001"))}) for (PCompare.Rep s : c.quick ? List.of(new PCompare.Rep("lit", num(o), null), new PCompare.Rep("big", null, o)) : PCompare.reps(o.toPlainString())) {
                        Map<String, Object> d = G.data("w", Arrays.asList(7, o, "z"));
                        r.put(d, "v"); s.put(d, "o"); d.put("f", o);
                        E x = s.at("o");
                        for (String op : CMPS) { c.cond(cmp(op, e, x), d); c.cond(cmp(op, x, e), d); }
                        c.cond(in("f", i(7), e), d); c.cond(notIn("f", e), d); c.cond(any("w", e), d); c.cond(all("w", e, i(7)), d);
                        c.cond(in("f", e, x, f("w")), d);
                    }
                    Map<String, Object> d = G.data();
                    r.put(d, "v");
                    c.val(bin('-', e, v), d); c.val(bin('+', e, d("0.5")), d); c.val(bin('*', e, i(3)), d); c.val(bin('/', e, i(4)), d); c.val(neg(e), d); c.val(fn("sum", e, d("0.25")), d); c.val(fn("min", e, v), d); c.val(fn("avg", e, e, v), d); c.val(fn("int", e), d); c.val(e, d);
                }
            }
        }
        if (c.space("text values", PCompare.TEXTS.length + " texts, each computed by concatenation in three ways, against itself and the others x comparisons, membership, containment, concatenation, LEN")) {
            for (String a : PCompare.TEXTS) {
                if (a.contains("'") && a.contains("\"")) continue;
                E lit = PCompare.text(a);
                int half = a.isEmpty() ? 0 : a.offsetByCodePoints(0, a.codePointCount(0, a.length()) / 2);
                E[] computed = {bin('+', lit, s("")), bin('+', f("e"), f("v")), bin('+', f("v1"), f("v2"))};
                for (E e : computed) {
                    for (String b : PCompare.TEXTS) {
                        Map<String, Object> d = G.data("e", "", "v", a, "v1", a.substring(0, half), "v2", a.substring(half), "o", b, "w", Arrays.asList("q", b));
                        c.cond(cmp("=", e, f("o")), d); c.cond(cmp("!=", f("o"), e), d); c.cond(cmp("<", e, f("o")), d); c.cond(cmp(">=", f("o"), e), d);
                        c.cond(in("o", s("q"), e), d); c.cond(notIn("o", e), d); c.cond(any("w", e), d); c.cond(all("w", s("q"), e), d);
                        c.val(bin('+', e, f("o")), d);
                    }
                    Map<String, Object> d = G.data("e", "", "v", a, "v1", a.substring(0, half), "v2", a.substring(half));
                    c.val(fn("len", e), d); c.val(e, d); c.val(bin('+', e, i(5)), d); c.val(bin('+', d("1.50"), e), d); c.val(neg(e), d); c.val(fn("sum", e, i(1)), d); c.val(bin('*', e, i(2)), d);
                }
            }
        }
        {
            List<E> cs = new ArrayList<>();
            for (int k : new int[]{0, 1, 2, 3, 4, 6, 12, 100}) {
                cs.add(bin('/', i(k * 2L), i(2))); cs.add(bin('/', f("i" + k), i(1))); cs.add(bin('^', i(k), i(1))); cs.add(bin('*', d("0.5"), i(k * 2L))); cs.add(bin('+', d(k + ".25"), d("0.75"))); cs.add(fn("avg", i(k), i(k))); cs.add(fn("median", i(k), i(k + 2)));
                cs.add(fn("mode", i(k))); cs.add(fn("max", d(k + ".0"), i(k))); cs.add(fn("sum", d(k + ".5"), d("0.5"))); cs.add(fn("int", d(k + ".75"))); cs.add(bin('-', i(k), i(1))); cs.add(bin('%', i(k), i(5))); cs.add(bin('*', i(k), i(1000000000))); cs.add(fn("min", i(3000000000L), i(k))); cs.add(neg(bin('/', i(k), i(1)))); cs.add(bin('/', i(k), i(8))); cs.add(bin('+', f("l" + k), i(0)));
            }
            cs.add(fn("len", f("s"))); cs.add(bin('+', f("s"), s("!"))); cs.add(bin('+', s("1"), s("2"))); cs.add(bin('+', s("a"), i(1))); cs.add(bin('^', i(2), i(31))); cs.add(bin('^', i(2), i(62))); cs.add(bin('/', i(3000000000L), i(1))); cs.add(bin('+', i(2147483647), i(1)));
            Map<String, Object> bd = G.with(base, "m", Arrays.asList(1, 2, 3, 4, 2.5d, "abc!", 6L, "12"), "g", Arrays.asList(100L, 0.5d), "v3", 3, "v4", 4.0d, "v6", 6L, "vs", "12", "vd", new BigDecimal("1.50"));
            for (int k : new int[]{0, 1, 2, 3, 4, 6, 12, 100}) { bd.put("i" + k, k); bd.put("l" + k, (long) k); }
            E[] nb = {i(1), i(4), d("2.5"), d("3.0"), i(3000000000L), s("abc!"), b(true), f("v3"), f("v4"), neg(i(1)), f("l"), bin('/', i(6), i(2))};
            List<T> ct = new ArrayList<>();
            for (E x : nb) {
                for (String fl : new String[]{"m", "l"}) { ct.add(new T(1, true, h -> all(fl, h[0], x))); ct.add(new T(1, true, h -> all(fl, x, h[0]))); ct.add(new T(1, true, h -> any(fl, h[0], x))); ct.add(new T(1, true, h -> any(fl, x, h[0]))); }
                for (String fl : new String[]{"v3", "v4", "v6", "vs", "vd"}) { ct.add(new T(1, true, h -> in(fl, h[0], x))); ct.add(new T(1, true, h -> notIn(fl, x, h[0], x))); }
                for (String fn : AGG) { ct.add(new T(1, false, h -> fn(fn, h[0], x))); ct.add(new T(1, false, h -> fn(fn, x, h[0]))); }
                for (char o : OPS) { ct.add(new T(1, false, h -> bin(o, h[0], x))); ct.add(new T(1, false, h -> bin(o, x, h[0]))); }
                for (String op : CMPS) { ct.add(new T(1, true, h -> cmp(op, h[0], x))); ct.add(new T(1, true, h -> cmp(op, x, h[0]))); }
            }
            for (String fl : new String[]{"m", "l", "g"}) { ct.add(new T(1, true, h -> any(fl, h[0]))); ct.add(new T(1, true, h -> all(fl, h[0]))); ct.add(new T(1, true, h -> all(fl, h[0], h[0]))); ct.add(new T(1, true, h -> all(fl, i(1), i(4), h[0], i(2)))); }
            ct.add(new T(1, false, h -> fn("int", h[0]))); ct.add(new T(1, false, h -> fn("len", h[0]))); ct.add(new T(1, false, h -> neg(h[0]))); ct.add(new T(1, false, h -> neg(bin('+', h[0], i(1)))));
            if (c.space("next to literals", cs.size() + " computed operands (whole and broken quotients, powers, means, decimals that add up to a whole number, ...) x " + ct.size() + " contexts next to a literal, field or list of each type, first and last: the outcome is that with the literal of the value, and with a field of the value")) {
                for (E e : cs) {
                    Out o = Ref.val(e, bd);
                    if (!o.isVal() || o.v().approx) continue;
                    for (T t : ct) for (int k = 0; k < 2; k++) {
                        int kk = k;
                        E e0 = t.t().of(new E[]{e});
                        c.add(w -> {
                            Impl.Got own = w.impl.val(print(e), bd);
                            if (!Impl.agrees(o, own)) return new Ck.Bad(print(e), bd, null, o.toString(), own.toString()).snippet(Replay.evalSnippet(false, print(e), bd, null));
                            // the literal of the value, of the type it has
                            Object ov = own.value();
                            if (ov.toString().indexOf('E') >= 0 && ov instanceof BigDecimal) return null;
                            E r = kk == 1 ? f("r") : ov instanceof String z ? PCompare.text(z) : ov instanceof Integer || ov instanceof Long ? num(new BigDecimal(ov.toString())) : num(decimal(ov));
                            Map<String, Object> d = kk == 1 ? G.with(bd, "r", ov) : bd;
                            E e1 = t.t().of(new E[]{r});
                            String t0 = print(e0), t1 = print(e1);
                            Impl.Got a = t.cond() ? w.impl.cond(t0, d, null) : w.impl.val(t0, d), b = t.cond() ? w.impl.cond(t1, d, null) : w.impl.val(t1, d);
                            w.count(true);
                            c.state("e", t0 + "~" + t1, d, null);
                            Out want = t.cond() ? Ref.cond(e0, d) : Ref.val(e0, d);
                            if (alike(a, b) && Impl.agrees(want, a)) return null;
                            // a whole decimal has no literal of its very spelling, which a text would show
                            if (kk == 0 && ov instanceof BigDecimal z && z.scale() <= 0 && a.ok() && b.ok() && a.value() instanceof String && b.value() instanceof String && Impl.agrees(want, a)) return null;
                            return new Ck.Bad(t0 + "   ~   " + t1, d, null, "the same outcome of both, " + want, a + "   ~   " + b).snippet(Replay.evalSnippet(t.cond(), t0, d, null) + Replay.evalSnippet(t.cond(), t1, d, null).replace("BoolParser parser", "parser").replace("Map<String, Object> data", "data"));
                        });
                    }
                }
            }
        }
        if (c.space("large values", "values of sizes round 4, 8, ... 1024 (thorough 65536), computed in twelve ways (length of a list, of a text, sum, maximum, mode of a list, (x + y), (x * 1), INT, ...), all ordered pairs of ways, the values equal and one apart x 6 operators, and as item, argument and operand")) {
            for (int n : G.sizes(c.quick ? 1100 : 65537)) for (int dl = -1; dl <= 1; dl++) {
                Map<String, Object> d = G.data();
                List<List<E>> ways = new ArrayList<>();
                for (int side = 0; side < 2; side++) {
                    int v = side == 0 ? n : n + dl;
                    List<Object> ones = new ArrayList<>(Collections.nCopies(v, (Object) 1));
                    String q = side == 0 ? "a" : "b";
                    d.put(q + "l", ones); d.put(q + "s", "x".repeat(v)); d.put(q + "m", Arrays.asList(1, v, v, 2.5d)); d.put(q + "v", v); d.put(q + "d", v + 0.75d); d.put(q + "w", (long) v);
                    ways.add(Arrays.asList(fn("len", f(q + "l")), fn("len", f(q + "s")), fn("sum", f(q + "l")), fn("max", f(q + "m")), fn("mode", f(q + "m")), bin('+', f(q + "v"), i(0)), bin('*', f(q + "w"), i(1)), fn("int", f(q + "d")), bin('-', i(v + 5), i(5)), fn("min", i(v), i(v + 1)), bin('/', i(v), i(1)), fn("sum", i(v - 2), i(2)), neg(neg(f(q + "w")))));
                }
                d.put("w", Arrays.asList(5, n, "z"));
                for (E x : ways.get(0)) for (E y : ways.get(1)) {
                    for (String op : CMPS) c.cond(cmp(op, x, y), d);
                    if (dl == 0) { c.val(bin('-', x, y), d); c.val(fn("sum", x, y), d); c.cond(in("av", i(-1 & 7), x, y), d); c.cond(all("w", x, y), d); }
                }
                for (E y : ways.get(1)) { for (String op : CMPS) { c.cond(cmp(op, f("av"), y), d); c.cond(cmp(op, y, i(n)), d); } c.cond(any("w", y), d); c.cond(notIn("aw", y), d); c.val(bin('*', y, d("1.5")), d); c.val(fn("avg", y, i(3)), d); }
            }
        }
        if (c.space("nesting depth", "a value wrapped in 1..30 identity computations ((v + 0), (v * 1), min(v), -(-v)) in every context")) {
            E[] vals = {i(6), f("x"), d("2.5"), f("a")};
            for (int n = 1; n <= 30; n++) for (int k = 0; k < 5; k++) for (E v : vals) {
                E e = v;
                for (int j = 0; j < n; j++) {
                    int q = k == 4 ? j % 4 : k;
                    e = q == 0 ? bin('+', e, i(0)) : q == 1 ? bin('*', i(1), e) : q == 2 ? fn("min", e) : neg(neg(e));
                }
                for (T t : ts) if (t.holes() == 1 && (n <= 6 || n % 8 == 0)) { E x = t.t().of(new E[]{e}); if (t.cond()) c.cond(x, base); else c.val(x, base); }
            }
        }
    }
    private static boolean involvesText(List<E> comp, int[] v) { for (int q : v) if (q == 11) return true; return false; }
    private static BigDecimal plain(V v) { return v.k == V.K.INT ? v.num() : v.whole() ? v.num().setScale(0) : v.num(); }
    private static Object obj(V v) { return v.whole() && Ref.fitsInt(v.num()) ? (Object) v.num().intValueExact() : v.whole() && Ref.fitsLong(v.num()) ? (Object) v.num().longValueExact() : (Object) v.num(); }
    private static BigDecimal decimal(Object o) { BigDecimal b = new BigDecimal(o.toString()); return b.scale() > 0 ? b : b.setScale(1); }
    static boolean alike(Impl.Got a, Impl.Got b) {
        if (a.kind() != b.kind()) return false;
        if (!a.ok()) return a.fail();
        V x = V.ofData(a.value()), y = V.ofData(b.value());
        if (x.isNum() && y.isNum()) {
            if (x.num().compareTo(y.num()) == 0) return true;
            double p = x.num().doubleValue(), q = y.num().doubleValue();
            return Math.abs(p - q) <= 1e-12 * Math.max(Math.abs(p), Math.abs(q));
        }
        return x.k == y.k && x.v.equals(y.v);
    }
}
