package mc;

import static mc.E.*;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.function.IntFunction;

/** C01 and C02: logical structure. */
final class PLogic {
    static final Map<String, Object> DATA = G.data("a", 1, "b", 2, "t", true, "f", false, "s", "abc", "l", Arrays.asList(1, 2),
            "p", G.data("q", true, "r", G.data("s", false), "n", 3), "v", "1.5.10", "d", "2024-02-29", "nil", null,
            "lt", Arrays.asList("x", "y"), "st", new LinkedHashSet<>(Arrays.asList(7, 8)), "big", 3000000000L, "dec", 2.5d);

    /** every sort of condition, with a true and a false instance */
    static final E[][] KINDS = {
        {cmp("=", f("a"), i(1)), cmp("=", f("a"), i(2))},
        {f("t"), f("f")},
        {in("a", i(1), i(3)), in("a", i(3), i(4))},
        {rng("a", i(0), i(5)), rng("a", i(5), i(9))},
        {b(true), b(false)},
        {any("l", i(9), i(1)), any("l", i(8), i(9))},
        {cmp("=", f("zz"), new Null("null")), cmp("=", f("a"), new Null("null"))},
        {cmp("=", bin('+', f("a"), i(1)), i(2)), cmp(">", bin('*', f("b"), i(3)), i(6))},
        {f("p.q"), f("p.r.s")},
        {notIn("a", i(3), i(4)), notIn("a", i(1), i(3))},
        {all("l", i(2), i(1)), all("l", i(1), i(9))},
        {cmp("<", f("a"), f("b")), cmp(">", f("a"), f("b"))},
        {cmp("=", f("s"), s("abc")), cmp("=", f("s"), s("ABC"))},
        {cmp("=", fn("min", f("b"), f("a")), i(1)), cmp("=", fn("max", f("b"), f("a")), i(1))},
        {cmp("=", f("t"), b(true)), cmp("=", f("f"), b(true))},
        {cmp(">", i(2), f("a")), cmp(">", i(1), f("b"))},
        {cmp(">", f("v"), ver("1.5.9")), cmp("<", f("v"), ver("1.5.9"))},
        {cmp("=", f("d"), date("2024-02-29")), cmp(">", f("d"), date("2024-02-29"))},
        {cmp("!=", f("p.n"), new Null("null")), cmp("!=", f("p.zz"), new Null("null"))},
        {cmp("!=", f("a"), i(2)), cmp("!=", f("a"), i(1))},
        {any("lt", s("y")), any("lt", s("z"))},
    };
    /** the same data without any shared object */
    @SuppressWarnings({"unchecked", "removal", "deprecation"})
    static <T> T own(T o) {
        if (o instanceof Map<?, ?> m) { Map<String, Object> r = new java.util.LinkedHashMap<>(); m.forEach((k, v) -> r.put(new String((String) k), own(v))); return (T) r; }
        if (o instanceof java.util.List<?> l) { java.util.List<Object> r = new java.util.ArrayList<>(); for (Object x : l) r.add(own(x)); return (T) r; }
        return (T) (o instanceof Boolean b ? new Boolean(b.booleanValue()) : o instanceof Integer i ? new Integer(i.intValue()) : o instanceof Long i ? new Long(i.longValue()) : o instanceof Double i ? new Double(i.doubleValue()) : o instanceof String s ? new String(s) : o);
    }
    static E leaf(int kind, boolean truth) { return KINDS[kind % KINDS.length][truth ? 0 : 1]; }

    static final String[] ANDS = {"AND", "and", "&&"}, ORS = {"OR", "or", "||"};

    /** text of a tree in which a left operand is not parenthesised: relies on left-to-right grouping */
    static String flat(E e) {
        if (e instanceof Log l) return flat(l.l()) + (l.and() ? " AND " : " OR ") + (l.r() instanceof Log ? "(" + flat(l.r()) + ")" : flat(l.r()));
        if (e instanceof Not n && n.e() instanceof Log) return "NOT (" + flat(n.e()) + ")";
        return print(e);
    }

    static void c01(Ck c) {
        int nk = KINDS.length;
        if (c.space("one condition", "every sort of condition x truth x up to 3 NOT x redundant parentheses")) {
            for (int k = 0; k < nk; k++) for (int v = 0; v < 2; v++) for (int n = 0; n <= 3; n++) for (int par = 0; par <= 2; par++) {
                E e = leaf(k, v == 0);
                for (int j = 0; j < n; j++) e = not(e);
                c.cond("(".repeat(par) + print(e) + ")".repeat(par), e, DATA, null);
            }
        }
        if (c.space("objects of their own", "data in which every boolean, number and text is an object of its own (not Boolean.TRUE or FALSE, no cached Integer): every sort of condition alone and all pairs x truth x operator x NOT at every node")) {
            Map<String, Object> own = own(DATA);
            for (int k = 0; k < nk * 2; k++) { c.cond(leaf(k / 2, k % 2 == 0), own); c.cond(not(leaf(k / 2, k % 2 == 0)), own); }
            G.vectors(2, nk * 2, v -> {
                int[] w = v.clone();
                for (boolean and : new boolean[]{true, false}) for (int n = 0; n < 8; n++) {
                    E l = leaf(w[0] / 2, w[0] % 2 == 0), r = leaf(w[1] / 2, w[1] % 2 == 0);
                    E e = new Log(and, (n & 1) == 1 ? not(l) : l, (n & 2) == 2 ? not(r) : r);
                    c.cond(n > 3 ? not(e) : e, own);
                }
            });
        }
        if (c.space("trees, 2 conditions", "all pairs of sorts x truth x operator x NOT at every node, in both notations")) {
            G.vectors(2, nk * 2, v -> {
                int[] w = v.clone();
                for (int ops = 0; ops < 2; ops++) for (int nots = 0; nots < 8; nots++)
                    c.cond(G.tree(G.shapes(2).get(0), i -> leaf(w[i] / 2, w[i] % 2 == 0), ops, nots), DATA);
            });
        }
        int k3 = c.quick ? 7 : 14;
        if (c.space("trees, 3 conditions", k3 + " sorts of condition x truth x both shapes x operators x NOT at every node")) {
            List<Object[]> sh = G.shapes(3);
            G.vectors(3, k3 * 2, v -> {
                int[] w = v.clone();
                for (Object[] s : sh) for (int ops = 0; ops < 4; ops++) for (int nots = 0; nots < 32; nots++) {
                    E e = G.tree(s, i -> leaf(w[i] / 2, w[i] % 2 == 0), ops, nots);
                    c.cond(e, DATA);
                    if (nots < 4) c.cond(flat(e), e, DATA, null);
                }
            });
        }
        int k4 = c.quick ? 2 : 4, n4 = c.quick ? 2 : 4;
        if (c.space("trees, 4 conditions", k4 + " sorts per place x truth x 5 shapes x operators x up to " + n4 + " NOT anywhere; sorts rotate with the place")) {
            List<Object[]> sh = G.shapes(4);
            List<Integer> nm = G.masks(7, n4);
            G.vectors(4, k4 * 2, v -> {
                int[] w = v.clone();
                for (int q = 0; q < sh.size(); q++) for (int ops = 0; ops < 8; ops++) for (int nots : nm) {
                    int rot = ops + q;
                    E e = G.tree(sh.get(q), i -> leaf(w[i] / 2 + i * 5 + rot, w[i] % 2 == 0), ops, nots);
                    c.cond(e, DATA);
                    if (nots == 0) c.cond(flat(e), e, DATA, null);
                }
            });
        }
        int top = c.quick ? 7 : 8;
        for (int n = 5; n <= top; n++) {
            int fn = n, maxNot = n == 5 ? (c.quick ? 1 : 3) : n == 6 ? (c.quick ? 0 : 2) : c.quick ? 0 : n == 7 ? 1 : 0;
            if (c.space("trees, " + n + " conditions", "all shapes x operators x truth vectors x up to " + maxNot + " NOT; one sort of condition per place, rotating with the shape")) {
                List<Object[]> sh = G.shapes(n);
                List<Integer> nm = G.masks(2 * n - 1, maxNot);
                for (int q = 0; q < sh.size(); q++) for (int ops = 0; ops < 1 << (n - 1); ops++) for (int v = 0; v < 1 << n; v++) for (int nots : nm) {
                    int fq = q, fv = v;
                    c.cond(G.tree(sh.get(q), i -> leaf(i * 4 + fq, (fv >> i & 1) == 0), ops, nots), DATA);
                }
            }
        }
        int cl = c.quick ? 9 : 12;
        if (c.space("chains", "unparenthesised chains of 2.." + cl + " conditions: all truth vectors x all AND/OR sequences, spellings rotating")) {
            for (int n = 2; n <= cl; n++) for (int ops = 0; ops < 1 << (n - 1); ops++) for (int v = 0; v < 1 << n; v++) {
                StringBuilder t = new StringBuilder();
                E e = null;
                for (int i = 0; i < n; i++) {
                    E x = leaf(i * 3 + n + (ops & 3), (v >> i & 1) == 0);
                    if (i == 0) { e = x; t.append(print(x)); }
                    else {
                        boolean and = (ops >> (i - 1) & 1) == 0;
                        e = new Log(and, e, x);
                        t.append(' ').append((and ? ANDS : ORS)[(i + v) % 3]).append(' ').append(print(x));
                    }
                }
                c.cond(t.toString(), e, DATA, null);
            }
        }
        if (c.space("chains, spellings", "chains of 2..4 conditions (plain and negated) x every spelling of every operator")) {
            String[] all = {"AND", "and", "&&", "OR", "or", "||"};
            for (int n = 2; n <= 4; n++) {
                int fn = n;
                G.vectors(n - 1, 6, o -> {
                    int[] op = o.clone();
                    G.vectors(fn, 4, v -> {
                        StringBuilder t = new StringBuilder();
                        E e = null;
                        for (int i = 0; i < fn; i++) {
                            E x = leaf(i + op[0], v[i] % 2 == 0);
                            String xt = print(x);
                            if (v[i] >= 2) { xt = (i % 2 == 0 ? "NOT " : "not ") + (x instanceof Fld || x instanceof Lit ? xt : "(" + xt + ")"); x = not(x); }
                            if (i == 0) { e = x; t.append(xt); }
                            else { e = new Log(op[i - 1] < 3, e, x); t.append(' ').append(all[op[i - 1]]).append(' ').append(xt); }
                        }
                        c.cond(t.toString(), e, DATA, null);
                    });
                });
            }
        }
        if (c.space("groups in chains", "chains of 5 conditions with one parenthesised (possibly negated) group at every position: all truth vectors x operators")) {
            int n = 5;
            for (int from = 0; from < n; from++) for (int to = from + 1; to < n; to++) for (int neg = 0; neg < 2; neg++)
                for (int ops = 0; ops < 1 << (n - 1); ops++) for (int v = 0; v < 1 << n; v++) {
                    StringBuilder t = new StringBuilder();
                    E outer = null, group = null;
                    for (int i = 0; i < n; i++) {
                        E x = leaf(i * 2 + from, (v >> i & 1) == 0);
                        boolean and = i > 0 && (ops >> (i - 1) & 1) == 0;
                        if (i > 0) t.append(and ? " AND " : " OR ");
                        if (i == from) t.append(neg == 1 ? "NOT (" : "(");
                        t.append(print(x));
                        if (i >= from && i <= to) {
                            group = i == from ? x : new Log(and, group, x);
                            if (i == to) {
                                t.append(')');
                                E g = neg == 1 ? not(group) : group;
                                boolean gand = from > 0 && (ops >> (from - 1) & 1) == 0;
                                outer = from == 0 ? g : new Log(gand, outer, g);
                            }
                        } else outer = i == 0 ? x : new Log(and, outer, x);
                    }
                    c.cond(t.toString(), outer, DATA, null);
                }
        }
        int depth = c.quick ? 40 : 120;
        if (c.space("deep nesting", "nesting depth 1.." + depth + " (right-nested, left-nested, NOT chains, parentheses) x all-true/all-false/one condition flipped at each depth")) {
            for (int d = 1; d <= depth; d++) {
                for (int neg = 0; neg < 2; neg++) for (int k = 0; k < 5; k++) {
                    E e = leaf(k, neg == 0);
                    StringBuilder t = new StringBuilder(), t2 = new StringBuilder();
                    for (int j = 0; j < d; j++) { e = not(e); t.append("NOT ("); t2.append("NOT "); }
                    E core = leaf(k, neg == 0);
                    c.cond(t + print(core) + ")".repeat(d), e, DATA, null);
                    if (core instanceof Fld || core instanceof Lit) c.cond(t2 + print(core), e, DATA, null);
                    c.cond("(".repeat(d) + print(core) + ")".repeat(d), core, DATA, null);
                }
                for (int flip = -1; flip <= d; flip++) for (int pat = 0; pat < 4; pat++) for (int right = 0; right < 2; right++) {
                    int fl = flip, p = pat;
                    IntFunction<E> lf = i -> leaf(i, ((p & 1) == 0) ^ (i == fl));
                    E e = lf.apply(right == 1 ? d : 0);
                    for (int j = 1; j <= d; j++) {
                        boolean and = pat < 2 ^ (j % 2 == 0);
                        e = right == 1 ? new Log(and, lf.apply(d - j), e) : new Log(and, e, lf.apply(j));
                    }
                    c.cond(e, DATA);
                }
            }
        }
        if (c.space("long chains", "unparenthesised chains of 10, 25, 50, 100, 200 conditions x operator patterns x one condition flipped at each position; of sizes round 256, 500, 512, 1000, 1024 flipped at the ends, the middle and round every limit")) {
            for (int n : c.quick ? new int[]{10, 25, 50, 100, 200, 257, 501, 513, 1001, 1025} : new int[]{10, 25, 50, 100, 200, 257, 501, 513, 1001, 1025, 2049, 4097}) for (int flip = -1; flip < n; flip++) for (int pat = 0; pat < 6; pat++) {
                int ff = flip;
                if (n > 200 && (pat % 2 == 1 && c.quick || flip >= 0 && java.util.Arrays.stream(G.places(n)).noneMatch(q -> q == ff))) continue;
                StringBuilder t = new StringBuilder();
                E e = null;
                for (int i = 0; i < n; i++) {
                    E x = leaf(i * 5 + pat, (pat % 2 == 0) ^ (i == flip));
                    boolean and = pat < 2 ? true : pat < 4 ? false : i % 2 == 0;
                    t.append(i == 0 ? "" : and ? " AND " : " OR ").append(print(x));
                    e = i == 0 ? x : new Log(and, e, x);
                }
                c.cond(t.toString(), e, DATA, null);
            }
        }
    }

    // ---------------------------------------------------------------------------------------------

    /** every sort of failing condition */
    static final E[] ERR = {
        cmp("=", f("zz"), i(1)),
        cmp("=", f("a"), f("zz")),
        f("zz"),
        f("s"),
        cmp(">", f("s"), i(1)),
        in("zz", i(1)),
        cmp("=", bin('/', i(1), i(0)), i(1)),
        any("a", i(1)),
        in("a", i(1), f("zz")),
        rng("zz", i(1), i(2)),
        notIn("zz", i(1)),
        rng("s", i(1), i(2)),
        cmp("=", f("nil"), i(1)),
        any("l", i(1), s("x")),
        bin('+', f("a"), i(1)),
        cmp("=", fn("min", f("a"), f("zz")), i(1)),
        cmp(">", f("t"), i(0)),
        all("zz", i(1)),
        f("p.zz"),
        f("a"),
        f("nil"),
        cmp("!=", i(1), f("zz")),
        cmp("=", bin('-', f("s"), i(1)), i(1)),
        notIn("a", f("zz"), i(1)),
        cmp("=", cmp("=", f("zz"), i(1)), b(true)),
        f("p"),
        fn("min", i(1), i(2)),
        f("l"),
    };
    static E three(int v, int kind) { return v == 0 ? leaf(kind, true) : v == 1 ? leaf(kind, false) : ERR[(v - 2 + (v == 2 ? kind : 0)) % ERR.length]; }

    static void c02(Ck c) {
        int ne = ERR.length;
        if (c.space("one condition", "every failing condition x up to 3 NOT")) {
            for (E x : ERR) for (int n = 0; n <= 3; n++) { E e = x; for (int j = 0; j < n; j++) e = not(e); c.cond(e, DATA); c.cond("(" + print(e) + ")", e, DATA, null); }
        }
        if (c.space("trees, 2 conditions", "every sort of true, false and failing condition in both places x operator x NOT at every node")) {
            int m = KINDS.length * 2 + ne;
            IntFunction<E> pick = q -> q < KINDS.length * 2 ? leaf(q / 2, q % 2 == 0) : ERR[q - KINDS.length * 2];
            G.vectors(2, m, v -> {
                int[] w = v.clone();
                for (int ops = 0; ops < 2; ops++) for (int nots = 0; nots < 8; nots++)
                    c.cond(G.tree(G.shapes(2).get(0), i -> pick.apply(w[i]), ops, nots), DATA);
            });
        }
        int e3 = c.quick ? 14 : ne;
        if (c.space("trees, 3 conditions", "{true, false, " + e3 + " sorts of failure}^3 x both shapes x operators x up to 2 NOT anywhere")) {
            List<Integer> nm = G.masks(5, c.quick ? 2 : 5);
            G.vectors(3, 2 + e3, v -> {
                int[] w = v.clone();
                for (Object[] s : G.shapes(3)) for (int ops = 0; ops < 4; ops++) for (int nots : nm) {
                    E e = G.tree(s, i -> w[i] < 2 ? leaf(w[0] + i, w[i] == 0) : ERR[w[i] - 2], ops, nots);
                    c.cond(e, DATA);
                    if (nots == 0) c.cond(flat(e), e, DATA, null);
                }
            });
        }
        if (c.space("trees, 4 conditions", "{true, false, failing}^4 x 5 shapes x operators x up to 2 NOT x every sort of failure")) {
            List<Integer> nm = G.masks(7, c.quick ? 1 : 3);
            for (int k = 0; k < ne; k++) {
                int fk = k;
                G.vectors(4, 3, v -> {
                    int[] w = v.clone();
                    List<Object[]> sh = G.shapes(4);
                    for (Object[] s : sh) for (int ops = 0; ops < 8; ops++) for (int nots : nm)
                        c.cond(G.tree(s, i -> three(w[i], fk + i), ops, nots), DATA);
                });
            }
        }
        for (int n = 5; n <= (c.quick ? 6 : 7); n++) {
            int fn = n, mx = n == 5 ? (c.quick ? 1 : 3) : n == 6 ? c.quick ? 0 : 1 : 0;
            if (c.space("trees, " + n + " conditions", "{true, false, failing}^" + n + " x all shapes x operators x up to " + mx + " NOT, sorts rotating")) {
                List<Object[]> sh = G.shapes(n);
                List<Integer> nm = G.masks(2 * n - 1, mx);
                G.vectors(n, 3, v -> {
                    int[] w = v.clone();
                    for (int q = 0; q < sh.size(); q++) for (int ops = 0; ops < 1 << (fn - 1); ops++) for (int nots : nm) {
                        int fq = q + ops;
                        c.cond(G.tree(sh.get(q), i -> three(w[i], i + fq), ops, nots), DATA);
                    }
                });
            }
        }
        int cl = c.quick ? 7 : 9;
        if (c.space("chains", "unparenthesised chains of 2.." + cl + " over {true, false, failing} x operators")) {
            for (int n = 2; n <= cl; n++) {
                int fn = n;
                G.vectors(n, 3, v -> {
                    for (int ops = 0; ops < 1 << (fn - 1); ops++) {
                        StringBuilder t = new StringBuilder();
                        E e = null;
                        for (int i = 0; i < fn; i++) {
                            E x = three(v[i], i + ops);
                            boolean and = i > 0 && (ops >> (i - 1) & 1) == 0;
                            // arithmetic would bind its neighbours: parenthesised
                            t.append(i == 0 ? "" : and ? " AND " : " OR ").append(x instanceof Bin ? "(" + print(x) + ")" : print(x));
                            e = i == 0 ? x : new Log(and, e, x);
                        }
                        c.cond(t.toString(), e, DATA, null);
                    }
                });
            }
        }
        if (c.space("failure at each place", "chains and nestings of 20 and 60 conditions with one failing condition at each place, before/after the decisive one")) {
            for (int n : new int[]{20, 60}) for (int at = 0; at < n; at++) for (int dec = -1; dec < n; dec++) for (int pat = 0; pat < 4; pat++) {
                boolean and = pat % 2 == 0;
                E e = null;
                StringBuilder t = new StringBuilder();
                for (int i = 0; i < n; i++) {
                    int j = pat < 2 ? i : n - 1 - i;
                    E x = j == at ? ERR[(at + 3) % ERR.length == 14 ? 0 : (at + 3) % ERR.length] : leaf(j + at, j == dec ? !and : and);
                    if (pat < 2) { t.append(i == 0 ? "" : and ? " AND " : " OR ").append(x instanceof Bin ? "(" + print(x) + ")" : print(x)); e = i == 0 ? x : new Log(and, e, x); }
                    else e = i == 0 ? x : new Log(and, x, e);
                }
                c.cond(pat < 2 ? t.toString() : print(e), e, DATA, null);
            }
        }
    }
}
