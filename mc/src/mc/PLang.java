package mc;

import static mc.E.*;
import java.math.BigDecimal;
import java.time.LocalDate;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Set;
import java.util.function.Function;

/** C17, C18, C19: what a text means: trees, rejection, tokens. */
final class PLang {
    static final Map<String, Object> DATA = PLogic.DATA;

    /** well-formed conditions of every sort and mixture */
    static List<E> corpus() {
        List<E> r = new ArrayList<>();
        for (E[] k : PLogic.KINDS) r.add(k[0]);
        r.addAll(Arrays.asList(
                and(cmp("=", f("a"), i(1)), or(cmp(">", f("b"), i(1)), f("t"))),
                or(not(f("t")), not(cmp("=", f("a"), i(2)))),
                not(and(in("a", i(1), neg(i(2))), cmp("!=", f("s"), s("x AND y")))),
                cmp("=", bin('+', bin('*', f("a"), i(2)), neg(f("b"))), i(0)),
                cmp(">=", bin('^', f("b"), i(2)), bin('%', i(7), i(4))),
                cmp("<", bin('-', f("a"), bin('/', f("b"), d("0.5"))), neg(d("1.5"))),
                in("a", fn("min", f("a"), f("b")), bin('+', f("a"), i(5)), i(77)),
                all("l", bin('-', f("b"), i(1)), fn("max", f("l"))),
                notIn("s", s("q"), s("it's"), f("s")),
                rng("dec", i(2), d("2.75")),
                cmp("<=", fn("sum", f("l"), i(3), fn("avg", f("a"), f("b"))), i(100)),
                cmp("=", fn("len", f("s")), fn("int", d("3.9"))),
                cmp(">", fn("days_elapsed", f("d")), i(0)),
                cmp("=", fn("mode", f("l"), i(1)), fn("median", i(1), f("a"), i(9))),
                cmp("<", date("2024-01-31"), date("2024-02-29")),
                cmp("<", dt("2024-01-31 10:20:30"), dt("2024-01-31 10:20:31")),
                cmp(">", ver("1.10.2"), ver("1.9.30")),
                cmp("=", f("p.r.s"), b(false)),
                cmp("!=", f("nil"), new Null("null")),
                or(and(f("t"), f("f")), and(f("p.q"), rng("b", i(0), i(9)))),
                any("l", fn("mean", i(1), i(3)), i(8)),
                cmp("=", bin('+', f("s"), s("!")), s("abc!")),
                cmp("=", f("big"), i(3000000000L)),
                not(not(f("t"))),
                cmp("=", neg(bin('*', f("a"), f("b"))), neg(i(2)))));
        return r;
    }
    static List<E> arithmetic() {
        return Arrays.asList(bin('+', f("a"), i(1)), bin('*', bin('-', f("a"), f("b")), d("2.5")), neg(f("b")), fn("min", f("a"), f("b"), i(3)), fn("sum", f("l"), bin('/', i(9), i(2))), bin('^', neg(i(2)), i(3)),
                bin('+', f("s"), s("x")), fn("len", s("a b")), fn("int", bin('%', i(17), i(5))), fn("avg", fn("max", f("l")), neg(d("0.5"))), bin('-', bin('-', i(9), i(2)), bin('*', i(3), f("b"))), i(7), f("p.n"), s("text"), d("1.50"));
    }

    // ---- C17 ------------------------------------------------------------------------------------

    static void tree(Ck c, E e) { tree(c, null, e, null); }
    static void tree(Ck c, String text0, E e, String def) {
        c.add(w -> {
            String text = text0 == null ? print(e) : text0;
            String want = Tree.of(e, def);
            Impl.Got g = w.impl.parse(text, def);
            String got = g.ok() ? Dump.of(g.value()) : g.toString();
            w.count(true);
            Ref.STEPS.get()[0] += want.length() / 8 + 1;
            c.state("t", text, null, def);
            c.sample(text, null, def, got);
            if (want.equals(got)) return null;
            return new Ck.Bad(text, null, def, "the tree " + want, got).snippet(parseSnippet(text, def));
        });
    }
    static String parseSnippet(String text, String def) {
        return "show(new BoolParser().parseExpression(" + Replay.lit(text) + (def == null ? "" : ", " + Replay.lit(def)) + "));\n";
    }
    /** the data type a comparison of a field with a literal reports */
    static void typed(Ck c, E.Cmp e) {
        Lit l = (Lit) (e.l() instanceof Lit ? e.l() : e.r());
        c.add(w -> {
            String text = print(e), want = Tree.opName(e.op()) + ":" + Tree.type(l) + "(";
            Impl.Got g = w.impl.parse(text, null);
            String got = g.ok() ? Dump.full(g.value()) : g.toString();
            w.count(true);
            c.state("y", text, null, null);
            return got.startsWith(want) ? null : new Ck.Bad(text, null, null, "a comparison of type " + Tree.type(l), got).snippet(parseSnippet(text, null));
        });
    }

    static final Lit[] LITS = {i(0), i(7), i(2147483647L), i(2147483648L), i(9223372036854775807L), d("0.0"), d("1.50"), d("3.000"), d("123456789012345678901234567890.5"), s(""), s("abc"), s("a b"), s("AND"), s("it's"), s2("say 'x'"), new Lit("'say \"x\"'", V.str("say \"x\"")),
            s("5"), s("2024-01-01"), s("(x, y)"), b(true), b(false), new Lit("TRUE", V.bool(true)), new Lit("FALSE", V.bool(false)), ver("1.2.3"), ver("1.10.0.4"), ver("10.2.3"), ver("2024.1.1.1"), date("2024-02-29"), date("0001-01-01"), date("9999-12-31"), dt("2024-02-29 23:59:59"), dt("2024-01-01 00:00:01"), dt("2024-01-01 00:00:00"), dt("1999-12-31 12:00:00"), i(10), new Lit("007", V.integer(7)), new Lit("00", V.integer(0)), new Lit("01.50", V.dec(new BigDecimal("1.50")))};

    static void c17(Ck c) {
        E[] atoms = {f("a"), f("p.q.r"), f("_x1"), i(1), d("2.5"), s("t"), b(true), ver("1.2.3"), date("2024-01-01"), neg(i(3)), neg(f("a")), bin('+', f("a"), i(2)), bin('^', i(2), f("b")), fn("min", f("a"), i(9)), fn("len", f("s"))};
        if (c.space("literals", LITS.length + " literals of every type at every place of the language, with the type of comparisons")) {
            for (Lit l : LITS) {
                Function<E, E>[] ctx = contexts();
                for (Function<E, E> x : ctx) tree(c, x.apply(l));
                for (String op : CMPS) { typed(c, cmp(op, f("x"), l)); typed(c, cmp(op, f("p.q"), l)); }
                if (l.val().isNum()) for (Lit m : LITS) if (m.val().isNum()) { tree(c, rng("x", l, m)); tree(c, rng("p.q", m, l)); tree(c, and(rng("x", l, m), cmp("=", f("y"), l))); }
            }
        }
        if (c.space("comparisons", atoms.length + "^2 operands x 6 operators, plain, negated, in AND/OR on either side, as list items and function arguments")) {
            for (E x : atoms) for (E y : atoms) for (String op : CMPS) {
                E e = cmp(op, x, y);
                tree(c, e); tree(c, not(e)); tree(c, and(e, f("z"))); tree(c, or(f("z"), e)); tree(c, not(or(not(e), e)));
            }
        }
        if (c.space("conditions", "all pairs and triples of sorts of conditions in AND/OR trees with NOT at every node")) {
            int nk = PLogic.KINDS.length;
            G.vectors(2, nk * 2, v -> { int[] w = v.clone(); for (int ops = 0; ops < 2; ops++) for (int nots = 0; nots < 8; nots++) tree(c, G.tree(G.shapes(2).get(0), i -> PLogic.leaf(w[i] / 2, w[i] % 2 == 0), ops, nots)); });
            int k3 = c.quick ? 9 : nk;
            G.vectors(3, k3, v -> { int[] w = v.clone(); for (Object[] sh : G.shapes(3)) for (int ops = 0; ops < 4; ops++) for (int nots = 0; nots < (fewer(c) ? 8 : 32); nots++) {
                E e = G.tree(sh, i -> PLogic.leaf(w[i] * 2 + i, true), ops, nots);
                tree(c, e);
                if (nots == 0) tree(c, PLogic.flat(e), e, null);
            } });
            for (int n = 4; n <= (c.quick ? 6 : 8); n++) {
                int fn = n;
                for (Object[] sh : G.shapes(n)) for (int ops = 0; ops < 1 << (n - 1); ops++) for (int k = 0; k < (n < 7 ? 3 : 1); k++) for (int nots : n == 4 ? G.masks(7, 1) : Arrays.asList(0, (1 << (k + 1)))) {
                    int fk = k;
                    E e = G.tree(sh, i -> PLogic.leaf(i * 5 + fk + fn, (i + fk) % 2 == 0), ops, nots);
                    tree(c, e);
                    if (nots == 0) tree(c, PLogic.flat(e), e, null);
                }
            }
        }
        if (c.space("repeated NOT", "1..5 NOT before every sort of condition, written with and without parentheses between, alone, in AND/OR on either side, and before AND and OR of all pairs of sorts; keyword in both cases")) {
            int nk = PLogic.KINDS.length;
            List<E> cs = new ArrayList<>();
            for (E[] k : PLogic.KINDS) cs.addAll(Arrays.asList(k));
            cs.addAll(Arrays.asList(rng("x", i(1), i(1)), rng("p.q", d("0.5"), i(3)), cmp("=", new Lit("'a'", V.str("a")), f("x")), in("x", i(1)), all("x", s("q")), cmp("=", f("x"), new Null("NULL"))));
            for (E x : cs) for (int n = 1; n <= 5; n++) {
                E e = x;
                for (int j = 0; j < n; j++) e = not(e);
                tree(c, e);
                tree(c, print(e).replace("NOT ", "not "), e, null);
                tree(c, and(e, f("z"))); tree(c, or(f("z"), e)); tree(c, and(e, e)); tree(c, not(or(e, x))); tree(c, or(x, not(and(x, e))));
                StringBuilder t = new StringBuilder(), u = new StringBuilder();
                for (int j = 0; j < n; j++) { t.append("NOT ("); u.append("(NOT "); }
                tree(c, t + print(x) + ")".repeat(n), e, null);
                if (x instanceof Fld || x instanceof Rng) { tree(c, u + "(" + print(x) + ")" + ")".repeat(n), e, null); tree(c, "NOT ".repeat(n) + print(x), e, null); }
            }
            for (int a = 0; a < nk; a++) for (int b2 = 0; b2 < nk; b2++) for (int n = 2; n <= 3; n++) for (int and = 0; and < 2; and++) {
                E e = new Log(and == 1, PLogic.leaf(a, true), PLogic.leaf(b2, false));
                for (int j = 0; j < n; j++) e = not(e);
                tree(c, e); tree(c, not(new Log(and == 0, e, not(not(PLogic.leaf(b2, true))))));
            }
        }
        if (c.space("equal and repeated operands", "numbers of 6 values in 2..5 spellings, texts, dates, versions, booleans: all ordered pairs as bounds of a range, operands of every operator and comparison, items and arguments (also three times), in AND/OR of equal conditions")) {
            Lit[] ns = {i(1), d("1.0"), d("1.00"), new Lit("01", V.integer(1)), new Lit("01.0", V.dec(new BigDecimal("1.0"))), i(2), d("2.50"), d("2.5"), d("02.500"), i(0), d("0.0"), d("0.000"), new Lit("00", V.integer(0)), i(3000000000L), d("3000000000.0"), i(10), d("10.0"), d("1.000000000000000000001"), d("1.0000000000000000000010")};
            Lit[] os = {s("a"), s2("a"), s("A"), s("1"), s(""), b(true), new Lit("TRUE", V.bool(true)), b(false), date("2024-01-01"), dt("2024-01-01 00:00:00"), ver("1.2.3"), ver("1.2.3.0"), ver("01.2.3"), s("2024-01-01")};
            for (Lit x : ns) for (Lit y : ns) {
                tree(c, rng("x", x, y)); tree(c, not(rng("p.q", x, y))); tree(c, and(rng("x", x, y), rng("x", y, x))); tree(c, or(rng("x", x, y), rng("x", x, y)));
                for (char o : OPS) { tree(c, bin(o, x, y)); tree(c, bin(o, bin(o, x, y), x)); tree(c, bin(o, x, bin(o, y, y))); tree(c, bin(o, neg(x), neg(y))); }
            }
            List<E> all = new ArrayList<>(Arrays.asList(ns));
            all.addAll(Arrays.asList(os)); all.add(f("x")); all.add(f("y")); all.add(neg(i(1))); all.add(fn("min", i(1), i(1)));
            for (E x : all) for (E y : all) {
                for (String op : CMPS) tree(c, cmp(op, x, y));
                tree(c, in("x", x, y)); tree(c, in("x", x, y, x)); tree(c, notIn("x", x, x, y)); tree(c, any("x", x, y)); tree(c, all("x", y, y, x)); tree(c, fn("sum", x, y)); tree(c, fn("max", x, x, y)); tree(c, fn("min", fn("min", x, y), fn("min", x, y)));
                E e = cmp("=", f("q"), x), g = cmp("=", f("q"), y);
                tree(c, and(e, g)); tree(c, or(e, g)); tree(c, or(or(e, g), e)); tree(c, and(e, not(g))); tree(c, and(in("q", x), in("q", y))); tree(c, or(in("q", x), in("q", y))); tree(c, or(not(in("q", x)), notIn("q", y)));
                tree(c, and(cmp(">=", f("q"), x), cmp("<=", f("q"), y))); tree(c, or(cmp("<", f("q"), x), cmp(">", f("q"), y))); tree(c, or(any("q", x), any("q", y))); tree(c, and(all("q", x), all("q", y)));
            }
        }
        if (c.space("arithmetic", "all fully parenthesised trees of up to 4 (thorough 5) operands x all operators, unary minus at every subset of nodes for up to 3 operands")) {
            E[] leaves = {f("a"), i(2), d("1.5"), fn("max", f("l"), i(4)), s("t"), f("p.n")};
            G.vectors(2, 6, v -> { int[] w = v.clone(); for (char o : OPS) for (int m = 0; m < 8; m++) tree(c, negs(bin(o, leaves[w[0]], leaves[w[1]]), m)); });
            G.vectors(3, 4, v -> { int[] w = v.clone(); for (Object[] sh : G.shapes(3)) for (char o1 : OPS) for (char o2 : OPS) for (int m = 0; m < 32; m += c.quick ? 5 : 1) tree(c, negs(G.arith(sh, i -> leaves[w[i]], i -> i == 0 ? o1 : o2), m)); });
            for (int n = 4; n <= (c.quick ? 4 : 5); n++) G.vectors(n - 1, 6, v -> { int[] w = v.clone(); for (Object[] sh : G.shapes(w.length + 1)) tree(c, G.arith(sh, i -> leaves[(i + w[0]) % 6], i -> OPS[w[i]])); });
            for (char o : OPS) for (int n = 2; n <= 60; n++) {
                E l = f("x0"), r = f("x0");
                for (int k = 1; k < n; k++) { l = bin(o, l, f("x" + k)); r = bin(o, f("x" + k), r); }
                tree(c, l); tree(c, r);
                StringBuilder t = new StringBuilder("x0");
                for (int k = 1; k < n; k++) t.append(' ').append(o).append(" x").append(k);
                tree(c, t.toString(), l, null);   // operators of one kind group from the left
            }
        }
        if (c.space("lists", "IN, NOT IN, CONTAINS_ANY, CONTAINS_ALL and the 10 functions with 1..8 items drawn from 10 sorts, nested 3 deep, next to each other")) {
            E[] items = {i(1), f("a"), neg(i(2)), s("x, y"), d("0.5"), fn("min", i(1), f("b")), bin('*', f("a"), i(2)), bin('-', bin('+', f("a"), i(1)), fn("sum", i(1), i(2), i(3))), b(true), date("2024-01-01")};
            for (int n = 1; n <= (c.quick ? 3 : 4); n++) G.vectors(n, items.length, v -> lists(c, v, items));
            for (int n = 4; n <= 8; n++) for (int k = 0; k < 40; k++) { int[] v = new int[n]; for (int i = 0; i < n; i++) v[i] = (i * (k % 7 + 1) + k) % items.length; lists(c, v, items); }
            for (String f1 : Lang.FNS) for (String f2 : Lang.FNS) for (String f3 : new String[]{"min", "LEN", "avg"}) for (int k = 0; k < 4; k++) {
                E in = fn(f3, f("a"), i(3)), mid = k == 0 ? fn(f2, in) : k == 1 ? fn(f2, i(1), in, f("b")) : k == 2 ? fn(f2, in, in) : fn(f2, bin('+', in, i(1)), neg(in));
                tree(c, fn(f1, mid, i(5))); tree(c, fn(f1, i(5), mid)); tree(c, fn(f1.toUpperCase(Locale.ROOT), mid));
                tree(c, cmp("=", fn(f1, mid), fn(f2, in))); tree(c, in("x", fn(f1, mid), in, i(1)));
            }
            for (int n = 9; n <= 200; n += 13) { E[] a = new E[n]; for (int i = 0; i < n; i++) a[i] = i % 3 == 0 ? i(i) : i % 3 == 1 ? f("f" + i) : s("t" + i); tree(c, in("x", a)); tree(c, all("x", a)); tree(c, fn("sum", a)); }
        }
        if (c.space("sizes", "names, dotted paths, quoted texts, digit strings, lists of items, function arguments, chains and nestings of sizes round 4, 8, 16, ... 1024 (thorough 10000), with one item of another kind at the ends, the middle and round each limit")) {
            for (int n : G.sizes(c.quick ? 1100 : 10001)) {
                String name = "n".repeat(n - 1) + "Z", word = "w ".repeat(n).substring(0, n - 1) + "z";
                for (E e : new E[]{cmp("=", f(name), s(word)), in(name, s(word), f(name)), fn("len", f(name)), and(f(name), not(f(name + "1"))), bin('+', f(name), s(word)), rng(name, i(1), i(2)), any(name, s(word), s("x" + word))}) tree(c, e);
                if (n <= 40) { String dg = "123456789".repeat(n).substring(0, n); tree(c, cmp("=", d(dg + ".5"), d("0." + dg))); if (n <= 18) tree(c, cmp(">", i(Long.parseLong(dg)), neg(i(Long.parseLong(dg))))); tree(c, cmp("<", f("v"), ver("1." + dg + ".0" + ".7".repeat(n)))); }
                if (n <= 600 || !c.quick && n < 2100) {
                    tree(c, cmp("=", f("p" + ".q".repeat(n)), i(1)));
                    int[] at = G.places(n);
                    for (int p : at) {
                        if (c.quick && n > 70 && p % 3 != 0) continue;
                        E[] a = new E[n];
                        for (int j = 0; j < n; j++) a[j] = j == p ? fn("min", i(j), f("m")) : j % 2 == 0 ? i(j) : f("f" + j);
                        tree(c, in("x", a)); tree(c, all("x", a)); tree(c, fn("sum", a)); tree(c, cmp("=", fn("MAX", a), i(1)));
                        E l = null, ar = null;
                        StringBuilder t = new StringBuilder(), u = new StringBuilder();
                        for (int j = 0; j < n; j++) {
                            E x = j == p ? not(f("z")) : cmp(j % 3 == 0 ? "=" : ">", f("f" + j), i(j));
                            l = j == 0 ? x : new Log(j % 2 == 0, l, x);
                            t.append(j == 0 ? "" : j % 2 == 0 ? " AND " : " OR ").append(print(x));
                            E y = j == p ? neg(f("z")) : f("f" + j);
                            ar = j == 0 ? y : bin('-', ar, y);
                            u.append(j == 0 ? "" : " - ").append(j == p ? "(-z)" : print(y));
                        }
                        tree(c, t.toString(), l, null);
                        tree(c, u.toString(), ar, null);
                        tree(c, t.toString().replace("f" + (p + 1) + " ", ""), omit(l, "f" + (p + 1)), "f" + (p + 1));
                    }
                }
            }
        }
        if (c.space("sub-expressions everywhere", "computed operands with logical structure around: 3 computed operands in every slot of 8 templates")) {
            E[] comp = {bin('+', f("a"), i(1)), fn("min", f("a"), i(2)), neg(f("b")), bin('*', bin('-', f("a"), i(3)), f("b")), fn("sum", bin('+', f("a"), i(1)), f("b")), f("x"), i(4)};
            G.vectors(3, comp.length, v -> {
                E a = comp[v[0]], b = comp[v[1]], d = comp[v[2]];
                for (E e : new E[]{cmp(">", bin('+', a, b), d), cmp("=", a, bin('-', b, d)), in("q", a, b, d), and(cmp("=", a, b), cmp("<", d, a)), or(not(cmp("!=", a, b)), any("q", d, a)), cmp("<=", fn("max", a, b), fn("min", b, d)), fn("avg", a, fn("int", b), bin('/', d, a)), not(and(or(cmp("=", a, i(1)), cmp("=", b, i(2))), cmp("=", d, i(3))))}) tree(c, e);
            });
        }
        if (c.space("redundant parentheses", "every expression of the corpus in 0..3 pairs, and every operand of it in an extra pair")) {
            List<E> all = new ArrayList<>(corpus());
            all.addAll(arithmetic());
            for (E e : all) for (int n = 0; n <= 12; n++) tree(c, "(".repeat(n) + print(e) + ")".repeat(n), e, null);
            for (E x : atoms) for (E y : atoms) for (int n = 1; n < 4; n++) {
                String l = (n & 1) != 0 ? "((" + print(x) + "))" : atom(x) ? print(x) : "(" + print(x) + ")", r = (n & 2) != 0 ? "((" + print(y) + "))" : atom(y) ? print(y) : "(" + print(y) + ")";
                tree(c, l + " = " + r, cmp("=", x, y), null);
                tree(c, l + " * " + r, bin('*', x, y), null);
                tree(c, "min(" + l + ", " + r + ")", fn("min", x, y), null);
                tree(c, "x IN (" + l + ", " + r + ")", in("x", x, y), null);
            }
        }
        if (c.space("default field", "trees of up to 3 comparisons with every subset of operands omitted x 3 default fields")) {
            for (String df : new String[]{"d", "p.q", "AND1"}) for (int n = 1; n <= 3; n++) for (Object[] sh : G.shapes(n)) for (int ops = 0; ops < 1 << (n - 1); ops++) for (int nots = 0; nots < 1 << (2 * n - 1); nots++) for (int om = 0; om < 1 << n; om++) {
                int fo = om;
                E e = G.tree(sh, i -> cmp(CMPS[i * 2 + 1], (fo >> i & 1) == 1 ? new Omit() : f("a"), i == 1 ? s("v") : i(i)), ops, nots);
                tree(c, null, e, df);
            }
        }
        List<Lang.Tok> alpha = Lang.toks("a", "5", "'x'", "=", "AND", "NOT", "(", ")", "IN", ",", "-", "min", "TO", "+", "true", "CONTAINS_ANY", "b.c", "2.5", ">");
        for (int n = 1; n <= (c.quick ? 5 : 6); n++) if (c.space("token strings, " + n, "all strings of " + n + " of " + alpha.size() + " tokens: a well-formed one parses, to a tree that is one of its readings"))
            G.vectors(n, alpha.size(), v -> reading(c, v, alpha));
        List<Lang.Tok> small = Lang.toks("a", "5", "=", "AND", "NOT", "(", ")", "-");
        for (int n = 6; n <= (c.quick ? 7 : 8); n++) if (c.space("token strings, " + n + ", core", "all strings of " + n + " of " + small.size() + " core tokens"))
            G.vectors(n, small.size(), v -> reading(c, v, small));
        // one text, one tree: the trees above are compared with a faithful rendering; here the renderings themselves differ pairwise
        if (c.space("distinct", "pairwise different renderings of all expressions of a small grammar")) {
            Set<String> seen = new java.util.HashSet<>();
            List<E> es = new ArrayList<>();
            for (E a : new E[]{f("a"), i(1), s("a")}) for (E b : new E[]{f("b"), i(2), neg(i(2)), bin('+', f("b"), i(2))}) for (String op : CMPS) { es.add(cmp(op, a, b)); es.add(cmp(op, b, a)); es.add(not(cmp(op, a, b))); }
            for (E e : es) if (!seen.add(Tree.of(e))) throw new IllegalStateException("two expressions with one rendering: " + print(e));
            for (E e : es) { tree(c, e); tree(c, and(e, es.get(0))); tree(c, or(es.get(1), e)); }
        }
    }
    private static boolean fewer(Ck c) { return c.quick; }
    private static void lists(Ck c, int[] v, E[] items) {
        E[] a = new E[v.length];
        for (int i = 0; i < a.length; i++) a[i] = items[v[i]];
        tree(c, in("x", a)); tree(c, notIn("p.q", a)); tree(c, any("x", a)); tree(c, all("p.q", a)); tree(c, fn(Lang.FNS[v[0] % 10], a));
        tree(c, and(in("x", a), all("y", a))); tree(c, cmp(">", fn("min", a), fn("max", a)));
    }
    /** unary minus at the nodes (in preorder) of a mask */
    private static E negs(E e, int mask) { int[] m = {mask}; return negs(e, m); }
    private static E negs(E e, int[] m) {
        boolean n = (m[0] & 1) != 0;
        m[0] >>= 1;
        E r = e instanceof Bin b ? bin(b.op(), negs(b.l(), m), negs(b.r(), m)) : e;
        return n ? neg(r) : r;
    }
    @SuppressWarnings("unchecked")
    private static Function<E, E>[] contexts() {
        return new Function[]{(Function<E, E>) x -> x, (Function<E, E>) x -> cmp("=", f("x"), x), (Function<E, E>) x -> cmp("!=", x, f("x")), (Function<E, E>) x -> cmp(">=", x, x), (Function<E, E>) x -> in("x", x), (Function<E, E>) x -> in("x", i(1), x, s("q")),
                (Function<E, E>) x -> notIn("x", x, x), (Function<E, E>) x -> any("x", x, s("z")), (Function<E, E>) x -> all("x", i(0), x), (Function<E, E>) x -> bin('+', x, f("a")), (Function<E, E>) x -> bin('*', f("a"), x), (Function<E, E>) x -> bin('^', x, x), (Function<E, E>) x -> neg(x),
                (Function<E, E>) x -> fn("min", x), (Function<E, E>) x -> fn("sum", i(1), x, f("b")), (Function<E, E>) x -> fn("len", x), (Function<E, E>) x -> fn("days_elapsed", x), (Function<E, E>) x -> and(cmp("<", f("y"), x), cmp(">", f("y"), x)), (Function<E, E>) x -> not(cmp("=", f("x"), x)),
                (Function<E, E>) x -> cmp("=", bin('-', f("a"), x), fn("max", x, i(1)))};
    }

    /** the same logical chain with one field left out */
    private static E omit(E e, String name) {
        return switch (e) {
            case Log l -> new Log(l.and(), omit(l.l(), name), omit(l.r(), name));
            case Cmp x -> x.l() instanceof Fld q && q.path().equals(name) ? new Cmp(x.op(), new Omit(), x.r()) : x;
            default -> e;
        };
    }

    private static void reading(Ck c, int[] v, List<Lang.Tok> alpha) {
        List<Lang.Tok> ts = new ArrayList<>();
        for (int q : v) ts.add(alpha.get(q));
        if (!Lang.wellFormed(ts)) return;
        c.add(w -> {
            String text = Lang.join(ts);
            Set<String> want = Lang.readings(ts);
            if (want.isEmpty()) throw new IllegalStateException("no reading of " + text);
            Impl.Got g = w.impl.parse(text, null);
            String got = g.ok() ? Dump.of(g.value()) : g.toString();
            w.count(true);
            Ref.STEPS.get()[0] += want.size();
            c.state("t", text, null, null);
            c.sample(text, null, null, got);
            if (want.contains(got)) return null;
            return new Ck.Bad(text, null, null, "one of the trees " + want, got).snippet(parseSnippet(text, null));
        });
    }

    // ---- C18 ------------------------------------------------------------------------------------

    static final Map<String, Object> RICH = G.with(PLogic.DATA, "x", 1, "5", 5, "true", true, "", 1, "c", G.data("d", 4), "q", 2);

    /** a text outside the language must fail everywhere; one inside must not be reinterpreted */
    static void text(Ck c, String text) {
        List<Lang.Tok> ts = Lang.lex(text);
        boolean ok = Lang.wellFormed(ts), tol = !ok && Lang.tolerated(ts);
        c.add(w -> {
            Impl.Got p = w.impl.parse(text, null);
            w.count(true);
            Ref.STEPS.get()[0] += ts == null ? 1 : ts.size();
            c.state("r", text, null, null);
            if (p.broken()) return new Ck.Bad(text, null, null, "a failure or a tree", p.toString()).snippet(parseSnippet(text, null));
            if (ok || tol) {
                // accepted texts keep their tokens, in their order
                if (!p.ok()) return null;
                List<String> want = Lang.norm(Lang.fringe(ts)), got = Lang.norm(Lang.fringe(p.value()));
                if (want.equals(got)) {
                    if (ts.size() > 9 || !tol) return null;
                    int open = 0;
                    for (Lang.Tok t : ts) open += t.t() == Lang.T.LP ? 1 : t.t() == Lang.T.RP ? -1 : 0;
                    Set<String> r = Lang.readings(Lang.closed(ts, open));
                    String d = Dump.of(p.value());
                    return r.contains(d) ? null : new Ck.Bad(text, null, null, "a failure or one of " + r, d).snippet(parseSnippet(text, null));
                }
                return new Ck.Bad(text, null, null, "a failure, or a tree of exactly " + want, Dump.of(p.value())).snippet(parseSnippet(text, null));
            }
            if (p.ok()) return new Ck.Bad(text, null, null, "a failure: not a well-formed expression", "the tree " + Dump.of(p.value())).snippet(parseSnippet(text, null));
            Impl.Got e = w.impl.cond(text, RICH, null), a = w.impl.val(text, RICH), b = w.impl.cond(text, RICH, " ");
            w.count(true); w.count(true); w.count(true);
            c.sample(text, null, null, e);
            if (e.fail() && a.fail() && b.fail()) return null;
            return new Ck.Bad(text, RICH, null, "a failure: not a well-formed expression", "boolean " + e + ", arithmetic " + a + ", with a blank default field " + b).snippet(Replay.evalSnippet(true, text, RICH, null));
        });
    }
    static void tokens(Ck c, List<Lang.Tok> ts) { text(c, Lang.join(ts)); }

    static void c18(Ck c) {
        List<Lang.Tok> alpha = Lang.toks("a", "5", "'x'", "=", "AND", "NOT", "(", ")", "IN", ",", "-", "min", "TO", "true");
        alpha = new ArrayList<>(alpha);
        if (!c.quick) alpha.addAll(Lang.toks("CONTAINS_ANY", ">", "b.c", "1.2.3", "or", "*"));
        List<Lang.Tok> al = alpha;
        for (int n = 0; n <= 5; n++) if (c.space("token strings, " + n, "all strings of " + n + " of " + al.size() + " tokens")) G.vectors(n, al.size(), v -> { List<Lang.Tok> ts = new ArrayList<>(); for (int q : v) ts.add(al.get(q)); tokens(c, ts); });
        List<Lang.Tok> core = Lang.toks("a", "=", "5", "AND", "NOT", "(", ")", "-");
        for (int n = 6; n <= (c.quick ? 6 : 7); n++) if (c.space("token strings, " + n + ", core", "all strings of " + n + " of " + core.size() + " core tokens")) G.vectors(n, core.size(), v -> { List<Lang.Tok> ts = new ArrayList<>(); for (int q : v) ts.add(core.get(q)); tokens(c, ts); });

        List<E> well = new ArrayList<>(corpus());
        well.addAll(arithmetic());
        List<Lang.Tok> ins = Lang.toks("a", "5", "2.5", "'x'", "true", "1.2.3", "2024-01-01", "=", "!=", ">", "AND", "||", "or", "NOT", "(", ")", "IN", "TO", ",", "+", "-", "*", "^", "%", "/", "min", "DAYS_ELAPSED", "CONTAINS_ANY", "contains_all", "null");
        if (c.space("token edits", well.size() + " well-formed expressions: every token removed, doubled, replaced, swapped with its neighbour or any other, and every token of " + ins.size() + " inserted, at every position; every prefix, suffix and reversal")) {
            for (E e : well) {
                List<Lang.Tok> ts = Lang.lex(print(e));
                int n = ts.size();
                for (int i = 0; i <= n; i++) {
                    for (Lang.Tok t : ins) { tokens(c, Lang.inserted(ts, i, t)); if (i < n) tokens(c, Lang.replaced(ts, i, t)); }
                    if (i == n) break;
                    tokens(c, Lang.without(ts, i));
                    tokens(c, Lang.inserted(ts, i, ts.get(i)));
                    for (int j = i + 1; j < n; j++) tokens(c, Lang.swapped(ts, i, j));
                    tokens(c, ts.subList(0, i));
                    tokens(c, ts.subList(i, n));
                }
                List<Lang.Tok> rev = new ArrayList<>(ts);
                java.util.Collections.reverse(rev);
                tokens(c, rev);
            }
        }
        if (c.space("two token edits", "every pair of removals, and every removal with every insertion of 8 tokens, in " + (c.quick ? 14 : 40) + " expressions")) {
            List<Lang.Tok> few = Lang.toks("a", "5", "=", "AND", "(", ")", ",", "-");
            int k = 0;
            for (E e : well) {
                List<Lang.Tok> ts = Lang.lex(print(e));
                if (ts.size() < 5 || ts.size() > 16 || k++ >= (c.quick ? 14 : 40)) continue;
                for (int i = 0; i < ts.size(); i++) {
                    List<Lang.Tok> one = Lang.without(ts, i);
                    for (int j = i; j < one.size(); j++) tokens(c, Lang.without(one, j));
                    for (int j = 0; j <= one.size(); j++) for (Lang.Tok t : few) tokens(c, Lang.inserted(one, j, t));
                }
            }
        }
        if (c.space("joined", "every ordered pair of " + (c.quick ? 30 : 61) + " well-formed expressions written next to each other, with and without a stray comma, parenthesis, keyword or operator between")) {
            int m = c.quick ? 30 : well.size();
            for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) for (String sep : new String[]{" ", " , ", " ) ", " ( ", " ) ( ", " AND AND ", " AND OR ", " = = ", " NOT ", " TO ", " IN ", " ; ", " & ", " | ", "\n", " + * ", " , , "})
                text(c, print(well.get(i)) + sep + print(well.get((j * 3 + 1) % well.size())));
        }
        String hostile = "@#$?;{}[]\\~`:&|!'\"(),._-+*/%^<>= \t\na0\u0000\u00e9\u00a0\u2003\u3042\ufeff\u000b";
        List<String> chars = new ArrayList<>();
        for (char ch : hostile.toCharArray()) chars.add(String.valueOf(ch));
        chars.add("\ud83d\ude00"); chars.add("\ud83d"); chars.add("&&"); chars.add("''");
        if (c.space("character edits", "every character removed, doubled, replaced by and preceded by each of " + chars.size() + " characters, at every position of " + well.size() + " expressions; every prefix and suffix")) {
            int m = well.size();
            for (int k = 0; k < m; k++) {
                String t = print(well.get(k));
                for (int i = 0; i <= t.length(); i++) {
                    for (String ch : chars) { text(c, t.substring(0, i) + ch + t.substring(i)); if (i < t.length()) text(c, t.substring(0, i) + ch + t.substring(i + 1)); }
                    if (i == t.length()) break;
                    text(c, t.substring(0, i) + t.substring(i + 1));
                    text(c, t.substring(0, i));
                    text(c, t.substring(i));
                }
            }
        }
        String punct = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";
        if (c.space("wrapped", "expressions between every pair of: nothing, one or two ASCII punctuation characters before, nothing or one after; two before and two after (the same, mirrored, or the matching brackets); and 40 words and marks of other languages before and after")) {
            List<String> es = Arrays.asList("a = 1", "t", "a > 50", "NOT t AND b = 2");
            List<String> one = new ArrayList<>(Arrays.asList("")), two = new ArrayList<>();
            for (char x : punct.toCharArray()) one.add("" + x);
            for (char x : punct.toCharArray()) for (char y : punct.toCharArray()) two.add("" + x + y);
            String open = "([{<", close = ")]}>";
            for (String e : es) {
                for (String p : one) for (String s : one) { text(c, p + e + s); text(c, p + " " + e + " " + s); }
                for (String p : two) for (String s : one) text(c, p + e + s);
                for (String p : two) {
                    String rev = new StringBuilder(p).reverse().toString(), match = "";
                    for (char ch : rev.toCharArray()) match += open.indexOf(ch) >= 0 ? close.charAt(open.indexOf(ch)) : ch;
                    for (String s : new LinkedHashSet<>(Arrays.asList(p, rev, match, match + ";"))) { text(c, p + e + s); text(c, p + " " + e + " " + s); }
                    text(c, e + p);
                }
                for (String p : new String[]{"if ", "if (", "where ", "WHERE ", "select * where ", "return ", "filter:", "expr:", "expression=", "expression = ", "assert ", "let ", "when ", "unless ", "not(", "!(", "//", "-- ", "/*", "<!--", "<?", "<%", "#!", "#{", "${", "%{", "{{", "{%", "=", "= =", ":=", "?", "$.", "@", "\\", "not not(", "()", "( )", "0", "''", "true ", "null "})
                    for (String s : new String[]{"", ")", "}", "}}", "%}", "*/", "-->", "?>", "%>", ";", ".", "?", " then", " end", " fi", "()", " ()", " ;", "\n;", "''", " true", " null", " 0"}) text(c, p + e + s);
            }
        }
        if (c.space("operator spellings", "all strings of up to 3 of 16 operator characters and 60 words between two operands, with and without blanks, two kinds of operands; the same before one operand")) {
            List<String> ops = new ArrayList<>(Arrays.asList("eq", "EQ", "ne", "gt", "ge", "gte", "lt", "le", "lte", "is", "IS", "is not", "IS NOT", "isnt", "like", "LIKE", "not like", "mod", "MOD", "div", "xor", "XOR", "between", "BETWEEN", "matches", "=~ ", "And", "Or", "Not", "aNd", "AND NOT", "and not", "OR NOT", "nand", "nor", "implies", "equals", "EQUALS", "not equals", "contains", "CONTAINS", "Contains_Any", "CONTAINS ANY", "contains all", "In", "iN", "NOT  IN", "NotIn", "NOT_IN", "not_in", "To", "tO", "..", "...", "until", "plus", "minus", "times", "also", "but"));
            char[] oc = "=<>!&|^%*/+-~:?.".toCharArray();
            for (int n = 1; n <= 3; n++) G.vectors(n, oc.length, v -> { StringBuilder b = new StringBuilder(); for (int q : v) b.append(oc[q]); ops.add(b.toString()); });
            for (String op : ops) {
                for (String[] lr : new String[][]{{"a", "1"}, {"t", "f"}, {"a", "(1, 2)"}, {"(a = 1)", "(b = 2)"}}) { text(c, lr[0] + " " + op + " " + lr[1]); text(c, lr[0] + op + lr[1]); }
                text(c, "a = 1 " + op + " b = 2 AND t"); text(c, op + " t"); text(c, op + "t"); text(c, "a " + op); text(c, "a = 1 AND " + op + "(t)");
            }
        }
        if (c.space("every character", "each character of the basic plane (quick: of ideographs, syllables and private use every 32nd) and 40 beyond it at 17 places of an expression (before, after, between, inside and round names, numbers, operators, items, in place of a quote); all ordered pairs of punctuation and quotation marks round a text")) {
            List<String> cs = new ArrayList<>();
            for (int ch = 0; ch < 0x10000; ch++) {
                boolean bulk = ch >= 0x3400 && ch < 0xa000 || ch >= 0xa000 && ch < 0xd800 || ch >= 0xd800 && ch < 0xf900 || Character.isLetter(ch) && ch > 0x600;
                if (c.quick && bulk && ch % 32 != 0) continue;
                cs.add(String.valueOf((char) ch));
            }
            for (int cp = 0x10000; cp < 0x110000; cp += 0x6666) cs.add(new String(Character.toChars(cp)));
            for (String x : cs) for (String t : new String[]{"a = 1#", "#a = 1", "a # = 1", "a = #1", "a = 1 # b = 2", "a =# 1", "a# = 1", "a#b = 1", "a = 1#2", "a IN (1# 2)", "min(a# 1)", "a = #x#", "a = #x y#", "a = '#", "a # 1", "#t", "NOT#t"}) text(c, t.replace("#", x));
            List<String> marks = new ArrayList<>();
            for (int ch = 0x21; ch < 0x10000; ch++) { int k = Character.getType(ch); if (k == Character.INITIAL_QUOTE_PUNCTUATION || k == Character.FINAL_QUOTE_PUNCTUATION || (k == Character.START_PUNCTUATION || k == Character.END_PUNCTUATION) && (ch < 0x3020 || ch > 0xfe50 && ch % 2 == 1) || "`\u00b4\u2032\u2033\u02bc\u02b9\uff07\uff02'\"".indexOf(ch) >= 0) marks.add(String.valueOf((char) ch)); }
            for (String x : marks) for (String y : marks) for (String t : new String[]{"a = #x~", "s = #a b~", "#a = 1~", "a IN #1, 2~", "min#1, 2~"}) text(c, t.replace("#", x).replace("~", y));
        }
        if (c.space("long texts", "chains, item lists and nestings of sizes round 4, 8, 16, ... 256 (thorough 1024) with one defect (of 14 kinds) at the ends, the middle and round each limit")) {
            String[][] shapes = {{"a = 1", " AND ", "b = 2", ""}, {"a IN (1", ", ", "2", ")"}, {"a", " + ", "2", ""}, {"sum(1", ", ", "a", ")"}, {"a = 1", " OR ", "NOT t", ""}, {"a CONTAINS_ANY ('x'", ", ", "'y z'", ")"}};
            String[] defects = {"", ",", ", ,", ")", "(", "AND", "=", "5 5", "'x", "#", "a b", "1 +", "NOT", "min("};
            for (int n : G.sizes(c.quick ? 257 : 1025)) for (String[] s : shapes) for (int p : G.places(n)) {
                if (n > 70 && c.quick && p % 4 != 0) continue;
                for (String df : defects) {
                    if (c.quick && n > 70 && (df.length() + p / 4) % 3 != 0) continue;
                    StringBuilder b = new StringBuilder(p == 0 ? df.isEmpty() ? "" : df + " " + s[0] : s[0]);
                    for (int j = 1; j < n; j++) b.append(s[1]).append(j == p ? df : s[2]);
                    text(c, b + s[3]);
                }
                StringBuilder b = new StringBuilder(s[0]);
                for (int j = 1; j < n; j++) b.append(s[1]).append(s[2]);
                text(c, b + s[3]); text(c, b + s[3] + " a"); text(c, b + s[3] + ")"); text(c, b + s[3] + s[1]); text(c, b + s[3] + " 5"); text(c, b + s[3] + " @");
            }
        }
        if (c.space("parentheses", "all strings of up to " + (c.quick ? 8 : 11) + " parentheses around and between two operands; missing closing parentheses at the very end are the tolerated omission")) {
            for (int n = 1; n <= (c.quick ? 8 : 11); n++) G.vectors(n, 2, v -> {
                StringBuilder s = new StringBuilder();
                for (int q : v) s.append(q == 0 ? '(' : ')');
                for (int k = 0; k <= v.length; k++) { text(c, s.substring(0, k) + "a = 1" + s.substring(k)); text(c, s.substring(0, k) + "min(a, 1" + s.substring(k)); text(c, s.substring(0, k) + "a" + s.substring(k) + " = 1"); }
            });
        }
    }

    // ---- C19 ------------------------------------------------------------------------------------

    /** the text has the outcome and the tree of the reference expression */
    static void same(Ck c, String text, E e, Map<String, Object> data, boolean cond) {
        c.add(w -> {
            Out want = cond ? Ref.cond(e, data) : Ref.val(e, data);
            Ck.Bad b = c.judge(w, cond, text, data, null, want);
            if (b != null) return b;
            Impl.Got g = w.impl.parse(text, null);
            String got = g.ok() ? Dump.of(g.value()) : g.toString(), tree = Tree.of(e);
            return tree.equals(got) ? null : new Ck.Bad(text, null, null, "the tree " + tree, got).snippet(parseSnippet(text, null));
        });
    }

    static void c19(Ck c) {
        List<E> conds = corpus(), vals = arithmetic();
        List<Object[]> all = new ArrayList<>();
        for (E e : conds) all.add(new Object[]{e, true});
        for (E e : vals) all.add(new Object[]{e, false});
        String[] ws = {"", " ", "  ", "\t", "\n", "\r\n", "\f", " \n\t ", "\r", "          "};
        if (c.space("whitespace", all.size() + " expressions x " + ws.length + " kinds of whitespace (also none) in every gap alone, in every pair of gaps and in all gaps, leading and trailing")) {
            for (Object[] o : all) {
                List<Lang.Tok> ts = Lang.lex(print((E) o[0]));
                int n = ts.size();
                for (String x : ws) {
                    String[] g = new String[n + 1];
                    for (int i = 0; i <= n; i++) g[i] = x;
                    gaps(c, ts, g, (E) o[0], (boolean) o[1]);
                    for (int i = 0; i <= n; i++) for (int j = i; j <= n; j++) {
                        if (j > i && (x.length() != 1 || c.quick && (j - i) > 2)) continue;
                        String[] h = new String[n + 1];
                        Arrays.fill(h, " ");
                        h[0] = h[n] = "";
                        h[i] = h[j] = x;
                        gaps(c, ts, h, (E) o[0], (boolean) o[1]);
                    }
                    String[] h = new String[n + 1];
                    for (int i = 0; i <= n; i++) h[i] = ws[(i * 7 + x.length()) % ws.length];
                    gaps(c, ts, h, (E) o[0], (boolean) o[1]);
                }
                // no whitespace wherever the tokens stay the same
                String[] tight = new String[n + 1];
                Arrays.fill(tight, "");
                for (int i = 1; i < n; i++) { List<Lang.Tok> two = Lang.lex(ts.get(i - 1).s() + ts.get(i).s()); if (two == null || two.size() != 2 || !two.get(0).equals(ts.get(i - 1)) || !two.get(1).equals(ts.get(i))) tight[i] = " "; }
                gaps(c, ts, tight, (E) o[0], (boolean) o[1]);
            }
        }
        char[] al = "ab (),=<>!&|+-*/%^.'\"\\\t\n_0N\u00e9\u3042\u0000;{}$#@".toCharArray();
        for (int n = 0; n <= 3; n++) if (c.space("quoted texts, " + n, "all texts of " + n + " of " + al.length + " characters (operators, blanks, the other quote, Unicode), in both quotes, at every place of a text")) G.vectors(n, al.length, v -> { StringBuilder s = new StringBuilder(); for (int q : v) s.append(al[q]); quoted(c, s.toString(), c.quick && v.length >= 3); });
        if (c.space("quoted, every character", "texts with each character of the basic plane (lone surrogates left out) and 40 beyond it, between letters, at the beginning and at the end, alone; in single and double quotes")) {
            for (int ch = 0; ch < 0x10000; ch++) {
                if (ch >= 0xd800 && ch < 0xe000) continue;
                String x = String.valueOf((char) ch);
                boolean rich = ch < 0x600 || ch >= 0x2000 && ch < 0x3100 || ch >= 0xf900;
                for (String t : new String[]{"a#b", "#a", "a#", "#", "x #y"}) if (rich || !c.quick || t.length() == 3) quoted(c, t.replace("#", x), !rich || t.length() != 3);
            }
            for (int cp = 0x10000; cp < 0x110000; cp += 0x6666) for (String t : new String[]{"a#b", "#", "##"}) quoted(c, t.replace("#", new String(Character.toChars(cp))), false);
        }
        if (c.space("quoted words", "keywords, numbers, dates, versions, whole expressions, long texts and Unicode (also outside the BMP) in both quotes")) {
            List<String> words = new ArrayList<>(Arrays.asList("AND", "and", "OR", "NOT", "not a = 1", "IN", "a IN (1)", "TO", "1 TO 5", "true", "FALSE", "null", "NULL", "min", "min(1,2)", "5", "-5", "1.50", "0x10", "1e5", "NaN", "a.b", "p.q", "t", "1.2.3", "2024-01-01", "2024-02-30", "2024-01-01 10:00:00", "CONTAINS_ANY",
                    "//", "/* x */", "''"+"", "%s", "%d%n", "${x}", "a\\'", "\\", "\\n", "\ud83d\ude00", "\ud83d\ude00\ud83d\ude00 x", "\u05d0\u05d1", "e\u0301", "\u200b", "\u2028", "\ufeffa", "  lead", "trail  ", "\t\ttabs", "multi\nline\r\ntext", "a".repeat(5000), "'".repeat(1), "\"".repeat(1), "it's", "say \"hi\"", "x','y", "x\",\"y", "straße", "İıI", "ﬁ", "\u0130"));
            for (String s : words) quoted(c, s, false);
        }
        if (c.space("sizes", "whitespace in one gap, quoted texts (plain, blanks, quotes at the limit), field names and runs of parentheses of sizes round 4, 8, 16, ... 5000 (thorough 65536)")) {
            for (int n : G.sizes(c.quick ? 5001 : 65537)) {
                for (String x : new String[]{" ", "\t", "\n", "\r\n"}) {
                    String g = x.repeat(n);
                    for (String text : new String[]{g + "a = 1 AND t", "a" + g + "= 1 AND t", "a =" + g + "1 AND t", "a = 1" + g + "AND t", "a = 1 AND" + g + "t", "a = 1 AND t" + g}) same(c, text, and(cmp("=", f("a"), i(1)), f("t")), DATA, true);
                    same(c, "a IN (" + g + "3," + g + "1" + g + ")", in("a", i(3), i(1)), DATA, true);
                    same(c, "min(a," + g + "5)" + g + "+" + g + "2", bin('+', fn("min", f("a"), i(5)), i(2)), DATA, false);
                }
                for (String s : new String[]{"x".repeat(n), " ".repeat(n), "a'b ".repeat(n).substring(0, n), "x".repeat(n - 1) + "\"", "日é".repeat(n).substring(0, n), "x".repeat(n - 1) + " "}) quoted(c, s, n > 600);
                String name = "n".repeat(n - 1) + "Q";
                if (n <= 1100 || !c.quick) field(c, name);
                if (n <= 100) for (String k : new String[]{"in", "AND", "to", "true", "min", "or", "NOT"}) { field(c, k.repeat(n) + "x"); field(c, "x" + k.repeat(n)); field(c, k + "_".repeat(n)); }
            }
        }
        if (c.space("numbers", "digit strings of 1..4 digits over {0,1,5,9}, decimals of 1..3 + 1..3 digits, lengths up to 40 digits, leading and trailing zeros: value of the literal and the comparison with the number in the data")) {
            List<String> nums = new ArrayList<>();
            for (int n = 1; n <= 4; n++) G.vectors(n, 4, v -> { StringBuilder s = new StringBuilder(); for (int q : v) s.append("0159".charAt(q)); nums.add(s.toString()); });
            for (int n = 1; n <= (c.quick ? 2 : 3); n++) for (int m = 1; m <= 3; m++) { int fn = n; G.vectors(n + m, 3, v -> { StringBuilder s = new StringBuilder(); for (int i = 0; i < v.length; i++) { if (i == fn) s.append('.'); s.append("059".charAt(v[i])); } nums.add(s.toString()); }); }
            for (int n = 5; n <= 40; n++) for (char ch : new char[]{'1', '9', '0'}) { if (n <= 19) nums.add(String.valueOf(ch).repeat(n)); nums.add(String.valueOf(ch).repeat(n) + ".5"); nums.add("1." + String.valueOf(ch).repeat(n)); nums.add(String.valueOf(ch).repeat(n) + "." + String.valueOf(ch).repeat(n)); }
            // zeros before and after
            for (int z = 1; z <= (c.quick ? 40 : 130); z++) for (String core : new String[]{"1", "7", "8", "9", "10", "17", "77", "100", "0777", "123456", "2147483647", "2147483648", "123456789012"}) { nums.add("0".repeat(z) + core); if (z <= 12 || z % 8 == 0) { nums.add("0".repeat(z) + core + ".5"); nums.add(core + "." + "0".repeat(z) + "7"); nums.add(core + ".5" + "0".repeat(z)); nums.add(core + "." + "0".repeat(z)); } }
            for (int n = 1; n <= 18; n++) for (int z = 0; z <= 4; z++) for (String q : new String[]{"1234567", "7654321", "1000000", "9876543210"}) nums.add("0".repeat(z) + q.repeat(3).substring(0, n));
            nums.addAll(Arrays.asList("2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999"));
            for (String s : nums) {
                BigDecimal v = new BigDecimal(s);
                Lit l = new Lit(s, s.contains(".") ? V.dec(v) : V.integer(v));
                Map<String, Object> d = G.data("x", v, "y", v.add(BigDecimal.ONE));
                boolean big = !s.contains(".") && !Ref.fitsLong(v);
                c.val(l, d); c.val(neg(l), d);
                if (big) continue;
                c.cond(cmp("=", f("x"), l), d); c.cond(cmp("=", l, f("y")), d); c.cond(cmp("<", l, f("y")), d); c.cond(in("x", i(3), l), d); c.cond(rng("x", l, l), d); c.cond(any("z", l), G.data("z", Arrays.asList(v)));
                if (v.compareTo(new BigDecimal("1e17")) < 0) c.val(bin('+', l, i(1)), d);
                c.val(fn("max", l), d); c.val(fn("min", l, l), d);
                c.cond(cmp("=", f("y" + s.replace('.', '_')), l), G.data("y" + s.replace('.', '_'), v));
            }
        }
        if (c.space("keyword case", all.size() + " expressions x every subset (up to 10 keywords; then each alone and all) of keywords and function names in the other case, AND/OR also as && and ||")) {
            for (Object[] o : all) {
                List<Lang.Tok> ts = Lang.lex(print((E) o[0]));
                List<Integer> kw = new ArrayList<>();
                for (int i = 0; i < ts.size(); i++) if (keyword(ts.get(i).t()) || ts.get(i).s().equals("null")) kw.add(i);
                int n = kw.size();
                for (int m = 0; m < 1 << Math.min(n, 10); m++) for (int sym = 0; sym < 2; sym++) {
                    StringBuilder b = new StringBuilder();
                    for (int i = 0; i < ts.size(); i++) {
                        String s = ts.get(i).s();
                        int k = kw.indexOf(i);
                        if (k >= 0 && (m >> Math.min(k, 9) & 1) == 1) {
                            s = s.equals(s.toUpperCase(Locale.ROOT)) ? s.toLowerCase(Locale.ROOT) : s.toUpperCase(Locale.ROOT);
                            if (sym == 1 && ts.get(i).t() == Lang.T.AND) s = "&&";
                            if (sym == 1 && ts.get(i).t() == Lang.T.OR) s = "||";
                        }
                        b.append(i == 0 ? "" : " ").append(s);
                    }
                    String text = b.toString();
                    E e = (E) o[0];
                    boolean cond = (boolean) o[1];
                    c.add(w -> c.judge(w, cond, text, DATA, null, cond ? Ref.cond(e, DATA) : Ref.val(e, DATA)));
                }
            }
        }
        if (c.space("field names", "names that begin or end with, contain or repeat each keyword (both cases), digits, underscores and dots, at every place of a field; and every name of up to 3 (thorough 4) of 9 characters")) {
            Set<String> names = new LinkedHashSet<>();
            for (String k0 : new String[]{"in", "to", "and", "or", "not", "true", "false", "contains_all", "contains_any", "min", "max", "avg", "sum", "mean", "mode", "median", "len", "int", "days_elapsed", "null", "e", "contains"}) for (String k : new String[]{k0, k0.toUpperCase(Locale.ROOT)})
                for (String x : new String[]{"@x", "x@", "@_", "_@", "@1", "1@", "x@y", "@@", "@_@", "a.@", "@.a", "a.@.b", "@.@", "x_@_y", "@X", "X@", "@2x", "a1.@", "@.1", "_@.@_"}) names.add(x.replace("@", k));
            names.addAll(Arrays.asList("_", "__", "a_b", "A", "aB", "Ab", "a1", "1a", "1_000", "_1", "x1y2", "9lives", "a.b.c.d", "a.b1", "a.1", "a.1b", "_a._b", "value", "from", "select", "is", "like", "between", "x".repeat(300), "andor", "notin", "intoto", "trueish", "nullable", "minmax", "O", "o", "i", "I", "n", "N", "ANDY", "Orion", "innot", "inn", "tot"));
            char[] nc = "aAzZ019_x".toCharArray();
            for (int n = 1; n <= (c.quick ? 3 : 4); n++) G.vectors(n, nc.length, v -> { StringBuilder s = new StringBuilder(); for (int q : v) s.append(nc[q]); names.add(s.toString()); });
            for (String name : names) { if (Lang.word(name).t() == Lang.T.FIELD && !name.equalsIgnoreCase("null")) field(c, name); }
        }
        Locale old = Locale.getDefault();
        try {
            for (String tag : new String[]{"en-US", "tr-TR", "az", "lt", "ar-EG", "hi-IN-u-nu-deva", "th-TH-u-ca-buddhist-nu-thai", "ja-JP-u-ca-japanese", "fa-IR", "de-DE", "und"}) if (c.space("locale " + tag, "the whole corpus in upper and lower case, numbers, dates and texts, on new instances, under the default locale " + tag)) {
                c.barrier();
                Locale.setDefault(Locale.forLanguageTag(tag));
                for (Object[] o : all) for (int k = 0; k < 3; k++) {
                    E e = (E) o[0];
                    boolean cond = (boolean) o[1];
                    List<Lang.Tok> ts = Lang.lex(print(e));
                    StringBuilder b = new StringBuilder();
                    for (Lang.Tok t : ts) b.append(b.length() == 0 ? "" : " ").append(keyword(t.t()) && k > 0 ? k == 1 ? t.s().toUpperCase(Locale.ROOT) : t.s().toLowerCase(Locale.ROOT) : t.s());
                    localised(c, b.toString(), e, cond, tag);
                }
                for (String fn : Lang.FNS) for (String name : new String[]{fn, fn.toUpperCase(Locale.ROOT)}) localised(c, name + "(" + (fn.equals("len") ? "s" : fn.equals("days_elapsed") ? "d" : "a") + ")", fn(fn, f(fn.equals("len") ? "s" : fn.equals("days_elapsed") ? "d" : "a")), false, tag);
                c.barrier();
            }
        } finally {
            c.barrier();
            Locale.setDefault(old);
        }
    }
    private static void localised(Ck c, String text, E e, boolean cond, String tag) {
        c.add(w -> {
            Impl impl = new Impl();
            Out want = cond ? Ref.cond(e, DATA) : Ref.val(e, DATA);
            Impl.Got got = cond ? impl.cond(text, DATA, null) : impl.val(text, DATA);
            w.count(true);
            c.state("l", text, DATA, tag);
            c.sample(text, DATA, null, got);
            if (Impl.agrees(want, got)) return null;
            return new Ck.Bad(text, DATA, null, want + " under the default locale " + tag, got.toString()).snippet("Locale.setDefault(Locale.forLanguageTag(" + Replay.lit(tag) + "));\n" + Replay.evalSnippet(cond, text, DATA, null));
        });
    }
    private static boolean keyword(Lang.T t) {
        return switch (t) { case IN, TO, AND, OR, NOT, TRUE, FALSE, CALL, CANY, FN -> true; default -> false; };
    }
    private static void gaps(Ck c, List<Lang.Tok> ts, String[] g, E e, boolean cond) {
        StringBuilder b = new StringBuilder(g[0]);
        for (int i = 0; i < ts.size(); i++) b.append(ts.get(i).s()).append(g[i + 1]);
        String text = b.toString();
        if (!ts.equals(Lang.lex(text))) return;   // the tokens have grown together
        same(c, text, e, DATA, cond);
    }
    private static void quoted(Ck c, String s, boolean few) {
        for (char q : new char[]{'\'', '"'}) {
            if (s.indexOf(q) >= 0) continue;
            Lit l = new Lit(q + s + q, V.str(s));
            Map<String, Object> d = G.data("x", s, "y", s + "~", "l", Arrays.asList("q", s));
            c.cond(cmp("=", f("x"), l), d);
            if (!V.dateShaped(s)) c.cond(cmp("=", f("y"), l), d);
            if (few) continue;
            c.cond(cmp("!=", l, f("x")), d);
            c.val(fn("len", l), d);
            c.cond(in("x", s("~"), l), d);
            c.cond(any("l", l), d);
            c.val(l, d);
            if (!V.dateShaped(s)) { c.val(bin('+', l, s("|")), d); c.cond(and(cmp("=", bin('+', s("<"), l), bin('+', s("<"), f("x"))), cmp("=", f("x"), l)), d); }
            tree(c, cmp("=", l, f("x")));
            tree(c, in("x", l, new Lit("'AND'", V.str("AND")), l));
        }
    }
    private static void field(Ck c, String name) {
        Map<String, Object> d = G.data("other", 3, "str", "s");
        put(d, name, 7);
        c.cond(cmp("=", f(name), i(7)), d);
        c.cond(cmp("=", i(8), f(name)), d);
        c.cond(cmp("=", f(name), new Null("null")), d);
        c.cond(rng(name, i(7), i(7)), d);
        c.cond(in(name, i(1), f(name)), d);
        c.cond(in("other", i(1), f(name)), d);
        c.cond(notIn(name, i(7)), d);
        c.val(f(name), d);
        c.val(bin('+', f(name), f("other")), d);
        c.val(bin('*', neg(f(name)), f(name)), d);
        c.val(fn("sum", f(name), i(1), f(name)), d);
        c.cond(and(cmp(">", f(name), f("other")), not(cmp("=", f(name), i(1)))), d);
        Map<String, Object> t = G.data();
        put(t, name, true);
        c.cond(f(name), t); c.cond(not(f(name)), t); c.cond(or(not(f(name)), f(name)), t);
        Map<String, Object> l = G.data();
        put(l, name, Arrays.asList(1, 2));
        c.cond(any(name, i(2), i(9)), l); c.cond(all(name, i(2), i(9)), l); c.val(fn("len", f(name)), l);
        c.cond(cmp("=", f(name), i(7)), G.data());
        tree(c, or(cmp("=", f(name), s("x")), in(name, f(name))));
    }
    @SuppressWarnings("unchecked")
    private static void put(Map<String, Object> d, String path, Object v) {
        String[] p = path.split("\\.");
        Map<String, Object> m = d;
        for (int i = 0; i < p.length - 1; i++) m = (Map<String, Object>) m.computeIfAbsent(p[i], k -> G.data());
        m.put(p[p.length - 1], v);
    }
}
