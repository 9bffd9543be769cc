package mc;

import static mc.E.*;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Map;
import mc.Explore.Call;
import mc.Explore.Scenario;

/** C23 shared evaluators, C24 construction, C25 the shared caching parser: all interleavings up to a number of preemptions. */
final class PConc {
    private static final Map<String, Object> D = PLang.DATA;

    /** other values for every field */
    private static final Map<String, Object> D2 = PPure.other(D);

    private static Call with(Call c, Map<String, Object> d) { return c.entry() < 2 ? c : new Call(c.entry(), c.text(), d, c.def()); }
    /** one expression, different data */
    private static void dataSpace(Ck c, Explore x, String kind) {
        List<Call> all = calls();
        if (c.space("one expression, two data maps", "every one of " + all.size() + " calls by two threads at once with different data maps on a shared " + (kind.equals("plain") ? "parser" : "caching parser") + ", one call each, two each with the data maps in opposite order, and three threads, up to " + (c.quick ? 2 : 3) + " preemptions"))
            for (int i = 0; i < all.size(); i++) {
                Call k = all.get(i), l = with(k, D2);
                if (k == l) continue;
                int bound = c.quick ? 2 : 3;
                x.add(new Scenario("data-" + i, kind, false, new Call[][]{t(k), t(l)}, bound));
                x.add(new Scenario("data2-" + i, kind, false, new Call[][]{t(k, l), t(l, k)}, bound));
                x.add(new Scenario("data3-" + i, kind, false, new Call[][]{t(k), t(l), t(k)}, bound));
            }
        x.run();
    }

    /** after a history */
    private static void historySpace(Ck c, Explore x, String... kinds) {
        int[] sizes = c.quick ? new int[]{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 31, 32, 63, 64, 99, 100} : java.util.stream.IntStream.concat(java.util.stream.IntStream.rangeClosed(1, 70), java.util.stream.IntStream.of(99, 100, 127, 128, 199, 200, 255, 256, 511, 512, 999, 1000, 1023, 1024)).toArray();
        int bound = c.quick ? 1 : 2;
        if (c.space("after a history", "two threads on an instance that has parsed 1 to " + sizes[sizes.length - 1] + " other expressions: the first, the middle and the last of them again, and new ones, in one and two calls each, up to " + bound + " preemption" + (bound > 1 ? "s" : "")))
            for (String kind : kinds) for (int n : sizes) {
                Call[] old = {parse(Driver.history(0), null), parse(Driver.history(n / 2)), parse(Driver.history(n - 1), null)}, fresh = {parse("a = 1"), cond("a = 1 OR b > 1"), parse("= 1", "a")};
                String k = kind + "+" + n;
                for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
                    x.add(new Scenario("history-" + k + "-" + i + "-" + j, k, false, new Call[][]{t(old[i]), t(fresh[j])}, bound));
                    x.add(new Scenario("history2-" + k + "-" + i + "-" + j, k, false, new Call[][]{t(fresh[(j + 1) % 3], old[i]), t(fresh[j], old[(i + 1) % 3])}, bound));
                    if (i < j) x.add(new Scenario("history3-" + k + "-" + i + "-" + j, k, false, new Call[][]{t(fresh[i]), t(fresh[j])}, bound));
                    if (i < j) x.add(new Scenario("history4-" + k + "-" + i + "-" + j, k, false, new Call[][]{t(old[i]), t(old[j])}, bound));
                }
            }
        x.run();
    }

    private static Call parse(String t) { return new Call(0, t, null, null); }
    private static Call parse(String t, String def) { return new Call(1, t, null, def); }
    private static Call cond(String t) { return new Call(2, t, D, null); }
    private static Call cond(String t, String def) { return new Call(3, t, D, def); }
    private static Call val(String t) { return new Call(4, t, D, null); }
    private static Call make(String kind) { return new Call(-1, kind, null, null); }
    private static Call[] t(Call... c) { return c; }

    /** calls that between them use every operator, function, data type and kind of node */
    private static List<Call> calls() {
        List<Call> r = new ArrayList<>();
        for (E e : PLang.corpus()) r.add(cond(print(e)));
        for (E e : PLang.arithmetic()) r.add(val(print(e)));
        r.addAll(Arrays.asList(cond("= 1", "a"), cond(">= 2 AND < 9", "b"), cond("IN (1, 5)", "b"), parse("a = 1 AND (b > 2 OR NOT t)"), parse("= 1", "a"), parse("min(a, (b + 2)) > 3"), parse("l CONTAINS_ALL (1, 2)"),
                cond("a = "), val("a +"), val("a / 0"), cond("nosuch > 1"), val("s * 2"), parse("(a = 1"), cond("a = 'x"), cond("s = abc"), cond("s = 'ABC'"), cond("a > s")));
        return r;
    }
    /** a subset for the larger combinations */
    private static List<Call> few() {
        return Arrays.asList(cond("a = 1 AND (b > 1 OR t)"), cond("NOT (a IN (1, -2) AND s != 'x AND y')"), cond("l CONTAINS_ALL ((b - 1), max(l))"), cond("dec 2 TO 2.75"), cond("2024-01-31 < 2024-02-29"), cond("1.10.2 > 1.9.30"), cond("= 1", "a"),
                val("sum(l, (9 / 2))"), val("(a - b) * 2.5"), val("len(s)"), parse("a = 1 AND NOT (b > 2)"), cond("a = "), val("a / 0"));
    }

    private static void assumptions(Ck c) {
        c.assumptions.add("Sequentially consistent memory: a switch is possible before every access to a non-final field or array element of the code under test (and of the unsynchronised java.util collections, which it gets as instrumented copies), at every lock, class initialisation and call on a shared library object; calls into the ANTLR runtime, vavr and Caffeine are otherwise one step, except for the callbacks they make.");
        c.assumptions.add("A preemption is tried before every access that conflicts with an access of another thread in the same execution; between such accesses no interleaving can be told apart. Every choice is tried when a thread ends or blocks.");
    }

    static void c23(Ck c) {
        assumptions(c);
        Explore x = new Explore(c);
        int bound = c.quick ? 1 : 2;
        List<Call> all = calls(), few = few();
        if (c.space("pairs", "every ordered pair of " + all.size() + " calls, two threads, one shared parser with its evaluators and one data map, up to " + bound + " preemptions"))
            for (int i = 0; i < all.size(); i++) for (int j = 0; j < all.size(); j++) x.add(new Scenario("pair-" + i + "-" + j, "plain", false, new Call[][]{t(all.get(i)), t(all.get(j))}, bound));
        x.run();
        if (c.space("pairs, first use", "every ordered pair of " + few.size() + " calls on one shared instance whose calls are the first of the process (classes not yet initialised), up to " + bound + " preemptions"))
            for (int i = 0; i < few.size(); i++) for (int j = 0; j < few.size(); j++) x.add(new Scenario("cold-" + i + "-" + j, "plain", true, new Call[][]{t(few.get(i)), t(few.get(j))}, bound));
        x.run();
        if (c.space("first use of all", "every call of " + all.size() + " by two threads at once as the first calls of the process, up to 2 preemptions"))
            for (int i = 0; i < all.size(); i++) x.add(new Scenario("first-" + i, "plain", true, new Call[][]{t(all.get(i)), t(all.get(i))}, 2));
        x.run();
        if (c.space("two calls each", "two threads with two calls each over all of " + few.size() + "^2 pairs against each other rotated, up to " + bound + " preemptions"))
            for (int i = 0; i < few.size(); i++) for (int j = 0; j < few.size(); j++) for (int k : new int[]{1, 4}) x.add(new Scenario("two-" + i + "-" + j + "-" + k, "plain", false, new Call[][]{t(few.get(i), few.get(j)), t(few.get((j + k) % few.size()), few.get(i))}, bound));
        x.run();
        int n3 = c.quick ? 7 : few.size();
        if (c.space("three threads", "three threads, all triples of " + n3 + " calls, up to " + bound + " preemptions"))
            for (int i = 0; i < n3; i++) for (int j = 0; j < n3; j++) for (int k = 0; k < n3; k++) x.add(new Scenario("three-" + i + "-" + j + "-" + k, "plain", false, new Call[][]{t(few.get(i)), t(few.get(j)), t(few.get(k))}, bound));
        x.run();
        largeSpace(c, x, "plain", 1);
        dataSpace(c, x, "plain");
        historySpace(c, x, "plain");
    }

    /** expressions of n conditions, items, arguments, levels */
    private static List<Call> large(int n) {
        List<Call> r = new ArrayList<>();
        StringBuilder and = new StringBuilder("a = 1"), or = new StringBuilder("a = 2"), in = new StringBuilder("a IN (2"), con = new StringBuilder("l CONTAINS_ALL (1"), sum = new StringBuilder("sum(1"), plus = new StringBuilder("a"), med = new StringBuilder("median(a");
        for (int j = 1; j < n; j++) { and.append(j % 3 == 0 ? " AND b = 2" : " AND a != " + (j + 5)); or.append(j % 2 == 0 ? " OR b = 3" : " OR a = " + (j + 5)); in.append(", ").append(j == n - 1 ? 1 : j + 5); con.append(", ").append(j % 2 == 0 ? 1 : 2); sum.append(", ").append(j % 3 == 0 ? "b" : "" + j); plus.append(j % 2 == 0 ? " + b" : " - 1"); med.append(", ").append(j * 7 % n); }
        r.addAll(Arrays.asList(cond("" + and), cond("" + or), cond(in + ")"), cond(con + ")"), val(sum + ")"), val("" + plus), val(med + ")"), parse("" + and), cond("s = '" + "xy ".repeat(n) + "'"), cond("p." + "q".repeat(n) + " = null")));
        if (n <= 130) r.addAll(Arrays.asList(cond("(".repeat(n) + "a = 1" + ")".repeat(n)), cond("NOT (".repeat(n) + "a = 1" + ")".repeat(n)), val("(a + ".repeat(n) + "b" + ")".repeat(n)), cond("(a = 2 OR ".repeat(n) + "b = 2" + ")".repeat(n)), val("min(a, ".repeat(n) + "b" + ")".repeat(n))));
        return r;
    }
    private static void largeSpace(Ck c, Explore x, String kind, int bound) {
        int[] ns = c.quick ? new int[]{12, 20, 40, 70, 130, 300} : new int[]{9, 12, 17, 20, 33, 40, 70, 130, 260, 520, 1030};
        if (c.space("large expressions", "two threads, each with one of fifteen expressions of 12 to 300 (thorough 1030) conditions, items, arguments or levels of nesting, equal and of another kind, on a shared " + (kind.equals("plain") ? "parser" : "caching parser") + ", up to " + bound + " preemption" + (bound > 1 ? "s" : "")))
            for (int n : ns) {
                List<Call> l = large(n);
                for (int i = 0; i < l.size(); i++) for (int k : new int[]{0, 1, 6}) x.add(new Scenario("large-" + n + "-" + i + "-" + k, kind, false, new Call[][]{t(l.get(i)), t(l.get((i + k) % l.size()))}, bound));
            }
        x.run();
    }

    static void c24(Ck c) {
        assumptions(c);
        Explore x = new Explore(c);
        List<Call> few = few(), all = calls();
        String[] kinds = {"plain", "cache:10"};
        int bound = c.quick ? 1 : 2;
        if (c.space("class initialisation", "two threads construct parsers (plain, caching of size 0, 10) and their evaluators as the very first of the process, and make one of 4 calls or none; a preemption inside the initialisation of any class and before every conflicting access, up to 1 (thorough 2)"))
            for (String k : new String[]{"plain", "cache:10", "cache:0"}) for (String k2 : new String[]{"plain", "cache:10", "cache:0"}) for (int i = -1; i < 4; i++) {
                if (c.quick && i >= 0 && (k.equals("cache:0") || k2.equals("cache:0") || k.equals(k2) && i % 2 == 1)) continue;
                Call y = i < 0 ? null : few.get(i * 3 + 1);
                x.add(new Scenario("classes-" + k + "-" + k2 + "-" + i, null, true, i < 0 ? new Call[][]{t(make(k)), t(make(k2))} : new Call[][]{t(make(k), y), t(make(k2), y)}, bound));
            }
        x.run();
        if (c.space("first construction", "two threads construct the first parsers of the process (plain and caching) and evaluate each one of " + few.size() + " calls on their own, up to " + bound + " preemptions"))
            for (int i = 0; i < few.size(); i++) for (String k : kinds) for (String k2 : kinds) {
                if (c.quick && (!k.equals(k2) ? i % 4 != 0 : !k.equals("plain") && i % 3 != 0)) continue;
                x.add(new Scenario("first-" + i + "-" + k + "-" + k2, null, true, new Call[][]{t(make(k), few.get(i)), t(make(k2), few.get((i * 5 + 3) % few.size()))}, bound));
            }
        x.run();
        if (c.space("construction, then use", "two threads construct the first evaluators of a process that has only parsed before, and then evaluate a condition that uses every registry (thorough: also two other calls, and a caching parser), up to 2 preemptions, switches between the calls of the second thread not counted" + (c.quick ? ", preemptions before writes only" : "")))
            for (Call k : c.quick ? new Call[]{cond("(min(a, 2) + 1) > 0")} : new Call[]{cond("(min(a, 2) + 1) > 0"), val("min(a, 2) + 1"), cond("a > 0 AND b IN (2)")}) for (String kind : c.quick ? new String[]{"plain"} : kinds) x.add(new Scenario("free-make-" + k.entry() + "-" + kind, null, true, new Call[][]{t(make(kind), k), t(make("plain"), k)}, 2));
        x.run();
        if (c.space("construction against use", "one thread constructs a parser and evaluators, another makes each of " + all.size() + " calls on an existing instance, up to 2 preemptions (the caching parser: " + bound + ")"))
            for (int i = 0; i < all.size(); i++) for (String k : kinds) x.add(new Scenario("make-" + i + "-" + k, "plain", false, new Call[][]{t(make(k)), t(all.get(i))}, k.equals("plain") ? 2 : bound));
        x.run();
        if (c.space("construction against first use", "one thread constructs a parser and evaluators, another makes the first call of the process on an existing instance, " + few.size() + " calls, up to " + bound + " preemptions"))
            for (int i = 0; i < few.size(); i++) for (String k : kinds) x.add(new Scenario("makefirst-" + i + "-" + k, "plain", true, new Call[][]{t(make(k)), t(few.get(i))}, bound));
        x.run();
        if (c.space("construction against construction", "two threads construct parsers while earlier ones exist, and then evaluate, up to " + bound + " preemptions"))
            for (int i = 0; i < few.size(); i++) for (String k : kinds) for (String k2 : kinds) x.add(new Scenario("both-" + i + "-" + k + "-" + k2, "plain", false, new Call[][]{t(make(k), few.get(i)), t(few.get((i * 5 + 2) % few.size()), make(k2), few.get((i * 7 + 1) % few.size()))}, bound));
        x.run();
        if (c.space("three threads", "two threads construct and evaluate, a third evaluates on an existing instance" + (c.quick ? ", up to 1 preemption" : ", also the first of the process, up to 1 preemption")))
            for (int i = 0; i < few.size(); i++) {
                if (c.quick && i % 4 != 0) continue;
                for (boolean cold : c.quick ? new boolean[]{false} : new boolean[]{false, true}) x.add(new Scenario("three-" + i + "-" + cold, "plain", cold, new Call[][]{t(make("plain"), few.get(i)), t(make("cache:10"), few.get((i * 5 + 3) % few.size())), t(few.get(i))}, 1));
            }
        x.run();
    }

    static void c25(Ck c) {
        assumptions(c);
        c.assumptions.add("Caffeine runs its maintenance (eviction) in the common pool; explored are eviction at once after every call (sizes marked !) and no eviction before the calls end.");
        Explore x = new Explore(c);
        List<Call> asks = Arrays.asList(parse("a = 1"), parse("a = 1", "b"), parse("= 1", "Aa"), parse("= 1", "BB"), cond("= 1", "a"), cond("= 1", "b"), cond("a = 1"), cond("a = "), cond("a = ", "a"), val("a + 1"), parse("a + 1"), cond("A = 1 OR b IN (1, 2)"), parse("(a = 1"), cond("Aa = 1"), cond("BB = 1"), cond("= 1"));
        List<Call> few = Arrays.asList(parse("a = 1"), parse("= 1", "Aa"), cond("= 1", "BB"), cond("= 1", "a"), cond("a = "), cond("a = 1"));
        String[] sizes = {"cache:0", "cache:0!", "cache:1", "cache:1!", "cache:2!", "cache:100"};
        int bound = c.quick ? 2 : 3;
        if (c.space("pairs", "every ordered pair of " + asks.size() + " calls by two threads on one shared caching parser of size 0, 1, 2, 100, evicting at once or not, up to 2 preemptions"))
            for (String s : sizes) for (int i = 0; i < asks.size(); i++) for (int j = 0; j < asks.size(); j++) x.add(new Scenario("pair-" + s + "-" + i + "-" + j, s, false, new Call[][]{t(asks.get(i)), t(asks.get(j))}, 2));
        x.run();
        if (c.space("two calls each", "all " + few.size() + "^4 pairs of two calls by two threads, up to " + bound + " preemptions"))
            for (String s : c.quick ? new String[]{"cache:1!", "cache:100"} : sizes) for (int i = 0; i < few.size(); i++) for (int j = 0; j < few.size(); j++) for (int k = 0; k < few.size(); k++) for (int l = 0; l < few.size(); l++) {
                if (c.quick && (i + j + k + l) % 2 == 1) continue;
                x.add(new Scenario("two-" + s + "-" + i + "-" + j + "-" + k + "-" + l, s, false, new Call[][]{t(few.get(i), few.get(j)), t(few.get(k), few.get(l))}, bound));
            }
        x.run();
        if (c.space("three threads", "all triples of " + few.size() + " calls by three threads, up to 2 preemptions"))
            for (String s : c.quick ? new String[]{"cache:1!", "cache:100"} : sizes) for (int i = 0; i < few.size(); i++) for (int j = 0; j < few.size(); j++) for (int k = 0; k < few.size(); k++) x.add(new Scenario("three-" + s + "-" + i + "-" + j + "-" + k, s, false, new Call[][]{t(few.get(i)), t(few.get(j)), t(few.get(k))}, 2));
        x.run();
        if (c.space("first use", "pairs of " + few.size() + " calls as the first of the process on a shared caching parser, up to " + (c.quick ? 1 : 2) + " preemptions"))
            for (String s : new String[]{"cache:1!", "cache:100"}) for (int i = 0; i < few.size(); i++) for (int j = 0; j < few.size(); j++) x.add(new Scenario("cold-" + s + "-" + i + "-" + j, s, true, new Call[][]{t(few.get(i)), t(few.get(j))}, c.quick ? 1 : 2));
        x.run();
        dataSpace(c, x, "cache:100");
        historySpace(c, x, "cache:2", "cache:100");
    }
}
