package mc;

import static mc.E.*;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;

/** C03 to C06: comparisons. */
final class PCompare {
    /** a value in a form in which it can stand in an expression: a literal, or an object in the data */
    record Rep(String name, E lit, Object obj) {
        boolean isLit() { return lit != null; }
        E at(String field) { return lit != null ? lit : f(field); }
        void put(Map<String, Object> d, String field) { if (lit == null) d.put(field, obj); }
        @Override public String toString() { return name; }
    }

    static final BigDecimal TWO = BigDecimal.valueOf(2);

    static String[] NUMS = {"0", "1", "-1", "2", "3", "-2", "10", "99", "100", "127", "128", "-128", "-129", "1000", "16777216", "16777217",
        "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967297", "9007199254740992", "9007199254740993", "-9007199254740993",
        "9223372036854775806", "9223372036854775807", "-9223372036854775808", "-9223372036854775807", "9223372036854775808", "18446744073709551617", "100000000000000000000000000000",
        "0.1", "-0.1", "0.5", "-0.5", "0.999", "1.5", "-1.5", "0.30000000000000004", "0.3", "1.0000001", "0.99999999999999999999", "1.00000000000000000001", "3.14159",
        "2147483647.5", "9007199254740992.5", "9223372036854775807.1", "9223372036854775806.9", "0.00000000000000000000001", "-0.00000000000000000000001", "12345678901234567890.12345"};

    /** every representation of a number */
    static List<Rep> reps(String n) {
        BigDecimal v = new BigDecimal(n);
        List<Rep> r = new ArrayList<>();
        BigDecimal a = v.abs();
        boolean whole = v.scale() <= 0;
        if (whole) { Lit l = new Lit(a.toPlainString(), V.integer(new BigDecimal(a.toPlainString()))); r.add(new Rep("lit", v.signum() < 0 ? neg(l) : l, null)); }
        Lit dl = d(whole ? a.toPlainString() + ".0" : a.toPlainString());
        r.add(new Rep("dlit", v.signum() < 0 ? neg(dl) : dl, null));
        if (whole && Ref.fitsInt(v)) r.add(new Rep("int", null, v.intValueExact()));
        if (whole && Ref.fitsLong(v)) r.add(new Rep("long", null, v.longValueExact()));
        r.add(new Rep("big", null, v));
        if (!Double.isInfinite(v.doubleValue()) && new BigDecimal(Double.toString(v.doubleValue())).compareTo(v) == 0) r.add(new Rep("double", null, v.doubleValue()));
        if (!Float.isInfinite(v.floatValue()) && new BigDecimal(Float.toString(v.floatValue())).compareTo(v) == 0) r.add(new Rep("float", null, v.floatValue()));
        r.add(new Rep("scaled", null, v.setScale(Math.max(0, v.scale()) + 3)));
        BigDecimal s = v.stripTrailingZeros();
        if (s.scale() < 0) r.add(new Rep("exp", null, s));
        return r;
    }

    static void pair(Ck c, Rep x, Rep y, String... ops) {
        Map<String, Object> d = G.data();
        x.put(d, "x");
        y.put(d, "y");
        for (String op : ops) c.cond(cmp(op, x.at("x"), y.at("y")), d);
    }

    static void c03(Ck c) {
        if (c.space("negative zero", "-0.0 as Double and Float against every representation of every number, both orders x 6 operators; in IN, CONTAINS, ranges, and negated")) {
            for (Object z : new Object[]{-0.0d, -0.0f}) {
                Rep rz = new Rep("zero", null, z);
                for (Object o : new Object[]{-0.0d, -0.0f, 0.0d, 0.0f}) pair(c, rz, new Rep("zero", null, o), CMPS);
                for (String n : NUMS) for (Rep r : reps(n)) {
                    pair(c, rz, r, CMPS); pair(c, r, rz, CMPS);
                    Map<String, Object> d = G.data("x", z);
                    r.put(d, "y");
                    c.cond(in("x", r.at("y")), d); c.cond(notIn("x", i(7), r.at("y")), d);
                    d = G.data("x", z, "l", Arrays.asList(z, 7.5));
                    r.put(d, "y");
                    c.cond(any("l", r.at("y")), d);
                    c.cond(cmp("=", neg(f("x")), r.at("y")), d);
                }
                for (Lit[] b : new Lit[][]{{i(0), i(0)}, {i(0), i(5)}, {d("0.0"), d("0.5")}, {i(1), i(5)}}) c.cond(rng("x", b[0], b[1]), G.data("x", z));
            }
        }
        if (c.space("boundary values", NUMS.length + " boundary numbers in every representation (literal, decimal literal, negated, Integer, Long, BigDecimal of several scales, Double, Float), all ordered pairs x 6 operators")) {
            List<Rep> all = new ArrayList<>();
            for (String n : NUMS) all.addAll(reps(n));
            for (Rep x : all) for (Rep y : all) pair(c, x, y, CMPS);
        }
        if (c.space("neighbours of powers", "2^k and 10^k, each with its neighbours at distance 1 and 0.001, all pairs of a neighbourhood, both signs, all representations x 6 operators")) {
            List<BigInteger> ps = new ArrayList<>();
            for (int k = 0; k <= (c.quick ? 66 : 130); k++) ps.add(BigInteger.TWO.pow(k));
            for (int k = 1; k <= (c.quick ? 20 : 40); k++) ps.add(BigInteger.TEN.pow(k));
            for (BigInteger p : ps) for (int sg = 1; sg >= -1; sg -= 2) {
                BigDecimal b = new BigDecimal(p).multiply(BigDecimal.valueOf(sg));
                List<Rep> l = new ArrayList<>();
                for (String dl : new String[]{"0", "1", "-1", "0.001", "-0.001"}) l.addAll(reps(b.add(new BigDecimal(dl)).toPlainString()));
                for (Rep x : l) for (Rep y : l) pair(c, x, y, c.quick ? new String[]{"=", ">", "<="} : CMPS);
            }
        }
        if (c.space("dense integers", "integers -300..300 (thorough -3000..3000) against themselves and their neighbours in all representations x 6 operators")) {
            int n = c.quick ? 300 : 3000;
            for (int i = -n; i <= n; i++) for (int dlt = -1; dlt <= 1; dlt++)
                for (Rep x : reps("" + i)) for (Rep y : reps("" + (i + dlt))) pair(c, x, y, c.quick && dlt != 0 ? new String[]{"=", "<"} : new String[]{"=", "!=", ">", "<="});
        }
        if (c.space("dense decimals", "decimals i/10 and i/8 for |i| <= 12, all ordered pairs, all representations x 6 operators")) {
            List<Rep> l = new ArrayList<>();
            Set<String> seen = new LinkedHashSet<>();
            for (int i = -12; i <= 12; i++) { seen.add(new BigDecimal(i).movePointLeft(1).stripTrailingZeros().toPlainString()); if (!c.quick || i % 2 != 0) seen.add(new BigDecimal(i).divide(BigDecimal.valueOf(8)).stripTrailingZeros().toPlainString()); }
            for (String s : seen) for (Rep r : reps(s)) if (!c.quick || !r.name().equals("scaled")) l.add(r);
            for (Rep x : l) for (Rep y : l) pair(c, x, y, c.quick ? new String[]{"=", ">="} : CMPS);
        }
        if (c.space("context", "comparisons in IN lists, under NOT, and as parts of AND: representation pairs of 12 numbers")) {
            String[] few = {"0", "1", "-1", "128", "2147483648", "9007199254740993", "9223372036854775807", "0.1", "-1.5", "1.00000000000000000001", "0.5", "100"};
            List<Rep> l = new ArrayList<>();
            for (String s : few) l.addAll(reps(s));
            for (Rep x : l) if (!x.isLit()) for (Rep y : l) {
                Map<String, Object> d = G.data();
                x.put(d, "x");
                y.put(d, "y");
                c.cond(in("x", y.at("y")), d);
                c.cond(in("x", s("other"), y.at("y")), d);
                c.cond(not(cmp("=", f("x"), y.at("y"))), d);
                c.cond(and(cmp("<=", f("x"), y.at("y")), cmp(">=", f("x"), y.at("y"))), d);
            }
        }
        if (c.space("digits", "numbers of 1..40 digits (literal, BigDecimal) against the same number with one digit changed at each position x 3 operators")) {
            for (int len = 1; len <= (c.quick ? 24 : 40); len++) for (int dot = 0; dot < len; dot += Math.max(1, len / 5)) {
                StringBuilder b = new StringBuilder();
                for (int i = 0; i < len; i++) { if (i == len - dot && dot > 0) b.append('.'); b.append((char) ('1' + (i * 7 + len) % 8)); }
                String base = b.toString();
                for (int pos = 0; pos < base.length(); pos++) {
                    if (base.charAt(pos) == '.') continue;
                    String other = base.substring(0, pos) + (char) (base.charAt(pos) + 1) + base.substring(pos + 1);
                    for (Rep x : reps(base)) for (Rep y : reps(other)) pair(c, x, y, "=", "<", ">=");
                }
            }
        }
        if (c.space("places", "numbers with up to 400 (thorough 2000) digits before and after the point, one digit changed at the ends and round each size threshold; whole numbers likewise, and trailing zeros added x 3 operators")) {
            int max = c.quick ? 401 : 2001;
            for (int n : G.sizes(max)) for (int k = 0; k < 3; k++) {
                StringBuilder b = new StringBuilder();
                int before = k == 0 ? 1 : k == 1 ? n : 7;
                for (int i = 0; i < before; i++) b.append((char) ('1' + (i * 7 + n) % 8));
                if (k != 1) { b.append('.'); for (int i = 0; i < n; i++) b.append((char) ('1' + (i * 5 + n) % 8)); }
                else if (n % 2 == 0) b.append(".5");
                String base = b.toString();
                for (int pos : G.places(base.length())) for (int sg = 0; sg < 2; sg++) {
                    if (base.charAt(pos) == '.') continue;
                    String other = base.substring(0, pos) + (char) (base.charAt(pos) + 1) + base.substring(pos + 1), s = sg == 0 ? "" : "-";
                    for (Rep x : reps(s + base)) for (Rep y : reps(s + other)) if (!x.name().equals("scaled") || !y.name().equals("scaled")) pair(c, x, y, "=", "<", ">=");
                }
                for (Rep x : reps(base)) for (Rep y : reps(base.indexOf('.') >= 0 ? base + "0".repeat(n) : base)) pair(c, x, y, "=", "<", ">=");
                for (String z : new String[]{"0." + "0".repeat(n) + "1", "0." + "9".repeat(n), "1." + "0".repeat(n) + "1"}) for (String w : new String[]{"0", "1", "0." + "0".repeat(n) + "2", "0.1"})
                    for (Rep x : reps(z)) for (Rep y : reps(w)) pair(c, x, y, "=", "<", ">=");
            }
        }
    }

    // ---- versions -------------------------------------------------------------------------------

    static List<String> versions(boolean quick) {
        Set<String> r = new LinkedHashSet<>();
        String[] seg = {"0", "1", "9", "10"};
        for (String a : quick ? new String[]{"0", "1", "2"} : new String[]{"0", "1", "2", "9"}) for (String b : seg) for (String d : seg) r.add(a + "." + b + "." + d);
        for (String a : new String[]{"0", "1"}) for (String b : new String[]{"0", "2", "11"}) for (String d : new String[]{"0", "1"}) for (String e : new String[]{"0", "1", "100"}) r.add(a + "." + b + "." + d + "." + e);
        r.addAll(Arrays.asList("1.5.9", "1.5.10", "1.5.11", "1.15.9", "1.5.9.0", "1.5.9.0.0", "1.5.9.0.1", "1.5.9.1", "1.0.0.0.0", "1.0.0.0.0.1", "2.0.0", "10.0.0", "10.0.1", "9.9.9", "9.10.0", "99.0.0", "100.0.0",
                "12.3.4", "21.3.4", "1.2147483647.0", "1.2147483648.0", "1.2147483647.1", "1.4294967296.0", "1.9223372036854775807.0", "1.9223372036854775808.0", "1.0.99999999999999999999", "1.0.100000000000000000000",
                "1.1.1.1.1", "1.1.1.1.2", "1.01.1", "1.1.1", "01.1.1", "1.1.01", "1.00.0", "3.2.1.0.0.0.0", "2147483648.0.0", "0.0.0", "0.0.0.1", "1.999.999", "1.1000.0", "20230115.1.2"));
        return new ArrayList<>(r);
    }

    static void c04(Ck c) {
        List<String> vs = versions(c.quick);
        if (c.space("all pairs", vs.size() + " versions, all ordered pairs x 6 operators x field/literal, literal/field and literal/literal")) {
            for (String x : vs) for (String y : vs) {
                Map<String, Object> d = G.data("x", x, "y", y);
                for (String op : CMPS) {
                    c.cond(cmp(op, f("x"), ver(y)), d);
                    c.cond(cmp(op, ver(x), f("y")), d);
                    c.cond(cmp(op, ver(x), ver(y)), d);
                }
            }
        }
        if (c.space("short data", "text of one to three segments in the data against literals of three or more, both sides x 6 operators")) {
            String[] shorts = {"0", "1", "2", "9", "10", "1.0", "1.1", "1.5", "1.10", "0.0", "2.0", "10.0", "1.9999999999", "1.5.9", "1.5.10"};
            for (String x : shorts) for (String y : vs) {
                Map<String, Object> d = G.data("x", x);
                for (String op : CMPS) { c.cond(cmp(op, f("x"), ver(y)), d); c.cond(cmp(op, ver(y), f("x")), d); }
            }
        }
        if (c.space("membership", "versions in IN and NOT IN lists at every position, and in CONTAINS")) {
            List<String> few = Arrays.asList("1.5.9", "1.5.10", "1.5.9.0", "1.5.9.1", "2.0.0", "10.0.0", "1.0.0", "0.0.0", "12.3.4", "1.9223372036854775808.0");
            for (String x : vs) for (String y : few) for (String z : few) {
                Map<String, Object> d = G.data("x", x, "l", Arrays.asList(x, z));
                c.cond(in("x", ver(y), ver(z)), d);
                c.cond(notIn("x", ver(y), ver(z)), d);
                c.cond(any("l", ver(y)), d);
                c.cond(all("l", ver(y), ver(z)), d);
            }
        }
        if (c.space("long lists", "lists of 1..12 (thorough 40) version items and collections of 1..12 version texts, the equal one at each place, written the same, with zero segments added or left out, with leading zeros; and none equal")) {
            String[][] forms = {{"1.5.9", "1.5.9"}, {"1.5.9", "1.5.9.0"}, {"1.5.9.0", "1.5.9"}, {"1.5.9", "1.05.9"}, {"1.5.0", "1.5.0.0.0"}, {"1.5", "1.5.0"}, {"2", "2.0.0"}, {"1.5.10", "1.5.1"}, {"1.5.9", "1.5.90"}, {"1.10.0", "1.9.10"}};
            for (int n = 1; n <= (c.quick ? 12 : 40); n++) for (int at = -1; at < n; at++) for (String[] q : forms) {
                if (q[1].split("\\.").length < 3) continue;
                E[] l = new E[n];
                List<Object> texts = new ArrayList<>();
                for (int j = 0; j < n; j++) { String t = j == at ? q[1] : (j + 3) + "." + j + ".7"; l[j] = ver(t); texts.add(t); }
                Map<String, Object> d = G.data("x", q[0], "l", texts);
                c.cond(in("x", l), d);
                c.cond(notIn("x", l), d);
                if (q[0].split("\\.").length >= 3) {
                    c.cond(any("l", ver(q[0])), d);
                    c.cond(all("l", ver(q[0]), ver("3.0.7")), d);
                    E[] m = l.clone();
                    c.cond(any("m", m), G.data("m", Arrays.asList("77.7.7", q[0])));
                    c.cond(all("m", m), G.data("m", new ArrayList<>(texts)));
                }
            }
        }
        if (c.space("segments", "versions of 3..12 segments: one segment changed at each position, trailing zero segments added, x 6 operators")) {
            for (int n = 3; n <= (c.quick ? 8 : 16); n++) for (int pos = 0; pos < n; pos++) for (int k = 0; k < 4; k++) {
                String[] a = new String[n], b = new String[n];
                for (int i = 0; i < n; i++) a[i] = b[i] = String.valueOf((i * 3 + 1) % 7 + (k == 3 ? 40 : 0));
                b[pos] = k == 0 ? new BigInteger(b[pos]).add(BigInteger.ONE).toString() : k == 1 ? b[pos] + "0" : k == 2 ? "0" : "100";
                for (int pad = 0; pad <= 2; pad++) {
                    String x = String.join(".", a) + ".0".repeat(pad), y = String.join(".", b);
                    for (String[] p : new String[][]{{x, y}, {y, x}, {x, String.join(".", a)}}) {
                        Map<String, Object> d = G.data("x", p[0], "y", p[1]);
                        for (String op : CMPS) { c.cond(cmp(op, f("x"), ver(p[1])), d); c.cond(cmp(op, ver(p[0]), f("y")), d); c.cond(cmp(op, ver(p[0]), ver(p[1])), d); }
                    }
                }
            }
        }
        if (c.space("long versions", "versions of sizes round 4, 8, 16, ... 64 (thorough 300) segments, or with a segment of that many digits: one segment or digit changed at the ends, the middle and round each limit, zero segments added, a segment more x 6 operators; in IN and CONTAINS")) {
            for (int n : G.sizes(c.quick ? 65 : 301)) for (int k = 0; k < 5; k++) for (int pos : G.places(n)) {
                if (c.quick && k == 4 && pos % 2 == 0 && pos != n - 1) continue;
                StringBuilder x = new StringBuilder(k >= 3 ? "1.2." : ""), y = new StringBuilder(x);
                for (int j = 0; j < n; j++) {
                    int q = (j * 3 + 1) % 7, r = j != pos ? q : k == 1 ? q * 10 : k == 2 ? 0 : q + 1;
                    String sep = j == 0 || k >= 3 ? "" : ".";
                    x.append(sep).append(k == 4 ? 9 - q : q + (k >= 3 ? 1 : 0)); y.append(sep).append(k == 4 ? 9 - q - (j == pos ? 1 : 0) : r + (k >= 3 ? 1 : 0));
                }
                if (k == 4) { x.append(".5"); y.append(".5"); }
                String[][] ps = {{"" + x, "" + y}, {"" + y, "" + x}, {"" + x, "" + x}, {x + ".0", "" + x}, {"" + x, y + ".0.0"}, {x + ".1", "" + x}};
                for (String[] p : ps) {
                    Map<String, Object> d = G.data("x", p[0], "y", p[1], "l", Arrays.asList("7.7.7", p[0]));
                    for (String op : CMPS) { c.cond(cmp(op, f("x"), ver(p[1])), d); c.cond(cmp(op, ver(p[0]), f("y")), d); c.cond(cmp(op, ver(p[0]), ver(p[1])), d); }
                    c.cond(in("x", ver("8.8.8"), ver(p[1])), d);
                    c.cond(notIn("x", ver(p[1])), d);
                    c.cond(any("l", ver(p[1]), ver("8.8.8")), d);
                }
            }
        }
        if (c.space("context", "version comparisons inside AND, OR and NOT, and with nested fields")) {
            List<String> few = vs.subList(0, Math.min(vs.size(), 60));
            for (String x : few) for (String y : few) {
                Map<String, Object> d = G.data("app", G.data("v", x), "t", true);
                c.cond(and(f("t"), cmp(">=", f("app.v"), ver(y))), d);
                c.cond(not(cmp("<", f("app.v"), ver(y))), d);
                c.cond(or(cmp("=", f("app.v"), ver(y)), cmp("!=", ver(y), f("app.v"))), d);
            }
        }
    }

    // ---- dates ----------------------------------------------------------------------------------

    static final String[] DATES = {"0001-01-01", "0099-12-31", "1582-10-15", "1899-12-31", "1900-01-01", "1900-02-28", "1900-03-01", "1969-12-31", "1970-01-01", "1999-12-31", "2000-01-01", "2000-02-28", "2000-02-29", "2000-03-01",
        "2001-09-09", "2019-12-31", "2020-02-29", "2020-12-31", "2021-01-01", "2022-12-31", "2023-01-01", "2023-01-02", "2023-01-10", "2023-01-31", "2023-02-01", "2023-02-28", "2023-03-01", "2023-09-30", "2023-10-01", "2023-10-10", "2023-11-09",
        "2023-12-01", "2023-12-25", "2023-12-31", "2024-01-01", "2024-02-28", "2024-02-29", "2024-03-01", "2024-12-31", "2025-01-01", "2038-01-19", "2038-01-20", "2099-12-31", "2100-02-28", "2100-03-01", "9999-12-31", "2023-08-08", "2023-09-09", "2023-05-15", "2024-05-15"};
    static final String[] TIMES = {"00:00:00", "00:00:01", "00:59:59", "01:00:00", "09:30:00", "11:59:59", "12:00:00", "12:00:01", "13:00:00", "23:59:58", "23:59:59"};

    static List<Rep> dateReps(String s) {
        return Arrays.asList(new Rep("lit", date(s), null), new Rep("text", null, s), new Rep("object", null, LocalDate.parse(s)));
    }
    static List<Rep> dtReps(String s) {
        return Arrays.asList(new Rep("lit", dt(s), null), new Rep("text", null, s), new Rep("object", null, LocalDateTime.parse(s.replace(' ', 'T'))));
    }

    static void c05(Ck c) {
        if (c.space("date pairs", DATES.length + " dates, all ordered pairs x {literal, date object, text}^2 x 6 operators")) {
            for (String x : DATES) for (String y : DATES) for (Rep rx : dateReps(x)) for (Rep ry : dateReps(y)) pair(c, rx, ry, CMPS);
        }
        if (c.space("datetime pairs", "5 dates x " + TIMES.length + " times, all ordered pairs x {literal, object, text}^2 x 6 operators")) {
            List<String> l = new ArrayList<>();
            for (String x : c.quick ? new String[]{"2023-12-31", "2024-01-01", "2024-02-29"} : new String[]{"1969-12-31", "2023-12-31", "2024-01-01", "2024-02-29", "2024-03-01"}) for (String t : TIMES) l.add(x + " " + t);
            for (String x : l) for (String y : l) for (Rep rx : dtReps(x)) for (Rep ry : dtReps(y)) pair(c, rx, ry, CMPS);
        }
        if (c.space("every day", "every day of 2023 and 2024 (thorough: 1999-2026) against the days before, itself and after, 10 and 31 days on, as literal, object and text x 6 operators")) {
            LocalDate from = LocalDate.of(c.quick ? 2023 : 1999, 1, 1), to = LocalDate.of(c.quick ? 2024 : 2026, 12, 31);
            for (LocalDate q = from; !q.isAfter(to); q = q.plusDays(1)) for (int k : new int[]{-1, 0, 1, 10, 31})
                for (Rep rx : dateReps(q.toString())) for (Rep ry : dateReps(q.plusDays(k).toString())) if (!c.quick || rx.name().equals("text") || ry.name().equals("lit")) pair(c, rx, ry, c.quick ? new String[]{"=", "<", ">="} : CMPS);
        }
        if (c.space("which days exist", "month 00..13 x day 00..32 of 4 (thorough 12) years: as a literal a failure exactly when the day does not exist; as text in the data never equal to an existing day")) {
            int[] years = c.quick ? new int[]{1900, 2000, 2023, 2024} : new int[]{1, 4, 100, 400, 1600, 1900, 1999, 2000, 2023, 2024, 2100, 9999};
            for (int y : years) for (int m = 0; m <= 13; m++) for (int q = 0; q <= 32; q++) {
                String s = String.format("%04d-%02d-%02d", y, m, q);
                Map<String, Object> d = G.data("x", s, "o", LocalDate.of(y, 6, 15), "l", Arrays.asList(s));
                boolean ok = V.asDate(s) != null;
                for (String op : CMPS) {
                    c.cond(cmp(op, f("o"), date(s)), d);
                    c.cond(cmp(op, date(s), f("o")), d);
                    c.cond(cmp(op, date(s), date(s)), d);
                    if (ok) { c.cond(cmp(op, f("x"), f("o")), d); c.cond(cmp(op, f("x"), date(s)), d); }
                }
                c.cond(in("o", date(s)), d);
                c.val(date(s), d);
                if (!ok) for (int k = -3; k <= 3; k++) {
                    // neither the neighbouring days nor the days it might be rolled to
                    LocalDate near = LocalDate.of(y, Math.min(12, Math.max(1, m)), 1).plusDays(Math.max(0, q - 1) + k);
                    if (near.getYear() < 1 || near.getYear() > 9999) continue;
                    Map<String, Object> e = G.data("x", s, "o", near);
                    for (String op : new String[]{"=", "!="}) {
                        c.cond(cmp(op, f("x"), date(near.toString())), e);
                        c.cond(cmp(op, f("x"), f("o")), e);
                        c.cond(cmp(op, f("o"), f("x")), e);
                    }
                }
            }
        }
        if (c.space("which times exist", "hours 00..25 x minutes and seconds {00,01,59,60,61,99}: as literal, text and against neighbours")) {
            int[] ms = {0, 1, 59, 60, 61, 99};
            for (String day : new String[]{"2024-02-29", "2023-02-29", "2023-12-31"}) for (int h = 0; h <= 25; h++) for (int m : ms) for (int q : ms) {
                String s = String.format("%s %02d:%02d:%02d", day, h, m, q);
                boolean ok = V.asDateTime(s) != null;
                LocalDateTime o = LocalDateTime.of(2024, 1, 1, 0, 0, 0);
                Map<String, Object> d = G.data("x", s, "o", o);
                for (String op : CMPS) {
                    c.cond(cmp(op, f("o"), dt(s)), d);
                    c.cond(cmp(op, dt(s), dt(s)), d);
                    if (ok) { c.cond(cmp(op, f("x"), f("o")), d); c.cond(cmp(op, f("x"), dt(s)), d); }
                }
                if (!ok && V.asDate(day) != null) {
                    LocalDateTime near = LocalDate.parse(day).atStartOfDay().plusHours(h).plusMinutes(m).plusSeconds(q);
                    for (int k = -1; k <= 1; k++) {
                        Map<String, Object> e = G.data("x", s, "o", near.plusSeconds(k));
                        c.cond(cmp("=", f("x"), f("o")), e);
                        c.cond(cmp("!=", f("o"), f("x")), e);
                    }
                }
            }
        }
        if (c.space("beyond text", "date and datetime objects with fractions of a second, of years before 1 and after 9999 and at the ends of the range, all ordered pairs and against literals and text x 6 operators; with the comparison in IN, CONTAINS, NOT")) {
            List<LocalDateTime> ts = new ArrayList<>();
            for (String day : new String[]{"2023-12-31", "2024-01-01"}) for (String t : new String[]{"00:00:00", "12:00:00", "23:59:59"}) for (int nano : new int[]{0, 1, 999, 1000, 999_999, 1_000_000, 500_000_000, 999_000_000, 999_999_999}) ts.add(LocalDateTime.parse(day + "T" + t).withNano(nano));
            for (int y : new int[]{-999999999, -10000, -9999, -1, 0, 9999, 10000, 10001, 99999, 100000, 999999999}) { ts.add(LocalDateTime.of(y, 1, 1, 0, 0, 0)); ts.add(LocalDateTime.of(y, 12, 31, 23, 59, 59, 5)); }
            // the ends of int and long counts of seconds, milliseconds, microseconds and nanoseconds
            for (long[] u : new long[][]{{1L << 31, 1}, {1L << 32, 1}, {Long.MAX_VALUE / 1_000_000_000, 1}, {Long.MAX_VALUE / 1_000_000, 1}, {Long.MAX_VALUE / 1000, 1}}) for (long s : new long[]{-1, 1}) for (long k = -1; k <= 1; k++) {
                long sec = s * u[0] + k;
                if (Math.abs(sec) < 31_000_000_000_000_000L) ts.add(LocalDateTime.ofEpochSecond(sec, 0, java.time.ZoneOffset.UTC));
            }
            for (LocalDateTime x : ts) {
                for (LocalDateTime y : ts) {
                    pair(c, new Rep("object", null, x), new Rep("object", null, y), CMPS);
                    if (x.getNano() != 0 || y.getYear() > 9999 || y.getYear() < 1) { c.cond(in("x", dt("2001-01-01 00:00:00"), f("y")), G.data("x", x, "y", y)); c.cond(any("l", f("y")), G.data("y", y, "l", Arrays.asList(x))); c.cond(not(cmp("<", f("x"), f("y"))), G.data("x", x, "y", y)); }
                }
                for (String t : new String[]{"2023-12-31 00:00:00", "2023-12-31 12:00:00", "2023-12-31 23:59:59", "2024-01-01 00:00:00", "0001-01-01 00:00:00", "9999-12-31 23:59:59", "1000-01-01 00:00:00"}) for (Rep r : dtReps(t)) { pair(c, new Rep("object", null, x), r, CMPS); pair(c, r, new Rep("object", null, x), CMPS); }
            }
            List<LocalDate> ds = new ArrayList<>(Arrays.asList(LocalDate.MIN, LocalDate.MAX, LocalDate.EPOCH));
            for (int y : new int[]{-100000, -10000, -9999, -1000, -2024, -1, 0, 1, 999, 1000, 2024, 9999, 10000, 10001, 20240, 99999, 100000, 202401}) { ds.add(LocalDate.of(y, 1, 1)); ds.add(LocalDate.of(y, 2, 28)); ds.add(LocalDate.of(y, 12, 31)); }
            // the ends of short, int and unsigned int counts of days
            for (long n : new long[]{1L << 15, 1L << 16, 1L << 31, 1L << 32, 1L << 33}) for (long s : new long[]{-1, 1}) for (long k = -1; k <= 1; k++) ds.add(LocalDate.ofEpochDay(s * n + k));
            for (LocalDate x : ds) {
                for (LocalDate y : ds) {
                    pair(c, new Rep("object", null, x), new Rep("object", null, y), CMPS);
                    c.cond(in("x", date("2001-01-01"), f("y")), G.data("x", x, "y", y));
                    c.cond(any("l", f("y")), G.data("y", y, "l", Arrays.asList(x)));
                }
                for (String t : new String[]{"0001-01-01", "0999-12-31", "1000-01-01", "2024-01-01", "2024-12-31", "9999-12-31"}) for (Rep r : dateReps(t)) { pair(c, new Rep("object", null, x), r, CMPS); pair(c, r, new Rep("object", null, x), CMPS); }
            }
        }
        if (c.space("long lists", "lists of 1..10 (thorough 40) dates, datetimes, and both, the equal one at each place, as literals, objects and text; collections likewise")) {
            for (int n = 1; n <= (c.quick ? 10 : 40); n++) for (int at = -1; at < n; at++) for (int k = 0; k < 6; k++) {
                E[] l = new E[n];
                Map<String, Object> d = G.data();
                List<Object> objs = new ArrayList<>(), texts = new ArrayList<>();
                boolean time = k % 2 == 1;
                for (int j = 0; j < n; j++) {
                    LocalDate q = j == at ? LocalDate.of(2024, 2, 29) : LocalDate.of(2024, 2, 29).plusDays(j % 2 == 0 ? j + 1 : -1 - j);
                    String t = q + (time ? " 10:00:00" : "");
                    Object o = time ? (Object) q.atTime(10, 0, 0) : q;
                    objs.add(o); texts.add(t);
                    l[j] = k / 2 == 0 ? time ? dt(t) : date(t) : f("f" + j);
                    d.put("f" + j, k / 2 == 1 ? o : t);
                }
                Lit it = time ? dt("2024-02-29 10:00:00") : date("2024-02-29");
                Object self = time ? (Object) LocalDateTime.of(2024, 2, 29, 10, 0, 0) : LocalDate.of(2024, 2, 29);
                d.put("o", self); d.put("s", it.text()); d.put("lo", objs); d.put("lt", texts);
                for (String x : new String[]{"o", "s"}) { c.cond(in(x, l), d); c.cond(notIn(x, l), d); c.cond(in(x, f("lo")), d); c.cond(in(x, f("lt")), d); }
                c.cond(any("lo", it), d); c.cond(any("lt", it), d); c.cond(all("lo", it, l[0]), d);
                c.cond(any("lo", l), d); c.cond(all("lo", l), d);
            }
        }
        if (c.space("membership and context", "dates and datetimes in IN, NOT IN and CONTAINS, under NOT and AND, nested fields")) {
            for (String x : DATES) for (String y : DATES) for (Object o : new Object[]{x, LocalDate.parse(x)}) {
                Map<String, Object> d = G.data("x", o, "n", G.data("d", o), "l", Arrays.asList(o, LocalDate.parse("2011-11-11")));
                c.cond(in("x", date("2010-10-10"), date(y)), d);
                c.cond(notIn("n.d", date(y)), d);
                c.cond(not(cmp("<", f("n.d"), date(y))), d);
                c.cond(and(cmp("<=", f("x"), date(y)), cmp(">=", f("x"), date(y))), d);
                if (o instanceof LocalDate) c.cond(any("l", date(y)), d);
            }
        }
    }

    // ---- text and booleans ----------------------------------------------------------------------

    static final String[] TEXTS = {"", " ", "a", "A", "b", "B", "ab", "aB", "Ab", "AB", "abc", "abd", "a ", " a", "a b", "a  b", "a\tb", "ä", "Ä", "z", "Z", "\u00df", "ss", "\u0130", "i", "I", "\u0131", "日本", "\ud83d\ude00", "x'y", "\"q\"", "null", "NULL", "true", "True",
        "AND", "a AND b", "(a)", "a=1", "-", "_", "%", "hello world", "abcdefghijklmnopqrstuvwxyz", "e\u0301", "\u00e9", "a\nb", "\\", "\\n"};

    static Lit text(String s) { return s.contains("'") ? s2(s) : s.contains("\"") ? new Lit("'" + s + "'", V.str(s)) : s(s); }
    static List<Rep> textReps(String s) {
        List<Rep> r = new ArrayList<>();
        r.add(new Rep("lit", text(s), null));
        if (!s.contains("'") && !s.contains("\"")) r.add(new Rep("lit2", s2(s), null));
        r.add(new Rep("field", null, s));
        return r;
    }

    /** the stack a caller's thread has when nobody says otherwise */
    static Ck.Bad onDefaultStack(java.util.concurrent.Callable<Ck.Bad> body) {
        Object[] r = new Object[1];
        long[] steps = {0};
        Thread t = new Thread(null, () -> { try { r[0] = body.call(); } catch (Throwable e) { r[0] = e; } steps[0] = Ref.STEPS.get()[0]; }, "d", 1L << 20);
        t.start();
        try { t.join(); } catch (InterruptedException e) { throw new IllegalStateException(e); }
        Ref.STEPS.get()[0] += steps[0];
        if (r[0] instanceof Throwable e) throw new IllegalStateException(e);
        return (Ck.Bad) r[0];
    }

    static void c06(Ck c) {
        if (c.space("text pairs", TEXTS.length + " texts (case, blanks, quotes, unicode, keyword look-alikes, empty), all ordered pairs x {both quotings, field}^2 x 6 operators")) {
            for (String x : TEXTS) for (String y : TEXTS) for (Rep rx : textReps(x)) for (Rep ry : textReps(y)) pair(c, rx, ry, CMPS);
        }
        if (c.space("long texts", "texts of 1..130 characters differing in one character at each position, or in length x 6 operators")) {
            for (int n = 1; n <= (c.quick ? 40 : 130); n++) for (int p = 0; p <= n; p++) {
                StringBuilder b = new StringBuilder();
                for (int i = 0; i < n; i++) b.append((char) ('b' + i * 7 % 23));
                String x = b.toString();
                String y = p == n ? x + "b" : x.substring(0, p) + (char) (x.charAt(p) - (p % 2 == 0 ? 32 : -1)) + x.substring(p + 1);
                for (Rep rx : textReps(x)) for (Rep ry : textReps(y)) { pair(c, rx, ry, CMPS); pair(c, ry, rx, "=", "<"); }
                pair(c, new Rep("f", null, x), new Rep("f", null, new String(x)), CMPS);
            }
        }
        if (c.space("sizes", "texts of sizes round 64, 128, ... 5000 (thorough 65536) that differ in one character at the ends, the middle and round each of these limits, in case, or in length x 6 operators")) {
            for (int n : G.sizes(c.quick ? 5001 : 65537)) {
                if (n < 40) continue;
                StringBuilder b = new StringBuilder();
                for (int i = 0; i < n; i++) b.append((char) ('b' + i * 7 % 23));
                String x = b.toString();
                for (int p : G.places(n)) for (int k = 0; k < 2; k++) {
                    if (n > 1100 && c.quick && p % 3 == k) continue;
                    String y = x.substring(0, p) + (k == 0 ? Character.toUpperCase(x.charAt(p)) : (char) (x.charAt(p) + 1)) + x.substring(p + 1);
                    Rep rx = new Rep("field", null, x), ry = new Rep("field", null, y);
                    pair(c, rx, ry, "=", "!=", "<", ">=");
                    pair(c, new Rep("lit", text(x), null), ry, "=", ">");
                }
                pair(c, new Rep("field", null, x), new Rep("lit", text(x), null), CMPS);
                pair(c, new Rep("field", null, x + "b"), new Rep("field", null, x), CMPS);
                pair(c, new Rep("field", null, x + " "), new Rep("lit", text(x), null), CMPS);
            }
        }
        if (c.space("very long texts", "texts of 20000 to 400000 (thorough 2000000) characters: one kind of character (digits, letters, blanks, colons, dots, dashes, quotes, accents) or two alternating, or after the beginning of a number, date or version, equal, longer, or differing in the first or last character, as data on both sides x 6 operators")) {
            String[] kinds = {"7", "0", "x", " ", ":", ".", "-", "/", "'", "é", "10", "1 ", "a ", "1.", "-1", "1:", "ab", "aA", "e1", "\n", "1,", "+1", "T0"};
            String[] heads = {"", "1.5", "2024-01-31", "2024-01-31 10:00:00", "1.2.3", "-", "true"};
            for (int n : c.quick ? new int[]{20_000, 200_000, 400_000} : new int[]{20_000, 70_000, 200_000, 400_000, 2_000_000}) for (String k : kinds) for (String h : heads) {
                if (c.quick && n != 200_000 && !h.isEmpty()) continue;
                String x = h + k.repeat(n / k.length());
                c.heavy(w -> onDefaultStack(() -> {
                    String[] ys = {new String(x), x + k, x.substring(0, x.length() - 1) + "z", "z" + x.substring(1)};
                    for (int q = 0; q < ys.length; q++) for (String op : CMPS) {
                        if (q > 0 && !op.equals("=") && !op.equals("!=")) continue;
                        Map<String, Object> d = G.data("f", x, "g", ys[q]);
                        // ordering of texts is decided elsewhere; equality holds of text that is no number only when it is the same
                        boolean number = h.isEmpty() && (k.equals("7") || k.equals("0") || k.equals("10"));
                        if (q > 0 && number) continue;
                        if (!op.equals("=") && !op.equals("!=")) { Impl.Got g = w.impl.cond("f " + op + " g", d, null); w.count(true); if (g.broken()) return new Ck.Bad("f " + op + " g", G.data("f", h + k + "... " + n), null, "true, false or a failure", g.toString()); continue; }
                        Impl.Got g = w.impl.cond("f " + op + " g", d, null);
                        w.count(true); Ref.STEPS.get()[0]++;
                        c.state("vl" + q + op, h + k, null, "" + n);
                        boolean want = (q == 0) == op.equals("=");
                        if (!g.ok() || !g.value().equals(want)) return new Ck.Bad("f " + op + " g, both of " + x.length() + " characters: " + Ck.cut(x, 40) + (q == 0 ? ", equal" : ", different"), G.data("f", h + k + " repeated", "n", n), null, "" + want, g.toString())
                            .snippet("String x = " + Replay.lit(h) + " + " + Replay.lit(k) + ".repeat(" + n / k.length() + ");\nMap<String, Object> data = new HashMap<>();\ndata.put(\"f\", x);\ndata.put(\"g\", " + new String[]{"new String(x)", "x + " + Replay.lit(k), "x.substring(0, x.length() - 1) + \"z\"", "\"z\" + x.substring(1)"}[q] + ");\nshow(new BooleanExpressionEvaluator(new BoolParser()).evaluate(\"f " + op + " g\", data));\n");
                    }
                    return null;
                }));
            }
        }
        if (c.space("equal hashes", "texts of 2..130 characters with one hash code (every choice of Aa and BB in blocks, C# and Bb, with equal beginnings, middles and ends), all ordered pairs x literal and field x 6 operators, in IN, NOT IN, CONTAINS with 1..5 others, as lists in the data")) {
            List<String[]> groups = new ArrayList<>();
            for (String wrap : new String[]{"%", "Customer%-2024", "%-long-enough-tail-of-a-text", "a-rather-long-head-of-text-%", "x".repeat(60) + "%" + "y".repeat(60), " %", "% %", "%%", "%.%.%", "日%本"}) {
                groups.add(new String[]{wrap.replace("%", "Aa"), wrap.replace("%", "BB")});
                groups.add(new String[]{wrap.replace("%", "AaAa"), wrap.replace("%", "AaBB"), wrap.replace("%", "BBAa"), wrap.replace("%", "BBBB")});
                groups.add(new String[]{wrap.replace("%", "C#"), wrap.replace("%", "Bb")});
                groups.add(new String[]{wrap.replace("%", "\0\0"), wrap.replace("%", "\0"), wrap.replace("%", "")});
            }
            for (String[] g : groups) for (String x : g) for (String y : g) {
                for (Rep rx : textReps(x)) for (Rep ry : textReps(y)) pair(c, rx, ry, CMPS);
                for (int n = 1; n <= 5; n++) for (int at = 0; at < n; at++) {
                    E[] l = new E[n];
                    List<Object> o = new ArrayList<>();
                    for (int j = 0; j < n; j++) { String t = j == at ? y : "z" + j; l[j] = text(t); o.add(t); }
                    Map<String, Object> d = G.data("x", x, "l", o, "s", new LinkedHashSet<>(o));
                    c.cond(in("x", l), d); c.cond(notIn("x", l), d); c.cond(in("x", f("l")), d);
                    c.cond(any("l", text(x)), d); c.cond(all("s", text(x)), d); c.cond(any("s", text("q"), text(x)), d);
                }
            }
        }
        String[] nonNum = {"abc", "", "x1", "1x", "-", "+", "e", "null", "true", "one", "1,5", "0x10", "$5", "1 2", "a.b", "NaN", "Infinity"};
        if (c.space("numbers against text", "16 numbers in every representation against " + nonNum.length + " texts that are no numbers, both sides x 6 operators")) {
            for (String n : new String[]{"0", "1", "-1", "5", "128", "2147483648", "9223372036854775807", "0.5", "-1.5", "1.0000001", "100", "12345678901234567890.12345", "3", "-7", "42", "10"})
                for (Rep rn : reps(n)) for (String t : nonNum) for (Rep rt : textReps(t)) { pair(c, rn, rt, CMPS); pair(c, rt, rn, CMPS); }
        }
        if (c.space("numbers against numeric text", "numbers against text that is a number: equality of identical spelling, no wrong ordering")) {
            String[] nt = {"0", "1", "-1", "5", "9", "10", "128", "129", "2147483648", "9223372036854775807", "0.5", "1.5", "01", "1.0", "+5", "1e3", "100"};
            for (String n : new String[]{"0", "1", "-1", "5", "9", "10", "128", "2147483648", "9223372036854775807", "0.5", "1.5", "100"})
                for (Rep rn : reps(n)) for (String t : nt) for (Rep rt : textReps(t)) { pair(c, rn, rt, CMPS); pair(c, rt, rn, CMPS); }
        }
        if (c.space("numbers in blanks", "numbers against text that is a number but for blanks, signs, separators or letters round it, both sides x 6 operators")) {
            String[] core = {"0", "5", "-5", "42", "128", "2147483648", "6000000000", "9223372036854775808", "1.5", "0.10", "1e3"};
            String[] wrap = {" %", "% ", " % ", "\t%", "%\n", "\u00a0%", "%\u00a0", "\u3000%", "%L", "%l", "%d", "%f", "%D", "%F", "'%", "%%", "+%", "--%", "_%", "%_", "%.", ".%", "0x%", "%e", "%e+", "%,000", "(%)", "\u0000%", "%\u0000", "\u200b%", "- %"};
            for (String n : core) for (String k : wrap) {
                String t = k.replace("%", n);
                if (V.looksNumeric(t)) continue;
                for (String v : new String[]{"0", "5", "42", "-7", "6000000000", "5999999999", "2147483648", "1.5", "100000000000000000000.5", "1000"}) for (Rep rn : reps(v)) {
                    if (rn.name().equals("scaled") || rn.name().equals("float")) continue;
                    Rep rt = new Rep("field", null, t);
                    pair(c, rn, rt, CMPS);
                    pair(c, rt, rn, CMPS);
                    if (!t.contains("'")) pair(c, new Rep("lit", text(t), null), rn, "=", "<", ">=");
                }
            }
        }
        if (c.space("booleans", "true/false (literals in both cases, fields) against each other, numbers, texts, dates, versions, lists, both sides x 6 operators")) {
            List<Rep> bs = new ArrayList<>(Arrays.asList(new Rep("true", b(true), null), new Rep("false", b(false), null), new Rep("TRUE", new Lit("TRUE", V.bool(true)), null), new Rep("FALSE", new Lit("FALSE", V.bool(false)), null),
                    new Rep("ft", null, true), new Rep("ff", null, false), new Rep("Boolean", null, Boolean.valueOf("true"))));
            List<Rep> others = new ArrayList<>(bs);
            for (String n : new String[]{"0", "1", "-1", "0.5", "2147483648"}) others.addAll(reps(n));
            for (String t : new String[]{"abc", "true", "false", "TRUE", "", "1", "0", "1.5.9", "2024-01-01"}) others.addAll(textReps(t));
            others.add(new Rep("date", date("2024-01-01"), null));
            others.add(new Rep("dt", dt("2024-01-01 10:00:00"), null));
            others.add(new Rep("ver", ver("1.5.9"), null));
            others.add(new Rep("LocalDate", null, LocalDate.of(2024, 1, 1)));
            for (Rep x : bs) for (Rep y : others) { pair(c, x, y, CMPS); pair(c, y, x, CMPS); }
        }
        if (c.space("conditions as operands", "a parenthesised condition compared with a boolean equals its truth value; ordering it is a failure")) {
            Map<String, Object> d = PLogic.DATA;
            for (E[] k : PLogic.KINDS) for (E x : k) for (E y : new E[]{b(true), b(false), f("t"), f("f")}) for (String op : CMPS) { c.cond(cmp(op, x instanceof Lit || x instanceof Fld ? x : x, y), d); c.cond(cmp(op, y, x), d); }
        }
        if (c.space("context", "text equality in IN, CONTAINS, NOT and AND: all pairs of 20 texts")) {
            for (int i = 0; i < 30; i++) for (int j = 0; j < 30; j++) {
                String x = TEXTS[i], y = TEXTS[j];
                Map<String, Object> d = G.data("x", x, "y", y, "l", Arrays.asList(x, "zzz"));
                c.cond(in("x", s("q"), text(y)), d);
                c.cond(notIn("x", f("y")), d);
                c.cond(any("l", text(y)), d);
                c.cond(all("l", text("zzz"), text(y)), d);
                c.cond(not(cmp("=", f("x"), text(y))), d);
                c.cond(or(cmp("=", text(y), f("x")), cmp("!=", f("y"), text(x))), d);
            }
        }
    }
}
