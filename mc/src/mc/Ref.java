package mc;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/**
 * The reference model: what an expression means on some data. Written from the documented semantics only; it shares no
 * code with the implementation. Where the documentation leaves the meaning open it says ANY (no verdict).
 */
final class Ref {
    /** evaluation steps of the model taken by this thread: the transitions reported as evidence */
    static final ThreadLocal<long[]> STEPS = ThreadLocal.withInitial(() -> new long[1]);

    final Map<String, Object> data;
    final String def;

    Ref(Map<String, Object> data, String def) { this.data = data; this.def = def == null || def.isBlank() ? null : def; }

    static Out cond(E e, Map<String, Object> data) { return cond(e, data, null); }
    static Out cond(E e, Map<String, Object> data, String def) { return ill(e, def == null || def.isBlank()) ? Out.FAIL : new Ref(data, def).cond(e); }
    static Out val(E e, Map<String, Object> data) { return ill(e, true) ? Out.FAIL : new Ref(data, null).val(e); }

    /** not an expression at all, whatever the data: a date that does not exist, or an operand left out without a default field */
    static boolean ill(E e, boolean noDefault) {
        return switch (e) {
            case E.Lit l -> l.val() == null;
            case E.Omit o -> noDefault;
            case E.Fld f -> false;
            case E.Null n -> false;
            case E.Neg n -> ill(n.e(), noDefault);
            case E.Bin b -> ill(b.l(), noDefault) || ill(b.r(), noDefault);
            case E.Cmp b -> ill(b.l(), noDefault) || ill(b.r(), noDefault);
            case E.Log b -> ill(b.l(), noDefault) || ill(b.r(), noDefault);
            case E.Not n -> ill(n.e(), noDefault);
            case E.Fn f -> ills(f.args(), noDefault);
            case E.In f -> ills(f.items(), noDefault);
            case E.Con f -> ills(f.items(), noDefault);
            case E.Rng r -> ill(r.lo(), noDefault) || ill(r.hi(), noDefault);
        };
    }
    private static boolean ills(List<E> l, boolean nd) { for (E e : l) if (ill(e, nd)) return true; return false; }

    // ---- fields ---------------------------------------------------------------------------------

    static Object lookup(String path, Map<String, Object> data) {
        Object cur = data;
        for (String p : path.split("\\.", -1)) {
            if (!(cur instanceof Map<?, ?> m)) return null;
            cur = m.get(p);
        }
        return cur;
    }

    private Out field(String path) {
        V v = V.ofData(lookup(path, data));
        return v == null ? Out.FAIL : Out.val(v);
    }

    // ---- conditions -----------------------------------------------------------------------------

    Out cond(E e) {
        STEPS.get()[0]++;
        switch (e) {
            case E.Lit l -> { return l.val() != null && l.val().k == V.K.BOOL ? Out.val(l.val()) : Out.ANY; }
            case E.Fld f -> {
                Out o = field(f.path());
                return o.isFail() || o.v().k == V.K.BOOL ? o : Out.FAIL;
            }
            case E.Not n -> {
                Out o = cond(n.e());
                return o.hasVal() ? new Out(o.kind(), V.bool(!o.truth())) : o;
            }
            case E.Log l -> {
                Out a = cond(l.l());
                if (!a.hasVal()) return a;
                if (a.truth() != l.and()) return a;
                Out b = cond(l.r());
                return a.isVal() ? b : b.weak();
            }
            case E.Cmp c -> { return comparison(c); }
            case E.Rng r -> {
                Out x = field(r.field());
                if (x.isFail()) return x;
                V v = x.v();
                if (v.k == V.K.STR && V.looksNumeric((String) v.v)) return Out.ANY;
                if (!v.isNum()) return v.k == V.K.OTHER || v.k == V.K.DATE || v.k == V.K.DT || v.k == V.K.LIST || v.k == V.K.BOOL || v.k == V.K.STR ? Out.FAIL : Out.ANY;
                return Out.of(v.num().compareTo(r.lo().val().num()) >= 0 && v.num().compareTo(r.hi().val().num()) <= 0);
            }
            case E.In i -> {
                Out o = membership(i);
                return i.not() && o.hasVal() ? new Out(o.kind(), V.bool(!o.truth())) : o;
            }
            case E.Con c -> { return containment(c); }
            default -> { return Out.FAIL; }   // arithmetic is no condition
        }
    }

    private static boolean isNull(E e) { return e instanceof E.Null; }

    private Out comparison(E.Cmp c) {
        boolean eq = c.op().equals("="), ne = c.op().equals("!=");
        if ((eq || ne) && (isNull(c.l()) || isNull(c.r()))) {
            if (isNull(c.l()) && isNull(c.r())) return Out.ANY;
            E x = isNull(c.r()) ? c.l() : c.r();
            if (x instanceof E.Omit) { if (def == null) return Out.FAIL; x = new E.Fld(def); }
            if (x instanceof E.Fld f) return Out.of(eq == (lookup(f.path(), data) == null));
            Out o = operand(x);
            return o.isVal() ? Out.of(!eq) : Out.ANY;
        }
        for (E x : new E[]{c.l(), c.r()}) if (x instanceof E.Null n) return lookup(n.text(), data) == null ? Out.FAIL : Out.ANY;
        Out l = operand(c.l()), r = operand(c.r());
        if (l.isFail() || r.isFail()) return Out.FAIL;
        if (!l.hasVal() || !r.hasVal()) return Out.ANY;
        if (l.v().approx || r.v().approx) {
            if (!l.v().isNum() || !r.v().isNum()) return Out.ANY;
            double diff = l.v().num().subtract(r.v().num()).doubleValue();
            if (Math.abs(diff) <= l.v().err + r.v().err) return Out.ANY;
            Out o = Out.of(holds(c.op(), diff < 0 ? -1 : 1));
            return l.isVal() && r.isVal() ? o : o.weak();
        }
        Out o = compare(c.op(), l.v(), r.v());
        return l.isVal() && r.isVal() ? o : o.weak();
    }

    /** an operand of a comparison: a value, or a nested condition */
    Out operand(E e) {
        if (e instanceof E.Omit) return def == null ? Out.FAIL : field(def);
        return e instanceof E.Cmp || e instanceof E.Log || e instanceof E.Not || e instanceof E.In || e instanceof E.Con || e instanceof E.Rng ? cond(e) : val(e);
    }

    static boolean holds(String op, int c) {
        return switch (op) { case "=" -> c == 0; case "!=" -> c != 0; case ">" -> c > 0; case ">=" -> c >= 0; case "<" -> c < 0; default -> c <= 0; };
    }

    static Out compare(String op, V a, V b) {
        STEPS.get()[0]++;
        boolean eqop = op.equals("=") || op.equals("!=");
        if (a.isNum() && b.isNum()) return Out.of(holds(op, a.num().compareTo(b.num())));
        if (a.k == V.K.BOOL || b.k == V.K.BOOL) {
            if (!eqop) return Out.FAIL;
            if (a.k == V.K.BOOL && b.k == V.K.BOOL) return Out.of(holds(op, a.v.equals(b.v) ? 0 : 1));
            // never equal to anything else; whether its own spelling as text is the same is left open
            V bo = a.k == V.K.BOOL ? a : b, o = a.k == V.K.BOOL ? b : a;
            if (o.k == V.K.STR && date(o) == null && dateTime(o) == null) return ((String) o.v).equals(bo.v.toString()) ? Out.ANY : Out.of(holds(op, 1));
            return o.k == V.K.OTHER || o.k == V.K.LIST ? Out.ANY : Out.orFail(V.bool(holds(op, 1)));
        }
        if (a.k == V.K.OTHER || b.k == V.K.OTHER || a.k == V.K.LIST || b.k == V.K.LIST) return Out.ANY;
        LocalDate da = date(a), db = date(b);
        if (da != null && db != null) return Out.of(holds(op, da.compareTo(db)));
        LocalDateTime ta = dateTime(a), tb = dateTime(b);
        if (ta != null && tb != null) return Out.of(holds(op, ta.compareTo(tb)));
        if (a.k == V.K.STR && b.k == V.K.STR && da == null && db == null && ta == null && tb == null) {
            String x = (String) a.v, y = (String) b.v;
            if (eqop) return Out.of(holds(op, x.equals(y) ? 0 : 1));
            if (special(x) || special(y)) return Out.ANY;
            return Out.of(holds(op, x.compareTo(y)));
        }
        if (a.k == V.K.VER || b.k == V.K.VER) {
            String x = version(a), y = version(b);
            if (x != null && y != null) return Out.of(holds(op, V.compareVersions(x, y)));
            V o = a.k == V.K.VER ? b : a;
            if (eqop && o.k == V.K.STR && da == null && db == null && ta == null && tb == null && (((String) o.v).isEmpty() || Character.isLetter(((String) o.v).charAt(0)))) return Out.orFail(V.bool(holds(op, 1)));
            return Out.ANY;
        }
        if (da != null || db != null || ta != null || tb != null) {
            // a date against something that is no date of the same sort
            V o = da != null || ta != null ? b : a;
            if (eqop && o.k == V.K.STR && date(o) == null && dateTime(o) == null) return Out.of(holds(op, 1));
            if (o.isNum() && !eqop) return Out.FAIL;
            return Out.ANY;
        }
        if (a.isNum() != b.isNum()) {
            V n = a.isNum() ? a : b, s = a.isNum() ? b : a;
            if (s.k != V.K.STR) return Out.ANY;
            String t = (String) s.v;
            if (!V.looksNumeric(t)) return eqop ? Out.of(holds(op, 1)) : Out.FAIL;
            BigDecimal tn = new BigDecimal(t);
            if (eqop) {
                if (tn.compareTo(n.num()) != 0) return Out.of(holds(op, 1));
                return n.k == V.K.INT && t.equals(n.num().toPlainString()) ? Out.of(holds(op, 0)) : Out.ANY;
            }
            return Out.orFail(V.bool(holds(op, a.isNum() ? n.num().compareTo(tn) : tn.compareTo(n.num()))));
        }
        return Out.ANY;
    }

    private static boolean special(String s) { return V.looksNumeric(s.trim()) || V.looksVersion(s) || V.dateShaped(s); }
    private static String version(V v) {
        if (v.k == V.K.VER) return (String) v.v;
        return v.k == V.K.STR && V.looksVersion((String) v.v) ? (String) v.v : null;
    }
    private static LocalDate date(V v) { return v.k == V.K.DATE ? (LocalDate) v.v : v.k == V.K.STR ? V.asDate((String) v.v) : null; }
    private static LocalDateTime dateTime(V v) { return v.k == V.K.DT ? (LocalDateTime) v.v : v.k == V.K.STR ? V.asDateTime((String) v.v) : null; }

    /** the values of listed items: list fields stand for their elements. null: some item fails; empty optional: no verdict */
    private List<V> items(List<E> es, boolean[] any) {
        List<V> r = new ArrayList<>();
        boolean fail = false;
        for (E e : es) {
            Out o = operand(e);
            if (o.isFail()) fail = true;
            else if (!o.isVal() || o.v().approx) any[0] = true;
            else if (o.v().k == V.K.LIST) for (V x : o.v().list()) { if (x == null) any[0] = true; else r.add(x); }
            else r.add(o.v());
        }
        if (fail) return null;
        return r;
    }

    private Out membership(E.In i) {
        Out x = field(i.field());
        boolean[] any = new boolean[1];
        List<V> items = items(i.items(), any);
        if (x.isFail() || items == null) return Out.FAIL;
        if (any[0] || x.v().k == V.K.LIST || x.v().k == V.K.OTHER) return Out.ANY;
        boolean weak = false;   // an item before could not be compared: a failure is in order
        for (V v : items) {
            Out o = compare("=", x.v(), v);
            if (!o.hasVal()) return Out.ANY;
            weak |= !o.isVal();
            if (o.truth()) return weak ? Out.orFail(V.bool(true)) : Out.TRUE;
        }
        return weak ? Out.orFail(V.bool(false)) : Out.FALSE;
    }

    private static int sort(V v) {   // text, number, boolean, other
        return switch (v.k) { case STR -> date(v) != null || dateTime(v) != null ? 9 : 0; case INT, DEC -> 1; case BOOL -> 2; case VER -> 3; case DATE -> 4; case DT -> 5; default -> 9; };
    }

    private Out containment(E.Con c) {
        Out x = field(c.field());
        boolean[] any = new boolean[1];
        List<V> items = items(c.items(), any);
        if (x.isFail() || items == null) return Out.FAIL;
        if (x.v().k == V.K.OTHER && !(x.v().v instanceof Map) && x.v().v.getClass().isArray()) return Out.ANY;
        if (x.v().k != V.K.LIST) return Out.FAIL;
        if (any[0] || items.isEmpty()) return Out.ANY;
        // whether a computed decimal is held as an integer when it is whole is left open
        boolean computed = false;
        for (E e : c.items()) computed |= !(e instanceof E.Lit) && !(e instanceof E.Fld) && !(e instanceof E.Neg n && n.e() instanceof E.Lit);
        int s0 = sort(items.get(0));
        boolean mixedNum = false;
        // so is whether a Long within the range of int counts as an integer
        if (items.size() > 1) for (E e : c.items()) if (e instanceof E.Fld f) { Object o = lookup(f.path(), data); mixedNum |= o instanceof Long || o instanceof java.util.Collection<?> l && l.stream().anyMatch(q -> q instanceof Long); }
        for (V v : items) {
            int s = sort(v);
            if (s != s0) return s <= 2 && s0 <= 2 ? Out.FAIL : Out.ANY;
            if (v.k != items.get(0).k) mixedNum = true;
            if (computed && v.isNum() && items.size() > 1 && v.k == V.K.DEC && (v.whole() || items.get(0).whole())) mixedNum = true;
            if (v.k == V.K.INT && items.get(0).k == V.K.INT && fitsInt(v.num()) != fitsInt(items.get(0).num())) mixedNum = true;
        }
        boolean all = true, some = false;
        for (V it : items) {
            boolean hit = false;
            for (V el : x.v().list()) {
                if (el == null) continue;
                Out o = compare("=", it, el);
                if (!o.hasVal()) return Out.ANY;
                hit |= o.truth();
            }
            all &= hit;
            some |= hit;
        }
        Out o = Out.of(c.all() ? all : some);
        return mixedNum ? o.weak() : o;
    }

    // ---- values ---------------------------------------------------------------------------------

    static final BigDecimal LMAX = BigDecimal.valueOf(Long.MAX_VALUE), LMIN = BigDecimal.valueOf(Long.MIN_VALUE);
    static final BigDecimal IMAX = BigDecimal.valueOf(Integer.MAX_VALUE), IMIN = BigDecimal.valueOf(Integer.MIN_VALUE);
    static boolean fitsLong(BigDecimal n) { return n.compareTo(LMAX) <= 0 && n.compareTo(LMIN) >= 0; }
    static boolean fitsInt(BigDecimal n) { return n.compareTo(IMAX) <= 0 && n.compareTo(IMIN) >= 0; }

    Out val(E e) {
        STEPS.get()[0]++;
        switch (e) {
            case E.Lit l -> {
                if (l.val() == null) return Out.FAIL;
                return l.val().k == V.K.INT && !fitsLong(l.val().num()) ? Out.orFail(l.val()) : Out.val(l.val());
            }
            case E.Fld f -> { return field(f.path()); }
            case E.Neg n -> {
                Out o = val(n.e());
                if (!o.hasVal()) return o;
                V v = o.v();
                if (!v.isNum()) return v.k == V.K.OTHER ? Out.ANY : Out.FAIL;
                if (v.approx) return o.isVal() ? Out.val(V.approx(-v.num().doubleValue(), v.err)) : Out.ANY;
                BigDecimal r = v.num().negate();
                if (v.k == V.K.INT) return fitsLong(r) && o.isVal() ? Out.val(V.integer(r)) : Out.orFail(V.integer(r));
                return o.isVal() && (fitsLong(r) || !wholeComputed(n.e(), v)) ? Out.val(V.dec(r)) : Out.orFail(V.dec(r));
            }
            case E.Bin b -> {
                Out l = val(b.l()), r = val(b.r());
                if (l.isFail() || r.isFail()) return Out.FAIL;
                if (!l.hasVal() || !r.hasVal()) return Out.ANY;
                Out o = binary(b.op(), l.v(), r.v());
                if (o.isAny() && b.op() == '+' && (l.v().k == V.K.STR || r.v().k == V.K.STR)) {
                    String x = exact(b.l(), l.v()), y = exact(b.r(), r.v());
                    if (x != null && y != null) o = Out.val(V.str(x + y));
                }
                // a whole result of / or ^ may be held as an integer, whose further arithmetic fails beyond a long
                if (o.isVal() && o.v().isNum() && !fitsLong(o.v().num()) && l.v().whole() && r.v().whole() && (wholeComputed(b.l(), l.v()) || wholeComputed(b.r(), r.v()))) o = o.weak();
                return l.isVal() && r.isVal() ? o : o.weak();
            }
            case E.Fn f -> { return function(f); }
            default -> { return Out.FAIL; }   // a condition is no value
        }
    }

    private static boolean wholeComputed(E e, V v) { return !(e instanceof E.Lit) && !(e instanceof E.Fld) && v.k == V.K.DEC && (v.approx || v.whole()); }

    /** a number known only to double precision as an operand: the result with the bound of its error, where one is known */
    private static Out approximate(char op, V a, V b) {
        double x = a.num().doubleValue(), y = b.num().doubleValue(), ex = a.err + Math.abs(x) * 1e-15, ey = b.err + Math.abs(y) * 1e-15, r, e;
        switch (op) {
            case '+' -> { r = x + y; e = ex + ey; }
            case '-' -> { r = x - y; e = ex + ey; }
            case '*' -> { r = x * y; e = Math.abs(x) * ey + Math.abs(y) * ex + ex * ey; }
            case '/' -> {
                if (Math.abs(y) <= 2 * ey) return Out.ANY;
                r = x / y;
                e = 0.001 + ex / (Math.abs(y) - ey) + Math.abs(x) * ey / (Math.abs(y) * (Math.abs(y) - ey));
            }
            case '%' -> {
                // surely no integer
                return Math.abs(x - Math.rint(x)) > ex || Math.abs(y - Math.rint(y)) > ey ? Out.FAIL : Out.ANY;
            }
            default -> {
                if (x <= 2 * ex) return Out.ANY;
                r = Math.pow(x, y);
                double rel = (Math.abs(y) + ey) * ex / (x - ex) + (Math.abs(Math.log(x)) + ex / (x - ex)) * ey;
                if (rel > 0.01) return Out.ANY;
                e = Math.abs(r) * 2 * rel;
            }
        }
        if (Double.isNaN(r) || Double.isInfinite(r) || Math.abs(r) > 1e300 || Double.isNaN(e) || Double.isInfinite(e)) return Out.ANY;
        if (Math.abs(r) >= 9.2e18) return Out.orFail(V.approx(r, e + Math.abs(r) * 1e-12));
        return Out.val(V.approx(r, e + Math.abs(r) * 1e-12));
    }

    static Out binary(char op, V a, V b) {
        if (!a.isNum() || !b.isNum()) {
            if (op == '+' && (a.k == V.K.STR || b.k == V.K.STR)) {
                String x = text(a), y = text(b);
                return x == null || y == null ? Out.ANY : Out.val(V.str(x + y));
            }
            if (a.k == V.K.OTHER || b.k == V.K.OTHER) return Out.ANY;
            if (op == '+') return a.k == V.K.DATE || a.k == V.K.DT || b.k == V.K.DATE || b.k == V.K.DT ? Out.FAIL : Out.ANY;
            return Out.FAIL;
        }
        if (a.approx || b.approx) return approximate(op, a, b);
        BigDecimal x = a.num(), y = b.num();
        boolean ints = a.k == V.K.INT && b.k == V.K.INT;
        switch (op) {
            case '+', '-', '*' -> {
                BigDecimal r = op == '+' ? x.add(y) : op == '-' ? x.subtract(y) : x.multiply(y);
                if (!ints) return Out.val(V.dec(r));
                return fitsLong(r) ? Out.val(V.integer(r)) : Out.orFail(V.integer(r));
            }
            case '/' -> {
                if (y.signum() == 0) return Out.FAIL;
                return Out.val(V.dec(x.divide(y, 3, RoundingMode.DOWN)));
            }
            case '%' -> {
                if (!a.whole() || !b.whole()) return Out.FAIL;
                if (y.signum() == 0) return Out.FAIL;
                BigDecimal r = x.remainder(y);
                return ints && fitsLong(x) && fitsLong(y) ? Out.val(V.integer(r)) : Out.orFail(V.dec(r));
            }
            default -> {
                double d = Math.pow(x.doubleValue(), y.doubleValue());
                if (Double.isNaN(d) || Double.isInfinite(d)) return Out.FAIL;
                // exact when the mathematical power of exactly represented whole numbers is itself exactly representable
                if (a.whole() && b.whole() && y.signum() >= 0 && y.compareTo(BigDecimal.valueOf(200)) <= 0 && new BigDecimal(x.doubleValue()).compareTo(x) == 0) {
                    BigInteger p = x.toBigInteger().pow(y.intValue());
                    if (p.bitLength() <= 53) return Out.val(V.dec(new BigDecimal(p)));
                }
                return Out.val(V.approx(d));
            }
        }
    }

    /** the text of an operand taken as it is written: also of decimals */
    private static String exact(E e, V v) {
        if (v.k == V.K.DEC && (e instanceof E.Lit || e instanceof E.Fld) && v.num().toString().equals(v.num().toPlainString())) return v.num().toPlainString();
        return text(v);
    }
    private static String text(V v) {
        return switch (v.k) {
            case STR -> V.dateShaped((String) v.v) ? null : (String) v.v;
            case INT -> v.num().toPlainString();
            case BOOL -> v.v.toString();
            default -> null;
        };
    }

    private Out function(E.Fn f) {
        String name = f.name().toLowerCase();
        List<V> items = new ArrayList<>();
        boolean fail = false, any = false, weak = false, nul = false;
        List<Out> outs = new ArrayList<>();
        for (E e : f.args()) {
            Out o = val(e);
            outs.add(o);
            if (o.isFail()) fail = true;
            else if (!o.hasVal() || o.v().approx) any = true;
            else {
                if (!o.isVal()) weak = true;
                if (o.v().k == V.K.LIST) for (V x : o.v().list()) { if (x == null) nul = true; else items.add(x); }
                else items.add(o.v());
            }
        }
        if (fail) return Out.FAIL;
        if (any) return Out.ANY;
        Out r;
        switch (name) {
            case "len" -> {
                V v = outs.get(0).v();
                if (f.args().size() != 1) { for (Out o : outs) if (o.v().k == V.K.LIST) return Out.ANY; r = Out.val(V.integer(f.args().size())); break; }
                if (v.k == V.K.LIST) r = Out.val(V.integer(v.list().size()));
                else if (v.k == V.K.STR) r = Out.val(V.integer(((String) v.v).length()));
                else return Out.ANY;
            }
            case "int" -> {
                if (f.args().size() != 1 || outs.get(0).v().k == V.K.LIST) return Out.ANY;
                V v = outs.get(0).v();
                if (!v.isNum()) return v.k == V.K.OTHER || v.k == V.K.STR && V.looksNumeric((String) v.v) ? Out.ANY : Out.FAIL;
                BigDecimal t = v.num().setScale(0, RoundingMode.DOWN);
                r = fitsInt(t) ? Out.val(V.integer(t)) : Out.orFail(V.integer(t));
            }
            case "days_elapsed" -> {
                if (f.args().size() != 1 || outs.get(0).v().k == V.K.LIST) return Out.ANY;
                LocalDate d = date(outs.get(0).v());
                if (d == null) return outs.get(0).v().k == V.K.OTHER || dateTime(outs.get(0).v()) != null ? Out.ANY : Out.FAIL;
                r = Out.val(V.integer(LocalDate.now().toEpochDay() - d.toEpochDay()));
            }
            default -> {
                if (items.isEmpty() || nul) return Out.FAIL;
                boolean odd = false;
                for (V v : items) {
                    if (v.k == V.K.OTHER || v.k == V.K.LIST || v.k == V.K.STR && V.looksNumeric((String) v.v)) odd = true;
                    else if (!v.isNum()) return Out.FAIL;
                }
                if (odd) return Out.ANY;
                r = aggregate(name, items);
            }
        }
        return weak ? r.weak() : r;
    }

    static Out aggregate(String name, List<V> items) {
        List<BigDecimal> n = new ArrayList<>();
        boolean ints = true;
        for (V v : items) { n.add(v.num()); ints &= v.k == V.K.INT; }
        List<BigDecimal> s = new ArrayList<>(n);
        s.sort(null);
        BigDecimal sum = BigDecimal.ZERO;
        for (BigDecimal x : n) sum = sum.add(x);
        int c = s.size();
        switch (name) {
            case "min" -> { return Out.val(num(s.get(0), ints)); }
            case "max" -> { return Out.val(num(s.get(c - 1), ints)); }
            case "sum" -> { return ints && !sumFits(n) ? Out.orFail(num(sum, true)) : Out.val(num(sum, ints)); }
            case "avg", "mean" -> { return Out.val(V.dec(sum.divide(BigDecimal.valueOf(c), 3, RoundingMode.DOWN))); }
            case "median" -> {
                if (c % 2 == 1) return Out.val(V.dec(s.get(c / 2)));
                return Out.val(V.dec(s.get(c / 2).add(s.get(c / 2 - 1)).divide(BigDecimal.valueOf(2), 2, RoundingMode.DOWN)));
            }
            case "mode" -> {
                Map<BigDecimal, Integer> m = new TreeMap<>();
                for (BigDecimal x : n) m.merge(x, 1, Integer::sum);
                int best = m.values().stream().max(Integer::compare).get();
                List<V> modes = new ArrayList<>();
                m.forEach((k, q) -> { if (q == best) modes.add(V.dec(k)); });
                if (modes.size() == 1) return Out.val(modes.get(0));
                return Out.val(V.of(V.K.OTHER, new OneOf(modes)));
            }
            default -> throw new IllegalArgumentException(name);
        }
    }
    /** some order of adding may pass beyond a long although the total does not: then a failure is also in order */
    private static boolean sumFits(List<BigDecimal> n) {
        BigDecimal pos = BigDecimal.ZERO, neg = BigDecimal.ZERO;
        for (BigDecimal x : n) if (x.signum() > 0) pos = pos.add(x); else neg = neg.add(x);
        return fitsLong(pos) && fitsLong(neg);
    }
    record OneOf(List<V> vs) {}

    private static V num(BigDecimal n, boolean i) { return i ? V.integer(n) : V.dec(n); }
}
