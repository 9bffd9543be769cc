package mc;

import java.math.BigDecimal;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.List;

/** A value of the reference model: independent of the implementation's own value and type classes. */
final class V {
    enum K { INT, DEC, STR, BOOL, VER, DATE, DT, LIST, OTHER }

    final K k;
    final Object v;
    /** a number known only to double precision (result of ^ that is not exactly representable) */
    final boolean approx;
    /** how far an approximate number may be off */
    final double err;

    private V(K k, Object v, boolean approx) { this(k, v, approx, 0); }
    private V(K k, Object v, boolean approx, double err) { this.k = k; this.v = v; this.approx = approx; this.err = err; }

    static V of(K k, Object v) { return new V(k, v, false); }
    static V integer(long n) { return new V(K.INT, BigDecimal.valueOf(n), false); }
    static V integer(BigDecimal n) { return new V(K.INT, n, false); }
    static V dec(BigDecimal n) { return new V(K.DEC, n, false); }
    static V approx(double d) { return approx(d, Math.abs(d) * 1e-12); }
    static V approx(double d, double err) { return new V(K.DEC, new BigDecimal(d), true, err); }
    static V str(String s) { return new V(K.STR, s, false); }
    static V bool(boolean b) { return new V(K.BOOL, b, false); }

    boolean isNum() { return k == K.INT || k == K.DEC; }
    BigDecimal num() { return (BigDecimal) v; }
    boolean whole() { return num().signum() == 0 || num().stripTrailingZeros().scale() <= 0; }

    /** What a Java object stored in the caller's data means. null means: no value. */
    static V ofData(Object o) {
        if (o == null) return null;
        if (o instanceof Integer || o instanceof Long) return integer(((Number) o).longValue());
        if (o instanceof Float || o instanceof Double) {
            double d = ((Number) o).doubleValue();
            if (Double.isNaN(d) || Double.isInfinite(d)) return of(K.OTHER, o);
            return dec(new BigDecimal(o.toString()));
        }
        if (o instanceof BigDecimal b) return dec(b);
        if (o instanceof Boolean b) return bool(b);
        if (o instanceof String s) return str(s);
        if (o instanceof LocalDate) return of(K.DATE, o);
        if (o instanceof LocalDateTime) return of(K.DT, o);
        if (o instanceof Collection<?> c) {
            List<V> l = new ArrayList<>();
            for (Object x : c) l.add(ofData(x));
            return of(K.LIST, l);
        }
        if (o instanceof Object[] a) {
            List<V> l = new ArrayList<>();
            for (Object x : a) l.add(ofData(x));
            return of(K.LIST, l);
        }
        return of(K.OTHER, o);
    }

    @SuppressWarnings("unchecked")
    List<V> list() { return (List<V>) v; }

    // ---- texts that denote something else -------------------------------------------------------

    static boolean looksNumeric(String s) {
        try { new BigDecimal(s); return true; } catch (Exception e) { return false; }
    }
    static boolean looksVersion(String s) {
        int seg = 0;
        for (String p : s.split("\\.", -1)) {
            if (p.isEmpty()) return false;
            for (char c : p.toCharArray()) if (c < '0' || c > '9') return false;
            seg++;
        }
        return seg >= 1;
    }
    static final int[] DAYS = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    /** yyyy-MM-dd of a day that exists, by the calendar rules themselves */
    static LocalDate asDate(String s) {
        if (s.length() != 10 || s.charAt(4) != '-' || s.charAt(7) != '-') return null;
        int y = digits(s, 0, 4), m = digits(s, 5, 7), d = digits(s, 8, 10);
        if (y < 0 || m < 1 || m > 12 || d < 1) return null;
        boolean leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        int max = m == 2 && leap ? 29 : DAYS[m - 1];
        return d > max ? null : LocalDate.of(y, m, d);
    }
    static LocalDateTime asDateTime(String s) {
        if (s.length() != 19 || s.charAt(10) != ' ' || s.charAt(13) != ':' || s.charAt(16) != ':') return null;
        LocalDate d = asDate(s.substring(0, 10));
        int h = digits(s, 11, 13), m = digits(s, 14, 16), sec = digits(s, 17, 19);
        if (d == null || h < 0 || h > 23 || m < 0 || m > 59 || sec < 0 || sec > 59) return null;
        return d.atTime(h, m, sec);
    }
    static boolean dateShaped(String s) {
        String t = s.replaceAll("[0-9]", "0");
        return t.equals("0000-00-00") || t.equals("0000-00-00 00:00:00");
    }
    private static int digits(String s, int a, int b) {
        int r = 0;
        for (int i = a; i < b; i++) {
            char c = s.charAt(i);
            if (c < '0' || c > '9') return -1;
            r = r * 10 + c - '0';
        }
        return r;
    }
    static int compareVersions(String a, String b) {
        List<String> x = Arrays.asList(a.split("\\.")), y = Arrays.asList(b.split("\\."));
        for (int i = 0; i < Math.max(x.size(), y.size()); i++) {
            int c = new java.math.BigInteger(i < x.size() ? x.get(i) : "0").compareTo(new java.math.BigInteger(i < y.size() ? y.get(i) : "0"));
            if (c != 0) return c;
        }
        return 0;
    }

    @Override public String toString() { return k + ":" + v + (approx ? "~" : ""); }
}
