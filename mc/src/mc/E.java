package mc;

import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.stream.Collectors;

/** Expressions of the reference model. */
sealed interface E {
    record Lit(String text, V val) implements E {}
    record Fld(String path) implements E {}
    record Neg(E e) implements E {}
    record Bin(char op, E l, E r) implements E {}
    record Fn(String name, List<E> args) implements E {}
    record Cmp(String op, E l, E r) implements E {}
    record Log(boolean and, E l, E r) implements E {}
    record Not(E e) implements E {}
    record In(String field, boolean not, List<E> items) implements E {}
    record Con(String field, boolean all, List<E> items) implements E {}
    record Rng(String field, Lit lo, Lit hi) implements E {}
    /** the literal null of a null check */
    record Null(String text) implements E {}
    /** an operand left out, standing for the default field */
    record Omit() implements E {}

    static Lit i(long n) { return new Lit(Long.toString(n), V.integer(n)); }
    static Lit d(String s) { return new Lit(s, V.dec(new BigDecimal(s))); }
    static Lit s(String s) { return new Lit(s.contains("'") ? "\"" + s + "\"" : "'" + s + "'", V.str(s)); }
    static Lit s2(String s) { return new Lit("\"" + s + "\"", V.str(s)); }
    static Lit b(boolean b) { return new Lit(b ? "true" : "false", V.bool(b)); }
    static Lit ver(String s) { return new Lit(s, V.of(V.K.VER, s)); }
    static Lit date(String s) { return new Lit(s, V.asDate(s) == null ? null : V.of(V.K.DATE, V.asDate(s))); }
    static Lit dt(String s) { return new Lit(s, V.asDateTime(s) == null ? null : V.of(V.K.DT, V.asDateTime(s))); }
    static Fld f(String p) { return new Fld(p); }
    static Bin bin(char op, E l, E r) { return new Bin(op, l, r); }
    static Neg neg(E e) { return new Neg(e); }
    static Fn fn(String n, E... a) { return new Fn(n, Arrays.asList(a)); }
    static Fn fn(String n, List<E> a) { return new Fn(n, a); }
    static Cmp cmp(String op, E l, E r) { return new Cmp(op, l, r); }
    static Log and(E l, E r) { return new Log(true, l, r); }
    static Log or(E l, E r) { return new Log(false, l, r); }
    static Not not(E e) { return new Not(e); }
    static In in(String f, E... a) { return new In(f, false, Arrays.asList(a)); }
    static In notIn(String f, E... a) { return new In(f, true, Arrays.asList(a)); }
    static Con any(String f, E... a) { return new Con(f, false, Arrays.asList(a)); }
    static Con all(String f, E... a) { return new Con(f, true, Arrays.asList(a)); }
    static Rng rng(String f, Lit lo, Lit hi) { return new Rng(f, lo, hi); }
    static E num(BigDecimal n) {
        BigDecimal a = n.abs();
        E l = a.scale() > 0 ? d(a.toPlainString()) : new Lit(a.toPlainString(), V.integer(new BigDecimal(a.toPlainString())));
        return n.signum() < 0 ? neg(l) : l;
    }

    String[] CMPS = {"=", "!=", ">", ">=", "<", "<="};
    char[] OPS = {'+', '-', '*', '/', '%', '^'};
    String[] AGG = {"min", "max", "sum", "avg", "mean", "median", "mode"};

    /** Text with every compound operand in parentheses: no reliance on precedence. */
    static String print(E e) { StringBuilder b = new StringBuilder(); print(e, b); return b.toString(); }

    private static void list(List<E> l, StringBuilder b) {
        b.append('(');
        for (int i = 0; i < l.size(); i++) {
            if (i > 0) b.append(", ");
            print(l.get(i), b);
        }
        b.append(')');
    }
    private static void paren(E e, boolean p, StringBuilder b) {
        if (p) b.append('(');
        print(e, b);
        if (p) b.append(')');
    }
    static boolean atom(E e) { return e instanceof Lit || e instanceof Fld || e instanceof Fn || e instanceof Null || e instanceof Omit; }
    static void print(E e, StringBuilder b) {
        switch (e) {
            case Lit l -> b.append(l.text());
            case Fld f -> b.append(f.path());
            case Null n -> b.append(n.text());
            case Omit o -> { }
            case Neg n -> { b.append('-'); paren(n.e(), !atom(n.e()), b); }
            case Bin x -> { paren(x.l(), !atom(x.l()), b); b.append(' ').append(x.op()).append(' '); paren(x.r(), !atom(x.r()), b); }
            case Fn f -> { b.append(f.name()); list(f.args(), b); }
            case Cmp c -> { paren(c.l(), !atom(c.l()), b); b.append(' ').append(c.op()).append(' ');
                paren(c.r(), !(atom(c.r()) || c.r() instanceof Neg n && atom(n.e())), b); }
            case Log l -> { paren(l.l(), l.l() instanceof Log, b); b.append(l.and() ? " AND " : " OR "); paren(l.r(), l.r() instanceof Log, b); }
            case Not n -> { b.append("NOT "); paren(n.e(), !(n.e() instanceof Lit || n.e() instanceof Fld || n.e() instanceof Not), b); }
            case In i -> { b.append(i.field()).append(i.not() ? " NOT IN " : " IN "); list(i.items(), b); }
            case Con c -> { b.append(c.field()).append(c.all() ? " CONTAINS_ALL " : " CONTAINS_ANY "); list(c.items(), b); }
            case Rng r -> b.append(r.field()).append(' ').append(r.lo().text()).append(" TO ").append(r.hi().text());
        }
    }
    static List<E> list(E... a) { return new ArrayList<>(Arrays.asList(a)); }
    static String join(List<E> l, String sep) { return l.stream().map(E::print).collect(Collectors.joining(sep)); }
}
