package mc;

import java.math.BigDecimal;
import java.util.List;
import java.util.Locale;

/** The tree an expression of the model must parse to, written like Dump does. */
final class Tree {
    static String opName(String s) {
        return switch (s) {
            case "=" -> "EQUALS"; case "!=" -> "NOT_EQUAL"; case ">" -> "GREATER_THAN"; case ">=" -> "GREATER_THAN_EQUAL"; case "<" -> "LESS_THAN"; case "<=" -> "LESS_THAN_EQUAL";
            case "+" -> "ADD"; case "-" -> "SUBTRACT"; case "*" -> "MULTIPLY"; case "/" -> "DIVIDE"; case "%" -> "MODULUS"; case "^" -> "EXPONENT";
            default -> s;
        };
    }
    static String leaf(Lang.Tok t) {
        return switch (t.t()) {
            case INT -> integer(new BigDecimal(t.s()));
            case DEC -> "DECIMAL:BigDecimal<" + new BigDecimal(t.s()) + ">";
            case WORD -> "STRING:String<" + t.s().substring(1, t.s().length() - 1) + ">";
            case TRUE, FALSE -> "BOOLEAN:Boolean<" + t.s().toLowerCase(Locale.ROOT) + ">";
            case VER -> "VERSION:ComparableVersion<" + t.s() + ">";
            case DATE -> "DATE:LocalDate<" + V.asDate(t.s()) + ">";
            case DT -> "DATETIME:LocalDateTime<" + V.asDateTime(t.s()) + ">";
            default -> "FIELD<" + t.s() + ">";
        };
    }
    private static String integer(BigDecimal n) { return (Ref.fitsInt(n) ? "INTEGER:Integer<" : "LONG:Long<") + n.toPlainString() + ">"; }

    static String lit(E.Lit l) {
        V v = l.val();
        return switch (v.k) {
            case INT -> integer(v.num());
            case DEC -> "DECIMAL:BigDecimal<" + v.num() + ">";
            case STR -> "STRING:String<" + v.v + ">";
            case BOOL -> "BOOLEAN:Boolean<" + v.v + ">";
            case VER -> "VERSION:ComparableVersion<" + v.v + ">";
            case DATE -> "DATE:LocalDate<" + v.v + ">";
            case DT -> "DATETIME:LocalDateTime<" + v.v + ">";
            default -> throw new IllegalArgumentException(l.toString());
        };
    }
    static String type(E.Lit l) { String s = lit(l); return s.substring(0, s.indexOf(':')); }
    /** a quoted text under NOT is represented like the field of that name */
    static String underNot(String x) { return x.startsWith("STRING:String<") && x.endsWith(">") ? "FIELD<" + x.substring(14) : x; }

    static String of(E e) { return of(e, null); }
    static String of(E e, String def) { StringBuilder b = new StringBuilder(); w(e, b, def); return b.toString(); }
    private static void list(List<E> l, StringBuilder b, String def) {
        b.append('[');
        for (int i = 0; i < l.size(); i++) { if (i > 0) b.append(", "); w(l.get(i), b, def); }
        b.append(']');
    }
    private static void two(String op, E l, E r, StringBuilder b, String def) {
        b.append(op).append('('); w(l, b, def); b.append(", "); w(r, b, def); b.append(')');
    }
    private static void w(E e, StringBuilder b, String def) {
        switch (e) {
            case E.Lit l -> b.append(lit(l));
            case E.Fld f -> b.append("FIELD<").append(f.path()).append('>');
            case E.Null n -> b.append("FIELD<").append(n.text()).append('>');
            case E.Omit o -> b.append("FIELD<").append(def).append('>');
            case E.Neg n -> { b.append("UNARY("); w(n.e(), b, def); b.append(')'); }
            case E.Bin x -> two(opName(String.valueOf(x.op())), x.l(), x.r(), b, def);
            case E.Cmp x -> two(opName(x.op()), x.l(), x.r(), b, def);
            case E.Log x -> two(x.and() ? "AND" : "OR", x.l(), x.r(), b, def);
            case E.Not n -> { b.append("NOT("); StringBuilder s = new StringBuilder(); w(n.e(), s, def); b.append(underNot(s.toString())).append(')'); }
            case E.Fn f -> { b.append(f.name().toUpperCase(Locale.ROOT)); list(f.args(), b, def); }
            case E.In i -> { if (i.not()) b.append("NOT("); b.append("IN<").append(i.field()).append('>'); list(i.items(), b, def); if (i.not()) b.append(')'); }
            case E.Con c -> { b.append(c.all() ? "CONTAINS_ALL<" : "CONTAINS_ANY<").append(c.field()).append('>'); list(c.items(), b, def); }
            case E.Rng r -> b.append("RANGE<").append(r.field()).append(">[").append(lit(r.lo())).append(", ").append(lit(r.hi())).append(']');
        }
    }
}
