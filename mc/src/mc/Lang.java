package mc;

import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
import com.github.sidhant92.boolparser.domain.logical.ArrayNode;
import com.github.sidhant92.boolparser.domain.logical.BooleanNode;
import com.github.sidhant92.boolparser.domain.logical.ComparisonNode;
import com.github.sidhant92.boolparser.domain.logical.InNode;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.domain.logical.NumericRangeNode;
import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashSet;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Locale;
import java.util.Set;

/** The language itself: an independent lexer, a recogniser of well-formed expressions, and what a tree says token by token. */
final class Lang {
    enum T { IN, TO, AND, OR, NOT, TRUE, FALSE, CALL, CANY, CALLX, FN, ADD, SUB, MUL, DIV, MOD, EXP, CMP, LP, RP, COMMA, DEC, VER, INT, DATE, DT, WORD, FIELD }

    record Tok(T t, String s) {
        @Override public String toString() { return s; }
    }

    static final String[] FNS = {"min", "max", "avg", "sum", "mean", "mode", "median", "len", "int", "days_elapsed"};

    /** a word made of letters, digits, underscores and dots: keyword, number, version or field */
    static Tok word(String w) {
        switch (w) {
            case "IN", "in": return new Tok(T.IN, w);
            case "TO", "to": return new Tok(T.TO, w);
            case "AND", "and": return new Tok(T.AND, w);
            case "OR", "or": return new Tok(T.OR, w);
            case "NOT", "not": return new Tok(T.NOT, w);
            case "TRUE", "true": return new Tok(T.TRUE, w);
            case "FALSE", "false": return new Tok(T.FALSE, w);
            case "CONTAINS_ALL", "contains_all": return new Tok(T.CALL, w);
            case "CONTAINS_ANY", "contains_any": return new Tok(T.CANY, w);
            default:
        }
        for (String f : FNS) if (w.equals(f) || w.equals(f.toUpperCase(Locale.ROOT))) return new Tok(T.FN, w);
        if (w.matches("[0-9]+")) return new Tok(T.INT, w);
        if (w.matches("[0-9]+\\.[0-9]+")) return new Tok(T.DEC, w);
        if (w.matches("[0-9]+(\\.[0-9]+){2,}")) return new Tok(T.VER, w);
        return new Tok(T.FIELD, w);
    }

    private static boolean wordChar(char c) { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.'; }
    private static boolean shape(String s, int i, String shape) {
        if (i + shape.length() > s.length()) return false;
        for (int k = 0; k < shape.length(); k++) {
            char c = s.charAt(i + k), p = shape.charAt(k);
            if (p == '0' ? c < '0' || c > '9' : c != p) return false;
        }
        return true;
    }

    /** the tokens of a text, or null when some character belongs to none */
    static List<Tok> lex(String s) {
        List<Tok> r = new ArrayList<>();
        int i = 0, n = s.length();
        while (i < n) {
            char c = s.charAt(i);
            if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f') { i++; continue; }
            if (c == '\'' || c == '"') {
                int e = s.indexOf(c, i + 1);
                if (e < 0) return null;
                r.add(new Tok(T.WORD, s.substring(i, e + 1)));
                i = e + 1;
                continue;
            }
            if (wordChar(c)) {
                int e = i;
                while (e < n && wordChar(s.charAt(e))) e++;
                // the longest reading wins: a date unless a longer word starts here
                if (shape(s, i, "0000-00-00 00:00:00")) { r.add(new Tok(T.DT, s.substring(i, i + 19))); i += 19; continue; }
                if (shape(s, i, "0000-00-00")) { r.add(new Tok(T.DATE, s.substring(i, i + 10))); i += 10; continue; }
                r.add(word(s.substring(i, e)));
                i = e;
                continue;
            }
            String two = i + 1 < n ? s.substring(i, i + 2) : "";
            if (two.equals("&&")) { r.add(new Tok(T.AND, two)); i += 2; continue; }
            if (two.equals("||")) { r.add(new Tok(T.OR, two)); i += 2; continue; }
            if (two.equals("!=") || two.equals(">=") || two.equals("<=")) { r.add(new Tok(T.CMP, two)); i += 2; continue; }
            T t = switch (c) {
                case '>', '<', '=' -> T.CMP;
                case '+' -> T.ADD; case '-' -> T.SUB; case '*' -> T.MUL; case '/' -> T.DIV; case '%' -> T.MOD; case '^' -> T.EXP;
                case '(' -> T.LP; case ')' -> T.RP; case ',' -> T.COMMA;
                default -> null;
            };
            if (t == null) return null;
            r.add(new Tok(t, String.valueOf(c)));
            i++;
        }
        return r;
    }

    static boolean binary(T t) {
        return switch (t) { case AND, OR, ADD, SUB, MUL, DIV, MOD, EXP, CMP -> true; default -> false; };
    }
    static boolean leaf(T t) {
        return switch (t) { case TRUE, FALSE, DEC, VER, INT, DATE, DT, WORD, FIELD -> true; default -> false; };
    }

    // ---- recogniser -----------------------------------------------------------------------------

    /** well-formed: operands and operators alternate, every keyword has its operands, parentheses match, nothing is left over */
    static boolean wellFormed(List<Tok> ts) { return ts != null && new Rec(ts).expr(0) == ts.size() && !ts.isEmpty(); }

    /** deterministic: with operators of any rank, a well-formed text is prefixes, operand, then (operator prefixes operand)* */
    private static final class Rec {
        final List<Tok> ts;
        Rec(List<Tok> ts) { this.ts = ts; }
        T at(int i) { return i < ts.size() ? ts.get(i).t() : null; }
        int expr(int i) {
            while (true) {
                while (at(i) == T.NOT || at(i) == T.SUB) i++;
                i = operand(i);
                if (i < 0 || at(i) == null || !binary(at(i))) return i;
                i++;
            }
        }
        int operand(int i) {
            T t = at(i);
            if (t == null) return -1;
            if (t == T.LP) { int e = expr(i + 1); return e >= 0 && at(e) == T.RP ? e + 1 : -1; }
            if (t == T.FN) return items(i + 1);
            if (t == T.FIELD) {
                if (at(i + 1) == T.IN) return items(i + 2);
                if (at(i + 1) == T.NOT && at(i + 2) == T.IN) return items(i + 3);
                if (at(i + 1) == T.CALL || at(i + 1) == T.CANY) return items(i + 2);
            }
            // bounds of a range; the field of it may not be any other operand
            if (t == T.FIELD && (at(i + 1) == T.INT || at(i + 1) == T.DEC)) return at(i + 2) == T.TO && (at(i + 3) == T.INT || at(i + 3) == T.DEC) ? i + 4 : -1;
            return leaf(t) ? i + 1 : -1;
        }
        int items(int i) {
            if (at(i) != T.LP) return -1;
            do { i = expr(i + 1); } while (i >= 0 && at(i) == T.COMMA);
            return i >= 0 && at(i) == T.RP ? i + 1 : -1;
        }
    }

    /** well-formed once closing parentheses are added at the very end */
    static boolean tolerated(List<Tok> ts) {
        if (ts == null) return false;
        int open = 0;
        for (Tok t : ts) open += t.t() == T.LP ? 1 : t.t() == T.RP ? -1 : 0;
        if (open <= 0) return false;
        return wellFormed(closed(ts, open));
    }
    static List<Tok> closed(List<Tok> ts, int n) {
        List<Tok> r = new ArrayList<>(ts);
        for (int i = 0; i < n; i++) r.add(new Tok(T.RP, ")"));
        return r;
    }

    // ---- what the tokens say, and what a tree says ----------------------------------------------

    static String leafText(Tok t) {
        return switch (t.t()) {
            case WORD -> "text<" + t.s().substring(1, t.s().length() - 1) + ">";
            case INT -> "number<" + new BigDecimal(t.s()).toPlainString() + ">";
            case DEC -> "number<" + new BigDecimal(t.s()) + ">";
            case TRUE, FALSE -> "bool<" + t.s().toLowerCase(Locale.ROOT) + ">";
            case VER -> "version<" + t.s() + ">";
            case DATE -> "date<" + t.s() + ">";
            case DT -> "datetime<" + t.s().replace(' ', 'T') + ">";
            default -> "field<" + t.s() + ">";
        };
    }
    /** operators and operands in their order, without parentheses and commas */
    static List<String> fringe(List<Tok> ts) {
        List<String> r = new ArrayList<>();
        for (int i = 0; i < ts.size(); i++) {
            Tok t = ts.get(i);
            if (t.t() == T.LP || t.t() == T.RP || t.t() == T.COMMA) continue;
            if (t.t() == T.NOT && i + 1 < ts.size() && ts.get(i + 1).t() == T.IN) { r.add(r.size() - 1, "NOT"); continue; }
            if (leaf(t.t())) r.add(leafText(t));
            else r.add(switch (t.t()) { case FN -> t.s().toUpperCase(Locale.ROOT); case CALL -> "CONTAINS_ALL"; case CANY -> "CONTAINS_ANY"; case CMP -> t.s(); case ADD, SUB, MUL, DIV, MOD, EXP -> t.s(); default -> t.t().name(); });
        }
        return r;
    }

    static String symbol(Object op) {
        return switch (String.valueOf(op)) {
            case "EQUALS" -> "="; case "NOT_EQUAL" -> "!="; case "GREATER_THAN" -> ">"; case "GREATER_THAN_EQUAL" -> ">="; case "LESS_THAN" -> "<"; case "LESS_THAN_EQUAL" -> "<=";
            case "ADD" -> "+"; case "SUBTRACT" -> "-"; case "MULTIPLY" -> "*"; case "DIVIDE" -> "/"; case "MODULUS" -> "%"; case "EXPONENT" -> "^"; case "UNARY" -> "-";
            default -> String.valueOf(op);
        };
    }
    static List<String> fringe(Object n) { List<String> r = new ArrayList<>(); fringe((Node) n, r); return r; }
    static String literal(Object type, Object v) {
        String d = String.valueOf(type);
        return switch (d) {
            case "STRING" -> "text<" + v + ">";
            case "INTEGER", "LONG" -> "number<" + v + ">";
            case "DECIMAL" -> "number<" + v + ">";
            case "BOOLEAN" -> "bool<" + v + ">";
            case "VERSION" -> "version<" + v + ">";
            case "DATE" -> "date<" + v + ">";
            case "DATETIME" -> "datetime<" + (String.valueOf(v).length() == 16 ? v + ":00" : v) + ">";
            default -> d + "<" + v + ">";
        };
    }
    private static void fringe(Node n, List<String> r) {
        if (n instanceof BooleanNode x) {
            if (x.getRight() == null) {
                r.add("NOT");
                if (x.getLeft() instanceof UnaryNode u && "STRING".equals(String.valueOf(u.getDataType()))) r.add("field<" + u.getValue() + ">");
                else fringe(x.getLeft(), r);
                return;
            }
            fringe(x.getLeft(), r); r.add(String.valueOf(x.getOperator())); fringe(x.getRight(), r);
        } else if (n instanceof ComparisonNode x) { fringe(x.getLeft(), r); r.add(symbol(x.getOperator())); fringe(x.getRight(), r); }
        else if (n instanceof ArithmeticNode x) {
            if (x.getRight() == null) { r.add(symbol(x.getOperator())); fringe(x.getLeft(), r); return; }
            fringe(x.getLeft(), r); r.add(symbol(x.getOperator())); fringe(x.getRight(), r);
        } else if (n instanceof ArithmeticFunctionNode x) { r.add(String.valueOf(x.getFunctionType())); for (Node i : x.getItems()) fringe(i, r); }
        else if (n instanceof UnaryNode x) r.add(literal(x.getDataType(), x.getValue()));
        else if (n instanceof FieldNode x) r.add("field<" + x.getField() + ">");
        else if (n instanceof InNode x) { r.add("field<" + x.getField() + ">"); r.add("IN"); for (Node i : x.getItems()) fringe(i, r); }
        else if (n instanceof ArrayNode x) { r.add("field<" + x.getField() + ">"); r.add(symbol(x.getOperator())); for (Node i : x.getItems()) fringe(i, r); }
        else if (n instanceof NumericRangeNode x) { r.add("field<" + x.getField() + ">"); r.add(literal(x.getFromDataType(), x.getFromValue())); r.add("TO"); r.add(literal(x.getToDataType(), x.getToValue())); }
        else r.add("?" + n);
    }
    /** NOT of a quoted text and NOT of a field of that name have one tree: compare without the difference */
    static List<String> norm(List<String> l) {
        List<String> r = new ArrayList<>(l);
        for (int i = 1; i < r.size(); i++) if (r.get(i - 1).equals("NOT") && r.get(i).startsWith("text<")) r.set(i, "field<" + r.get(i).substring(5));
        return r;
    }

    // ---- all readings of a short token string ---------------------------------------------------

    /** the trees (as dumps) of every grouping of the tokens; empty when there is none */
    static Set<String> readings(List<Tok> ts) {
        return new All(ts).expr(0, ts.size());
    }
    private static final class All {
        final List<Tok> ts;
        final Set<String>[][] memo;
        @SuppressWarnings("unchecked") All(List<Tok> ts) { this.ts = ts; memo = new Set[ts.size() + 1][ts.size() + 1]; }
        Set<String> expr(int i, int j) {
            if (i >= j) return Set.of();
            if (memo[i][j] != null) return memo[i][j];
            Set<String> r = new LinkedHashSet<>();
            Tok a = ts.get(i), z = ts.get(j - 1);
            if (j == i + 1 && leaf(a.t())) r.add(Tree.leaf(a));
            if (a.t() == T.LP && z.t() == T.RP) r.addAll(expr(i + 1, j - 1));
            if (a.t() == T.NOT) for (String x : expr(i + 1, j)) r.add("NOT(" + Tree.underNot(x) + ")");
            if (a.t() == T.SUB) for (String x : expr(i + 1, j)) r.add("UNARY(" + x + ")");
            if (a.t() == T.FN) for (String x : items(i + 1, j)) r.add(a.s().toUpperCase(Locale.ROOT) + "[" + x + "]");
            if (a.t() == T.FIELD && j - i >= 4) {
                T b = ts.get(i + 1).t();
                if (b == T.IN) for (String x : items(i + 2, j)) r.add("IN<" + a.s() + ">[" + x + "]");
                if (b == T.NOT && ts.get(i + 2).t() == T.IN) for (String x : items(i + 3, j)) r.add("NOT(IN<" + a.s() + ">[" + x + "])");
                if (b == T.CALL) for (String x : items(i + 2, j)) r.add("CONTAINS_ALL<" + a.s() + ">[" + x + "]");
                if (b == T.CANY) for (String x : items(i + 2, j)) r.add("CONTAINS_ANY<" + a.s() + ">[" + x + "]");
                if (j - i == 4 && (b == T.INT || b == T.DEC) && ts.get(i + 2).t() == T.TO && (z.t() == T.INT || z.t() == T.DEC)) r.add("RANGE<" + a.s() + ">[" + Tree.leaf(ts.get(i + 1)) + ", " + Tree.leaf(z) + "]");
            }
            for (int k = i + 1; k < j - 1; k++) {
                Tok o = ts.get(k);
                if (!binary(o.t())) continue;
                String name = Tree.opName(o.t() == T.AND || o.t() == T.OR ? o.t().name() : o.s());
                for (String x : expr(i, k)) for (String y : expr(k + 1, j)) r.add(name + "(" + x + ", " + y + ")");
            }
            return memo[i][j] = r;
        }
        Set<String> items(int i, int j) {
            if (i >= j || ts.get(i).t() != T.LP || ts.get(j - 1).t() != T.RP) return Set.of();
            return list(i + 1, j - 1);
        }
        private Set<String> list(int i, int j) {
            Set<String> r = new HashSet<>(expr(i, j));
            for (int k = i + 1; k < j - 1; k++) if (ts.get(k).t() == T.COMMA) for (String x : expr(i, k)) for (String y : list(k + 1, j)) r.add(x + ", " + y);
            return r;
        }
    }

    static String join(List<Tok> ts) {
        StringBuilder b = new StringBuilder();
        for (Tok t : ts) { if (b.length() > 0) b.append(' '); b.append(t.s()); }
        return b.toString();
    }
    static List<Tok> toks(String... s) {
        List<Tok> r = new ArrayList<>();
        for (String x : s) r.addAll(lex(x));
        return r;
    }
    static List<Tok> without(List<Tok> l, int i) { List<Tok> r = new ArrayList<>(l); r.remove(i); return r; }
    static List<Tok> inserted(List<Tok> l, int i, Tok t) { List<Tok> r = new ArrayList<>(l); r.add(i, t); return r; }
    static List<Tok> replaced(List<Tok> l, int i, Tok t) { List<Tok> r = new ArrayList<>(l); r.set(i, t); return r; }
    static List<Tok> swapped(List<Tok> l, int i, int j) { List<Tok> r = new ArrayList<>(l); Tok t = r.get(i); r.set(i, r.get(j)); r.set(j, t); return r; }
    static final List<Tok> NONE = Arrays.asList();
}
