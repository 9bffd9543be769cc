package mc;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import java.util.Map;
import java.util.function.Supplier;

/** The code under test, through its public interface only. */
final class Impl {
    /** What a call did. kind: V value, F failure, X threw, N returned null or a null value */
    record Got(char kind, Object value, Throwable error) {
        boolean ok() { return kind == 'V'; }
        boolean fail() { return kind == 'F'; }
        boolean broken() { return kind == 'X' || kind == 'N'; }
        @Override public String toString() {
            return switch (kind) {
                case 'V' -> "value " + show(value);
                case 'F' -> "failure (" + error + ")";
                case 'X' -> "EXCEPTION thrown to the caller (" + error + ")";
                default -> "null returned to the caller";
            };
        }
        static String show(Object o) {
            try { return o == null ? "null" : o.getClass().getSimpleName() + " " + o; } catch (Throwable t) { return o.getClass().getName(); }
        }
    }

    final BoolExpressionParser parser;
    final BooleanExpressionEvaluator bool;
    final ArithmeticExpressionEvaluator arith;

    Impl() { this(new BoolParser()); }
    Impl(BoolExpressionParser p) { parser = p; bool = new BooleanExpressionEvaluator(p); arith = new ArithmeticExpressionEvaluator(p); }
    static Impl cached(int size) { return new Impl(new CachedBoolParser(size)); }

    static <T> Got got(Supplier<Try<T>> s) {
        Try<T> t;
        try { t = s.get(); } catch (Throwable e) { return new Got('X', null, e); }
        if (t == null) return new Got('N', null, null);
        if (t.isFailure()) return new Got('F', null, t.getCause());
        return t.get() == null ? new Got('N', null, null) : new Got('V', t.get(), null);
    }

    Got cond(String text, Map<String, Object> data, String def) {
        return def == null ? got(() -> bool.evaluate(text, data)) : got(() -> bool.evaluate(text, data, def));
    }
    Got val(String text, Map<String, Object> data) { return got(() -> arith.evaluate(text, data)); }
    Got parse(String text, String def) { return got(() -> def == null ? parser.parseExpression(text) : parser.parseExpression(text, def)); }
    Node node(String text, String def) { Got g = parse(text, def); return g.ok() ? (Node) g.value() : null; }

    // ---- does an outcome agree with the model ---------------------------------------------------

    static boolean agrees(Out want, Got got) {
        if (got.broken()) return false;
        return switch (want.kind()) {
            case ANY -> true;
            case FAIL -> got.fail();
            case VAL -> got.ok() && same(want.v(), got.value());
            case VAL_OR_FAIL -> got.fail() || got.ok() && same(want.v(), got.value());
        };
    }

    static boolean same(V want, Object got) {
        if (want.k == V.K.OTHER && want.v instanceof Ref.OneOf one) {
            for (V v : one.vs()) if (same(v, got)) return true;
            return false;
        }
        if (want.k == V.K.VER) return got.toString().equals(want.v);
        if (want.k == V.K.LIST || want.k == V.K.OTHER) return true;
        V g = V.ofData(got);
        if (want.isNum()) {
            if (!g.isNum()) return false;
            if (!want.approx) return want.num().compareTo(g.num()) == 0;
            double a = want.num().doubleValue(), b = g.num().doubleValue();
            return a == b || Math.abs(a - b) <= want.err;
        }
        return g.k == want.k && g.v.equals(want.v);
    }
}
