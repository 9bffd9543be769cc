package mc;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import java.util.Map;

/** Runs calls on the code under test; loaded together with it by CLoader. */
public final class Driver implements Work {
    static final class Inst {
        final BoolExpressionParser parser; final BooleanExpressionEvaluator bool; final ArithmeticExpressionEvaluator arith;
        Inst(BoolExpressionParser p, boolean only) { parser = p; bool = null; arith = null; }
        Inst(BoolExpressionParser p) { parser = p; bool = new BooleanExpressionEvaluator(p); arith = new ArithmeticExpressionEvaluator(p); }
    }

    /** the k-th of the calls before */
    static String history(int k) { return k % 3 == 2 ? "NOT (h" + k + " > " + k + ")" : "h" + k + " = " + k; }

    @Override public Object make(String kind) {
        if (kind.equals("parser")) return new Inst(new BoolParser(), true);
        int used = kind.indexOf('+');
        if (used > 0) {   // after so many other calls
            Inst i = (Inst) make(kind.substring(0, used));
            for (int n = Integer.parseInt(kind.substring(used + 1)), k = 0; k < n; k++) { i.parser.parseExpression(history(k)); i.parser.parseExpression(history(k), null); }
            return i;
        }
        return new Inst(kind.startsWith("cache:") ? new CachedBoolParser(Integer.parseInt(kind.substring(6).replace("!", ""))) : new BoolParser());
    }

    @Override public String call(Object instance, int entry, String text, Map<String, Object> data, String def, Object[] keep) {
        Inst i = (Inst) instance;
        Try<?> t;
        try {
            t = switch (entry) {
                case 0 -> i.parser.parseExpression(text);
                case 1 -> i.parser.parseExpression(text, def);
                case 2 -> i.bool.evaluate(text, data);
                case 3 -> i.bool.evaluate(text, data, def);
                default -> i.arith.evaluate(text, data);
            };
        } catch (ThreadDeath e) {
            throw e;
        } catch (Throwable e) {
            return "EXCEPTION thrown to the caller: " + e;
        }
        if (t == null) return "null returned to the caller";
        if (t.isFailure()) return "failure " + t.getCause().getClass().getName();
        Object v = t.get();
        if (v instanceof Node) { keep[0] = v; return Dump.full(v); }
        return v == null ? "null value returned to the caller" : v.getClass().getSimpleName() + " " + v;
    }

    @Override public String again(Object kept) { return Dump.full(kept); }
}
