package mc;

import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
import com.github.sidhant92.boolparser.domain.logical.ArrayNode;
import com.github.sidhant92.boolparser.domain.logical.BooleanNode;
import com.github.sidhant92.boolparser.domain.logical.ComparisonNode;
import com.github.sidhant92.boolparser.domain.logical.InNode;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.domain.logical.NumericRangeNode;
import java.util.List;

/** A parse tree written out through its public getters. */
final class Dump {
    static String of(Object n) { StringBuilder b = new StringBuilder(); w((Node) n, b, false); return b.toString(); }
    /** with the data type of comparisons */
    static String full(Object n) { StringBuilder b = new StringBuilder(); w((Node) n, b, true); return b.toString(); }

    private static void l(List<Node> x, StringBuilder b, boolean full) {
        b.append('[');
        for (int i = 0; i < x.size(); i++) { if (i > 0) b.append(", "); w(x.get(i), b, full); }
        b.append(']');
    }
    static void value(Object v, StringBuilder b) { b.append(v == null ? "null" : v.getClass().getSimpleName() + "<" + v + ">"); }

    private static void w(Node n, StringBuilder b, boolean full) {
        if (n == null) { b.append("-"); return; }
        if (n instanceof BooleanNode x) {
            b.append(x.getOperator()).append('(');
            // a field directly under NOT is represented as a unary text
            if (x.getLeft() instanceof UnaryNode u && "STRING".equals(String.valueOf(u.getDataType())) && "NOT".equals(String.valueOf(x.getOperator()))) b.append("FIELD<").append(u.getValue()).append('>');
            else w(x.getLeft(), b, full);
            if (x.getRight() != null) { b.append(", "); w(x.getRight(), b, full); }
            b.append(')');
        } else if (n instanceof ComparisonNode x) {
            b.append(x.getOperator());
            if (full) b.append(':').append(x.getDataType());
            b.append('(');
            w(x.getLeft(), b, full); b.append(", "); w(x.getRight(), b, full); b.append(')');
        } else if (n instanceof ArithmeticNode x) {
            b.append(x.getOperator()).append('(');
            w(x.getLeft(), b, full);
            if (x.getRight() != null) { b.append(", "); w(x.getRight(), b, full); }
            b.append(')');
        } else if (n instanceof ArithmeticFunctionNode x) { b.append(x.getFunctionType()); l(x.getItems(), b, full); }
        else if (n instanceof UnaryNode x) { b.append(x.getDataType()).append(':'); value(x.getValue(), b); }
        else if (n instanceof FieldNode x) b.append("FIELD<").append(x.getField()).append('>');
        else if (n instanceof InNode x) { b.append("IN<").append(x.getField()).append('>'); l(x.getItems(), b, full); }
        else if (n instanceof ArrayNode x) { b.append(x.getOperator()).append('<').append(x.getField()).append('>'); l(x.getItems(), b, full); }
        else if (n instanceof NumericRangeNode x) {
            b.append("RANGE<").append(x.getField()).append(">[").append(x.getFromDataType()).append(':'); value(x.getFromValue(), b);
            b.append(", ").append(x.getToDataType()).append(':'); value(x.getToValue(), b); b.append(']');
        } else b.append("?").append(n.getClass().getName());
    }
}
