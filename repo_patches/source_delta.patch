From 64f465c83dab4d44b9d16950b67853498a5a51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 01/26] fix: parse operands in a fixed stack order so nested
 expressions keep their own operands

Only some sub-expressions put a node on the stack and operators guessed
whether to pop their operands from it, so compound operands of functions,
membership lists, comparisons and logical operators were lost, duplicated or
attached to the wrong parent (min(1,2+3)+min(2,3+4) was 9, a=1 AND b failed
for a boolean field b, a IN (-1,1) failed). Every expression now leaves one
node and every operator takes exactly its own operands.
---
 .../parser/antlr/BooleanFilterListener.java   | 207 +++++-------------
 1 file changed, 56 insertions(+), 151 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 92c3423..fd7d8c6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -1,13 +1,12 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
+import java.util.ArrayList;
+import java.util.LinkedList;
 import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
-import java.util.stream.Collectors;
-import org.antlr.v4.runtime.CommonToken;
+import org.antlr.v4.runtime.ParserRuleContext;
 import org.antlr.v4.runtime.Token;
-import org.antlr.v4.runtime.tree.ParseTree;
-import org.antlr.v4.runtime.tree.TerminalNodeImpl;
 import org.apache.commons.lang3.StringUtils;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.constant.DataType;
@@ -31,16 +30,11 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     private final Stack<Node> currentNodes;
 
-    private org.antlr.v4.runtime.Token lastToken;
-
-    private int tokenCount;
-
     private final String defaultField;
 
     public BooleanFilterListener(final String defaultField) {
         this.defaultField = defaultField;
         this.node = null;
-        this.lastToken = null;
         this.currentNodes = new Stack<>();
     }
 
@@ -50,22 +44,28 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitComparatorExpression(BooleanExpressionParser.ComparatorExpressionContext ctx) {
-        currentNodes.add(mapComparatorExpressionContext(ctx));
-        super.enterComparatorExpression(ctx);
+        final Node right = popNode(ctx);
+        final Node left = popNode(ctx);
+        final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
+        final boolean onlyLeftIsValue = ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && !(ctx.right instanceof BooleanExpressionParser.TypesExpressionContext);
+        final DataType dataType = getDataType(onlyLeftIsValue ? ctx.left.getStart() : ctx.right.getStart());
+        currentNodes.add(new ComparisonNode(left, right, operator, dataType));
+        super.exitComparatorExpression(ctx);
     }
 
     @Override
     public void exitArithmeticExpression(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
-        currentNodes.add(mapArithmeticExpressionContext(ctx));
+        final Node right = popNode(ctx);
+        final Node left = popNode(ctx);
+        final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
+        currentNodes.add(ArithmeticNode.builder().left(left).right(right).operator(operator).build());
         super.exitArithmeticExpression(ctx);
     }
 
     @Override
     public void exitUnaryArithmeticExpression(BooleanExpressionParser.UnaryArithmeticExpressionContext ctx) {
-        final Node leafNode = !currentNodes.isEmpty() && currentNodes.peek() instanceof ArithmeticNode ? currentNodes.pop() : mapTypesExpressionContext(
-                (BooleanExpressionParser.TypesExpressionContext) ctx.exp);
-        currentNodes.add(ArithmeticNode.builder().left(leafNode).operator(Operator.UNARY).build());
-        super.enterUnaryArithmeticExpression(ctx);
+        currentNodes.add(ArithmeticNode.builder().left(popNode(ctx)).operator(Operator.UNARY).build());
+        super.exitUnaryArithmeticExpression(ctx);
     }
 
     @Override
@@ -78,7 +78,7 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     public void exitArrayExpression(BooleanExpressionParser.ArrayExpressionContext ctx) {
         validateField(ctx.field, ctx.getText());
         final String field = getField(ctx.field.getText());
-        final List<Node> items = getArrayElements(ctx.data.children);
+        final List<Node> items = popArrayElements(ctx.data);
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
         currentNodes.add(new ArrayNode(field, operator, items));
         super.exitArrayExpression(ctx);
@@ -86,127 +86,53 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitArithmeticFunctionExpression(BooleanExpressionParser.ArithmeticFunctionExpressionContext ctx) {
-        final Node node = mapArithmeticFunctionExpressionContext(ctx);
-        currentNodes.add(node);
+        if (ctx.data.exception != null) {
+            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
+        }
+        final FunctionType functionType = FunctionType.getArrayFunctionFromSymbol(ctx.left.getText()).orElseThrow(() -> {
+            return new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
+        });
+        currentNodes.add(new ArithmeticFunctionNode(functionType, popArrayElements(ctx.data)));
         super.exitArithmeticFunctionExpression(ctx);
     }
 
     @Override
     public void exitInExpression(BooleanExpressionParser.InExpressionContext ctx) {
-        currentNodes.add(mapInExpressionContext(ctx));
+        validateField(ctx.field, ctx.getText());
+        final String field = getField(ctx.field.getText());
+        final InNode inNode = new InNode(field, popArrayElements(ctx.data));
+        currentNodes.add(Objects.isNull(ctx.not) ? inNode : new BooleanNode(inNode, null, LogicalOperationType.NOT));
         super.exitInExpression(ctx);
     }
 
-    private List<Node> getArrayElements(final List<ParseTree> trees) {
-        return trees
-                .stream()
-                .filter(child -> !(child instanceof TerminalNodeImpl))
-                .map(this::mapContextToNode)
-                .collect(Collectors.toList());
-    }
-
-    private Node mapContextToNode(final ParseTree ctx) {
-        if (ctx instanceof BooleanExpressionParser.ArithmeticExpressionContext) {
-            return mapArithmeticExpressionContext((BooleanExpressionParser.ArithmeticExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.InExpressionContext) {
-            return mapInExpressionContext((BooleanExpressionParser.InExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ArithmeticFunctionExpressionContext) {
-            return mapArithmeticFunctionExpressionContext((BooleanExpressionParser.ArithmeticFunctionExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ComparatorExpressionContext) {
-            return mapComparatorExpressionContext((BooleanExpressionParser.ComparatorExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ToExpressionContext) {
-            return mapToExpressionContext((BooleanExpressionParser.ToExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && ((BooleanExpressionParser.TypesExpressionContext) ctx).start.getType() == BooleanExpressionLexer.FIELD) {
-            return mapTypesExpressionContextField((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
-            return mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else {
-            throw new InvalidExpressionException(String.format("Array does not support this expression %s", ctx.getText()));
+    /**
+     * Every expression leaves exactly one node on the stack, and takes the nodes of its own operands off it.
+     */
+    private Node popNode(final ParserRuleContext ctx) {
+        if (currentNodes.isEmpty()) {
+            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
         }
+        return currentNodes.pop();
     }
 
-    private FieldNode mapTypesExpressionContextField(BooleanExpressionParser.TypesExpressionContext ctx) {
-        final String value = StringUtils.isBlank(ctx.getText()) ? defaultField : ctx.getText();
-        return new FieldNode(value);
+    private List<Node> popArrayElements(final BooleanExpressionParser.WordlistContext ctx) {
+        final LinkedList<Node> items = new LinkedList<>();
+        ctx.expression().forEach(expression -> items.addFirst(popNode(expression)));
+        return new ArrayList<>(items);
     }
 
     private Node mapTypesExpressionContext(BooleanExpressionParser.TypesExpressionContext ctx) {
-        if (ctx.start.getType() == BooleanExpressionLexer.FIELD) {
-            return mapTypesExpressionContextField(ctx);
-        }
         if (StringUtils.isBlank(ctx.getText())) {
-            return mapTypesExpressionContextField(ctx);
-        }
-        final DataType dataType = getDataType(ctx.start);
-        final Object value = ValueUtils.convertValue(ctx.start.getText(), dataType);
-        return new UnaryNode(dataType, value);
-    }
-
-    private ArithmeticFunctionNode mapArithmeticFunctionExpressionContext(BooleanExpressionParser.ArithmeticFunctionExpressionContext ctx) {
-        if (ctx.data.exception != null) {
-            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-        }
-        final FunctionType functionType = FunctionType.getArrayFunctionFromSymbol(ctx.left.getText()).orElseThrow(() -> {
-            return new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-        });
-        final List<Node> items = getArrayElements(ctx.data.children);
-        return new ArithmeticFunctionNode(functionType, items);
-    }
-
-    private ComparisonNode mapComparatorExpressionContext(BooleanExpressionParser.ComparatorExpressionContext ctx) {
-        final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-
-        if (!currentNodes.isEmpty() && ((ctx.right instanceof BooleanExpressionParser.ParentExpressionContext || ctx.left instanceof BooleanExpressionParser.ParentExpressionContext) || !(currentNodes.peek() instanceof ComparisonNode || currentNodes.peek() instanceof BooleanNode))) {
-            if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.left.getStart());
-                final Node value = mapContextToNode(ctx.left);
-                return new ComparisonNode(value, currentNodes.pop(), operator, dataType);
-            } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.right.getStart());
-                final Node value = mapContextToNode(ctx.right);
-                return new ComparisonNode(currentNodes.pop(), value, operator, dataType);
+            if (StringUtils.isBlank(defaultField)) {
+                throw new InvalidExpressionException("Error parsing expression (missing field)");
             }
+            return new FieldNode(defaultField);
         }
-
-        final DataType dataType = getDataType(ctx.right.getStart());
-        final Node value = mapContextToNode(ctx.right);
-        return new ComparisonNode(mapContextToNode(ctx.left), value, operator, dataType);
-    }
-
-    private ArithmeticNode mapArithmeticExpressionContext(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
-        final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else {
-            if (currentNodes.size() < 2) {
-                throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-            }
-            final Node right = currentNodes.pop();
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        }
-    }
-
-    private Node mapInExpressionContext(BooleanExpressionParser.InExpressionContext ctx) {
-        validateField(ctx.field, ctx.getText());
-        final String field = getField(ctx.field.getText());
-        final List<Node> items = getArrayElements(ctx.data.children);
-        final InNode inNode = new InNode(field, items);
-        if (Objects.isNull(ctx.not)) {
-            return inNode;
-        } else {
-            return new BooleanNode(inNode, null, LogicalOperationType.NOT);
+        if (ctx.start.getType() == BooleanExpressionLexer.FIELD) {
+            return new FieldNode(ctx.getText());
         }
+        final DataType dataType = getDataType(ctx.start);
+        return new UnaryNode(dataType, ValueUtils.convertValue(ctx.start.getText(), dataType));
     }
 
     private NumericRangeNode mapToExpressionContext(BooleanExpressionParser.ToExpressionContext ctx) {
@@ -262,50 +188,29 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitParse(BooleanExpressionParser.ParseContext ctx) {
-        if (this.node == null && !this.currentNodes.isEmpty()) {
-            this.node = currentNodes.pop();
-        }
-        if (this.node == null && tokenCount == 1 && lastToken instanceof CommonToken) {
-            this.node = lastToken.getType() == BooleanExpressionLexer.FIELD ? FieldNode.builder().field(lastToken.getText()).build() : UnaryNode
-                    .builder().dataType(DataType.STRING).value(ValueUtils.convertValue(lastToken.getText(), DataType.STRING).toString()).build();
-        }
-        if (this.node == null) {
-            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-        }
+        this.node = popNode(ctx);
         super.exitParse(ctx);
     }
 
     @Override
     public void exitNotExpression(BooleanExpressionParser.NotExpressionContext ctx) {
-        if (currentNodes.isEmpty()) {
-            if (lastToken == null) {
-                throw new InvalidExpressionException(String.format("Error parsing not expression for the string %s", ctx.getText()));
-            }
-            final DataType dataType = getDataType(lastToken);
-            final Object value = ValueUtils.convertValue(lastToken.getText(), dataType);
-            currentNodes.add(new UnaryNode(dataType, value));
-        }
-        final BooleanNode booleanToken = new BooleanNode(currentNodes.pop(), null, LogicalOperationType.NOT);
-        currentNodes.add(booleanToken);
+        final Node operand = popNode(ctx);
+        final Node left = operand instanceof FieldNode ? new UnaryNode(DataType.STRING, ((FieldNode) operand).getField()) : operand;
+        currentNodes.add(new BooleanNode(left, null, LogicalOperationType.NOT));
         super.exitNotExpression(ctx);
     }
 
     @Override
     public void exitTypesExpression(BooleanExpressionParser.TypesExpressionContext ctx) {
-        tokenCount++;
-        this.lastToken = ctx.start;
+        currentNodes.add(mapTypesExpressionContext(ctx));
+        super.exitTypesExpression(ctx);
     }
 
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
-        if (currentNodes.size() < 2) {
-            throw new InvalidExpressionException(String.format("Error parsing binary expression for the string %s", ctx.getText()));
-        }
-        final Node firstNode = currentNodes.pop();
-        final Node secondNode = currentNodes.pop();
-        final LogicalOperationType operator = getLogicalOperator(ctx.op.getStart());
-        final BooleanNode booleanToken = new BooleanNode(secondNode, firstNode, operator);
-        currentNodes.add(booleanToken);
-        super.enterBinaryExpression(ctx);
+        final Node right = popNode(ctx);
+        final Node left = popNode(ctx);
+        currentNodes.add(new BooleanNode(left, right, getLogicalOperator(ctx.op.getStart())));
+        super.exitBinaryExpression(ctx);
     }
 }
-- 
2.43.0


From a0da5304e460664f0833ba94ac8af99ed1e08244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 02/26] fix: reject text outside of the grammar instead of
 ignoring it

Lexer and parser errors were only printed to stderr and recovered from, so
'a = 1 garbage', 'a -5 TO 5' or 'a # = 1' evaluated as some other expression.
They now fail the parsing; a closing parenthesis missing at the very end is
still tolerated.
---
 .../boolparser/parser/antlr/BoolParser.java   |  4 +++
 .../parser/antlr/SyntaxErrorListener.java     | 31 +++++++++++++++++++
 2 files changed, 35 insertions(+)
 create mode 100644 src/main/java/com/github/sidhant92/boolparser/parser/antlr/SyntaxErrorListener.java

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
index 29f4454..c4a501b 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
@@ -32,8 +32,12 @@ public class BoolParser implements BoolExpressionParser {
 
     protected Node parse(final String expression, final String defaultField) {
         final BooleanExpressionLexer filterLexer = new BooleanExpressionLexer(CharStreams.fromString(expression));
+        filterLexer.removeErrorListeners();
+        filterLexer.addErrorListener(new SyntaxErrorListener());
         final CommonTokenStream commonTokenStream = new CommonTokenStream(filterLexer);
         final BooleanExpressionParser filterParser = new BooleanExpressionParser(commonTokenStream);
+        filterParser.removeErrorListeners();
+        filterParser.addErrorListener(new SyntaxErrorListener());
         final ParseTree parseTree = filterParser.parse();
 
         final BooleanFilterListener listener = new BooleanFilterListener(defaultField);
diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/SyntaxErrorListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/SyntaxErrorListener.java
new file mode 100644
index 0000000..351237e
--- /dev/null
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/SyntaxErrorListener.java
@@ -0,0 +1,31 @@
+package com.github.sidhant92.boolparser.parser.antlr;
+
+import org.antlr.v4.runtime.BaseErrorListener;
+import org.antlr.v4.runtime.Parser;
+import org.antlr.v4.runtime.RecognitionException;
+import org.antlr.v4.runtime.Recognizer;
+import org.antlr.v4.runtime.Token;
+import org.antlr.v4.runtime.misc.IntervalSet;
+import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
+
+/**
+ * Fails the parsing on any text outside of the grammar, a closing parenthesis missing at the very end is tolerated.
+ */
+public class SyntaxErrorListener extends BaseErrorListener {
+    @Override
+    public void syntaxError(final Recognizer<?, ?> recognizer, final Object offendingSymbol, final int line, final int charPositionInLine,
+                            final String msg, final RecognitionException e) {
+        if (isClosingParenthesisMissingAtEnd(recognizer, offendingSymbol)) {
+            return;
+        }
+        throw new InvalidExpressionException(String.format("Error parsing expression at position %s:%s %s", line, charPositionInLine, msg));
+    }
+
+    private boolean isClosingParenthesisMissingAtEnd(final Recognizer<?, ?> recognizer, final Object offendingSymbol) {
+        if (!(recognizer instanceof Parser) || !(offendingSymbol instanceof Token) || ((Token) offendingSymbol).getType() != Token.EOF) {
+            return false;
+        }
+        final IntervalSet expectedTokens = ((Parser) recognizer).getExpectedTokens();
+        return expectedTokens.contains(BooleanExpressionParser.RPAREN) && !expectedTokens.contains(BooleanExpressionParser.LPAREN);
+    }
+}
-- 
2.43.0


From 3ffcb1cce870e610e903b568b077f7b7c23047f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 03/26] fix: evaluate a bare boolean field as a condition and
 fail on non-conditions

A field used directly as an operand of AND/OR (or as the whole expression)
was always false whatever its value, and so was an arithmetic expression.
---
 .../application/BooleanExpressionEvaluator.java     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 55375a6..6da8170 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -23,6 +23,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticBaseNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
 import com.github.sidhant92.boolparser.exception.HeterogeneousArrayException;
 import com.github.sidhant92.boolparser.exception.InvalidUnaryOperand;
+import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.operator.OperatorService;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import com.github.sidhant92.boolparser.util.ValueUtils;
@@ -66,10 +67,12 @@ public class BooleanExpressionEvaluator {
                 return evaluateArrayToken((ArrayNode) node, data);
             case UNARY:
                 return evaluateUnaryToken((UnaryNode) node, data);
+            case FIELD:
+                return evaluateBooleanField(((FieldNode) node).getField(), data);
             case BOOLEAN:
                 return evaluateBooleanNode((BooleanNode) node, data);
             default:
-                return false;
+                throw new UnsupportedToken(node.getTokenType().name());
         }
     }
 
@@ -161,8 +164,12 @@ public class BooleanExpressionEvaluator {
         if (unaryToken.getDataType().equals(DataType.BOOLEAN)) {
             return (boolean) unaryToken.getValue();
         }
-        final Object fieldData = ValueUtils.getValueFromMap(unaryToken.getValue().toString(), data)
-                                           .orElseThrow(() -> new DataNotFoundException(unaryToken.getValue().toString()));
+        return evaluateBooleanField(unaryToken.getValue().toString(), data);
+    }
+
+    private boolean evaluateBooleanField(final String field, final Map<String, Object> data) {
+        final Object fieldData = ValueUtils.getValueFromMap(field, data)
+                                           .orElseThrow(() -> new DataNotFoundException(field));
         if (!(fieldData instanceof Boolean)) {
             throw new InvalidUnaryOperand();
         }
-- 
2.43.0


From d45ef95598e104cddc5f780fe6f9c4ef7bfc2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 04/26] fix: decide null checks on the operand that is compared
 with null

With null written first ('null = a') the check compared null with itself and
was always true, and a field holding the text "null" counted as null.
---
 .../application/BooleanExpressionEvaluator.java      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 6da8170..49dccd4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -92,11 +92,15 @@ public class BooleanExpressionEvaluator {
     }
 
     private boolean evaluateComparisonToken(final ComparisonNode comparisonToken, final Map<String, Object> data) {
-        final Optional<Object> leftValueOptional = getValue(comparisonToken.getLeft(), data);
-
-        final Object leftData = comparisonToken.isNullCheck() ? leftValueOptional.orElse("null") : leftValueOptional.orElseThrow(
+        if (comparisonToken.isNullCheck()) {
+            final boolean isRightNull = comparisonToken.getRight() instanceof FieldNode && ((FieldNode) comparisonToken.getRight()).isNull();
+            final Node operand = isRightNull ? comparisonToken.getLeft() : comparisonToken.getRight();
+            final boolean isNull = !getValue(operand, data).isPresent();
+            return (comparisonToken.getOperator() == Operator.EQUALS) == isNull;
+        }
+        final Object leftData = getValue(comparisonToken.getLeft(), data).orElseThrow(
                 () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = comparisonToken.isNullCheck() ? "null" : getValue(comparisonToken.getRight(), data).get();
+        final Object rightData = getValue(comparisonToken.getRight(), data).get();
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
-- 
2.43.0


From ea73e4a0e65efae10e22cb499d540165a55018b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 05/26] fix: report a missing right operand as missing data

A comparison with a field on the right that is not in the data failed with an
unrelated NoSuchElementException instead of DataNotFoundException.
---
 .../boolparser/application/BooleanExpressionEvaluator.java     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 49dccd4..996b8a0 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -100,7 +100,8 @@ public class BooleanExpressionEvaluator {
         }
         final Object leftData = getValue(comparisonToken.getLeft(), data).orElseThrow(
                 () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = getValue(comparisonToken.getRight(), data).get();
+        final Object rightData = getValue(comparisonToken.getRight(), data).orElseThrow(
+                () -> new DataNotFoundException(((FieldNode) comparisonToken.getRight()).getField()));
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
-- 
2.43.0


From 148eb40d10a0ceb42a88f695b48164c8bddb836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 06/26] fix: keep the cached expressions of different default
 fields apart

The cache key joined expression and default field with an underscore, so
('x > 1', 'a_b') style pairs could collide and return the tree of another
expression.
---
 .../boolparser/parser/antlr/CachedBoolParser.java          | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
index 2c6289f..1693c58 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
@@ -1,6 +1,6 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
-import java.util.Optional;
+import org.apache.commons.lang3.tuple.Pair;
 import com.github.benmanes.caffeine.cache.Cache;
 import com.github.benmanes.caffeine.cache.Caffeine;
 import com.github.sidhant92.boolparser.domain.logical.Node;
@@ -8,7 +8,7 @@ import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import io.vavr.control.Try;
 
 public class CachedBoolParser extends BoolParser {
-    private final Cache<String, Node> cache;
+    private final Cache<Pair<String, String>, Node> cache;
 
     public CachedBoolParser(final int maxCacheSize) {
         OperatorFactory.initialize();
@@ -26,7 +26,6 @@ public class CachedBoolParser extends BoolParser {
     }
 
     private Node getNode(final String expression, final String defaultField) {
-        final String cacheKey = expression + "_" + Optional.ofNullable(defaultField).orElse("");
-        return cache.get(cacheKey, ex -> super.parse(expression, defaultField));
+        return cache.get(Pair.of(expression, defaultField), ex -> super.parse(expression, defaultField));
     }
 }
-- 
2.43.0


From 46c850bc127ddcbd811852eccdefcca5aedd3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 07/26] fix: never wrap around in integer arithmetic

Subtraction and negation of integers wrapped at 32 bits (2147483647 - -1,
-(-2147483648)) and sums, differences and products of longs at 64 bits. They
widen to long now, and fail when a long does not hold the result.
---
 .../boolparser/operator/arithmetic/AddOperator.java    |  2 +-
 .../operator/arithmetic/MultiplyOperator.java          |  2 +-
 .../operator/arithmetic/SubtractOperator.java          | 10 +++-------
 .../boolparser/operator/arithmetic/UnaryOperator.java  |  5 +++--
 4 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
index d26a62b..2a80de1 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
@@ -28,7 +28,7 @@ public class AddOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().add(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() + longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.addExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
index 931a3ff..4e729b2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
@@ -24,7 +24,7 @@ public class MultiplyOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().multiply(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() * longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.multiplyExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
index fc4917c..bc5c76a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
@@ -8,8 +8,8 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.DecimalDataType;
-import com.github.sidhant92.boolparser.datatype.IntegerDataType;
 import com.github.sidhant92.boolparser.datatype.LongDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -23,12 +23,8 @@ public class SubtractOperator extends AbstractOperator {
             final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
             return decimalDataType.getValue(leftOperand).get().subtract(decimalDataType.getValue(rightOperand).get());
         }
-        if (leftOperandDataType.equals(DataType.LONG) || rightOperandDataType.equals(DataType.LONG)) {
-            final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get();
-        }
-        final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
-        return integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get();
+        final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
+        return ValueUtils.castLong(Math.subtractExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 8c0675c..0aca8f8 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -7,6 +7,7 @@ import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -20,9 +21,9 @@ public class UnaryOperator extends AbstractOperator {
             return ((BigDecimal) leftOperand).negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
-            return -(long) leftOperand;
+            return Math.negateExact((long) leftOperand);
         }
-        return -(int) leftOperand;
+        return ValueUtils.castLong(-(long) (int) leftOperand);
     }
 
     @Override
-- 
2.43.0


From cd22a087603a6969733d78f70ca7127411de002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 08/26] fix: negate Double and Float fields

Unary minus cast every decimal operand to BigDecimal and failed with a
ClassCastException for Double and Float values, which all other operators take.
---
 .../boolparser/operator/arithmetic/UnaryOperator.java       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 0aca8f8..5db26d9 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -1,12 +1,13 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
-import java.math.BigDecimal;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
@@ -18,7 +19,8 @@ public class UnaryOperator extends AbstractOperator {
     public Object evaluate(final Object leftOperand, final DataType leftOperandDataType, final Object rightOperand,
                            final DataType rightOperandDataType) {
         if (leftOperandDataType.equals(DataType.DECIMAL)) {
-            return ((BigDecimal) leftOperand).negate();
+            final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+            return decimalDataType.getValue(leftOperand).get().negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
             return Math.negateExact((long) leftOperand);
-- 
2.43.0


From a484d5a9a765d7d39c07d906a88482dab04b7d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 09/26] fix: return whole decimal results beyond the int range

Whole results of divisions and decimal functions were narrowed to int, which
failed for values beyond it (6000000000 / 2).
---
 .../com/github/sidhant92/boolparser/util/ValueUtils.java    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 7e9e377..9a550bf 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -102,7 +102,11 @@ public class ValueUtils {
 
     public static Object castDecimal(final BigDecimal value) {
         if (value.signum() == 0 || value.scale() <= 0 || value.stripTrailingZeros().scale() <= 0) {
-            return value.intValueExact();
+            try {
+                return castLong(value.longValueExact());
+            } catch (final ArithmeticException ignored) {
+                return value;
+            }
         }
         return value;
     }
-- 
2.43.0


From 909cff71b81abec7a3add901775e72f5df4911d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 10/26] fix: keep MIN, MAX and SUM of longs exact

Their results went through double, which loses digits beyond 2^53, and SUM
wrapped around on overflow.
---
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 5f3b8a8..279aa49 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -39,8 +39,8 @@ public class MaxFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index b18bcb8..6b065d6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -39,8 +39,8 @@ public class MinFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 455339c..999e5c5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -36,8 +36,8 @@ public class SumFunction extends AbstractFunction {
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
-        return ValueUtils.castDecimal(sum);
+                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0L, Math::addExact);
+        return ValueUtils.castLong(sum);
     }
 
     @Override
-- 
2.43.0


From 5ae2e05326955bffb919fd22f333d47ccabf1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 11/26] fix: average integers whose mean has more than two
 decimals

AVG and MEAN of integers failed whenever the result needed rounding
(avg(1, 2, 2)); they truncate to three decimals now, as for decimals.
---
 .../boolparser/function/arithmetic/AvgFunction.java         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 909c11e..5a847e4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -36,9 +36,9 @@ public class AvgFunction extends AbstractFunction {
             return ValueUtils.castDecimal(sum.divide(new BigDecimal(itemsConverted.size()), 3, RoundingMode.DOWN));
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
-        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
+        final BigDecimal sum = items
+                .stream().map(a -> BigDecimal.valueOf(longDataType.getValue(a.getValue()).get())).reduce(BigDecimal.ZERO, BigDecimal::add);
+        return ValueUtils.castDecimal(sum.divide(new BigDecimal(items.size()), 3, RoundingMode.DOWN));
     }
 
     @Override
-- 
2.43.0


From c58af9d325959063d4761a52ce3869cccaaf5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 12/26] fix: do not wrap values beyond the int range in INT

INT(3000000000) was -1294967296.
---
 .../boolparser/function/arithmetic/IntFunction.java       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
index d3a28de..2ec03d5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.RoundingMode;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -9,6 +10,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -19,10 +21,8 @@ public class IntFunction extends AbstractFunction {
     public Object evaluate(final List<EvaluatedNode> items) {
         final EvaluatedNode item = items.get(0);
         if (item.getDataType() == DataType.DECIMAL) {
-            return ((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).intValue();
-        }
-        if (item.getDataType() == DataType.LONG) {
-            return ((Long) item.getValue()).intValue();
+            final BigDecimal value = (BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get();
+            return ValueUtils.castDecimal(value.scale() > 0 ? value.setScale(0, RoundingMode.DOWN) : value);
         }
         return item.getValue();
     }
-- 
2.43.0


From 414e1128d8c1dcc3403bc767134afabfc311a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 13/26] fix: return the number of elements as the LEN of every
 list

LEN of a list with one string was the length of that string, and LEN of an
empty list failed.
---
 .../application/ArithmeticExpressionEvaluator.java           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
index 56f4e71..324eeaf 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
@@ -1,11 +1,13 @@
 package com.github.sidhant92.boolparser.application;
 
+import java.util.Collection;
 import java.util.List;
 import java.util.Map;
 import java.util.Optional;
 import java.util.stream.Collectors;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
+import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.domain.FieldNode;
@@ -79,6 +81,9 @@ public class ArithmeticExpressionEvaluator {
                 .stream()
                 .map(item -> evaluate(item, data))
                 .collect(Collectors.toList());
+        if (arithmeticFunctionNode.getFunctionType() == FunctionType.LEN && resolvedValues.size() == 1 && resolvedValues.get(0) instanceof Collection) {
+            return ((Collection<?>) resolvedValues.get(0)).size();
+        }
         final List<EvaluatedNode> flattenedValues = ValueUtils.mapToEvaluatedNodes(resolvedValues);
         return functionEvaluatorService.evaluateArithmeticFunction(arithmeticFunctionNode.getFunctionType(), flattenedValues);
     }
-- 
2.43.0


From 13634e51225e1fbe2fb0f1144a95801653fe3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 14/26] fix: compare the elements of a collection by their own
 types in CONTAINS

Elements were compared as text, so [1.0] did not contain 1, sets and arrays
passed validation and then failed with a ClassCastException, and a null
element failed the evaluation.
---
 .../operator/comparison/ContainsAllOperator.java          | 8 ++++++--
 .../operator/comparison/ContainsAnyOperator.java          | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index c87b0b8..aefc9ac 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -1,13 +1,16 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
+import java.util.Objects;
 import java.util.stream.Collectors;
 import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
@@ -21,8 +24,9 @@ public class ContainsAllOperator extends AbstractOperator {
             return false;
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
+                .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
+                .filter(Objects::nonNull)
+                .map(a -> Pair.of(a, ValueUtils.getDataType(a)))
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().allMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 917135a..638d9f9 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -1,13 +1,16 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
+import java.util.Objects;
 import java.util.stream.Collectors;
 import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
@@ -21,8 +24,9 @@ public class ContainsAnyOperator extends AbstractOperator {
             return false;
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
+                .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
+                .filter(Objects::nonNull)
+                .map(a -> Pair.of(a, ValueUtils.getDataType(a)))
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().anyMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
-- 
2.43.0


From a797ee5ee893db547c4eea6ee6c600573783ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 15/26] fix: do not take impossible dates for other dates

2023-02-31 was read as 2023-02-28, in expressions and in data. Such literals
are rejected now and such data is ordinary text.
---
 .../sidhant92/boolparser/datatype/DateDataType.java    |  3 ++-
 .../boolparser/datatype/DateTimeDataType.java          |  3 ++-
 .../github/sidhant92/boolparser/util/ValueUtils.java   | 10 ++++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
index 999e616..7fa1e5a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDate;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateDataType extends AbstractDataType<LocalDate> {
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
 
     public DateDataType() {
         super(LocalDate.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
index 3418b46..fca3a35 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateTimeDataType extends AbstractDataType<LocalDateTime> {
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     public DateTimeDataType() {
         super(LocalDateTime.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 9a550bf..097c7b4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -5,6 +5,7 @@ import java.time.LocalDate;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.ArrayList;
 import java.util.Arrays;
 import java.util.Collection;
@@ -15,6 +16,7 @@ import java.util.stream.Collectors;
 import org.apache.maven.artifact.versioning.ComparableVersion;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 
 public class ValueUtils {
     public static Optional<Object> getValueFromMap(final String key, final Map<String, Object> data) {
@@ -72,9 +74,9 @@ public class ValueUtils {
             case VERSION:
                 return new ComparableVersion(value);
             case DATE:
-                return parseDate(value).orElse(null);
+                return parseDate(value).orElseThrow(() -> new InvalidExpressionException(String.format("Invalid date %s", value)));
             case DATETIME:
-                return parseDateTime(value).orElse(null);
+                return parseDateTime(value).orElseThrow(() -> new InvalidExpressionException(String.format("Invalid datetime %s", value)));
             default:
                 if (value.startsWith("'") && value.endsWith("'")) {
                     return value.substring(1, value.length() - 1);
@@ -160,8 +162,8 @@ public class ValueUtils {
         return DataType.STRING;
     }
 
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     private static Optional<LocalDate> parseDate(String dateString) {
         try {
-- 
2.43.0


From 98237612cfa3020edbb158c474be07b1967d56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 16/26] fix: aggregate lists with a single value

MIN, MAX, SUM, AVG, MEAN, MEDIAN and MODE rejected a single value, so they
failed as soon as a list in the data had just one element.
---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MeanFunction.java | 3 +--
 .../boolparser/function/arithmetic/MedianFunction.java         | 2 +-
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/ModeFunction.java | 3 +--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java  | 3 +--
 7 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 5a847e4..c687ed2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -3,7 +3,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 import java.math.BigDecimal;
 import java.math.RoundingMode;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import java.util.stream.Collectors;
@@ -48,7 +47,7 @@ public class AvgFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 279aa49..d063010 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MaxFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
index 36ba128..f14e1b4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
@@ -1,7 +1,6 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
@@ -26,7 +25,7 @@ public class MeanFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
index 90f0d12..86c5061 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
@@ -47,7 +47,7 @@ public class MedianFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index 6b065d6..f4144e6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MinFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 01f9945..685a595 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.HashMap;
 import java.util.List;
 import java.util.Map;
@@ -56,7 +55,7 @@ public class ModeFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 999e5c5..7632e5e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import java.util.stream.Collectors;
@@ -47,7 +46,7 @@ public class SumFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
-- 
2.43.0


From 842ab522f75f4dc9a97facb3381183365e5dc298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 17/26] fix: count equal numbers of different types as one
 value in MODE

1, 1.0 and 1.00 were counted apart, so MODE could return a less frequent value.
---
 .../boolparser/function/arithmetic/ModeFunction.java     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 685a595..8a1ccf6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -24,19 +24,20 @@ public class ModeFunction extends AbstractFunction {
 
         for (int i = 0; i < items.size(); i++) {
             final Object value = items.get(i).getValue();
+            final Object key = new BigDecimal(value.toString()).stripTrailingZeros();
 
-            if (hm.get(value) != null) {
+            if (hm.get(key) != null) {
 
-                int count = hm.get(value);
+                int count = hm.get(key);
                 count++;
-                hm.put(value, count);
+                hm.put(key, count);
 
                 if (count > max) {
                     max = count;
                     temp = value;
                 }
             } else {
-                hm.put(value, 1);
+                hm.put(key, 1);
             }
         }
         if (temp instanceof BigDecimal) {
-- 
2.43.0


From 1db7bf532ec28ecc56bc042d6b3fad6880465512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 18/26] fix: compare versions as versions for equality

= and != compared a version with the text in the data as text, while the
ordering operators compared versions, so '1.0' was neither less than, greater
than nor equal to 1.0.0.
---
 .../boolparser/operator/comparison/EqualsOperator.java      | 6 ++++++
 .../boolparser/operator/comparison/NotEqualsOperator.java   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/EqualsOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/EqualsOperator.java
index d2befb8..9a3b883 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/EqualsOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/EqualsOperator.java
@@ -27,6 +27,12 @@ public class EqualsOperator extends AbstractOperator {
     }
 
     private DataType getComparableDataType(final DataType leftOperandDataType, final DataType rightOperandDataType) {
+        if (leftOperandDataType == DataType.VERSION && rightOperandDataType == DataType.STRING) {
+            return leftOperandDataType;
+        }
+        if (leftOperandDataType == DataType.STRING && rightOperandDataType == DataType.VERSION) {
+            return rightOperandDataType;
+        }
         if (leftOperandDataType.priority > rightOperandDataType.priority) {
             return leftOperandDataType;
         }
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/NotEqualsOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/NotEqualsOperator.java
index 8e1da31..a4f13ae 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/NotEqualsOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/NotEqualsOperator.java
@@ -27,6 +27,12 @@ public class NotEqualsOperator extends AbstractOperator {
     }
 
     private DataType getComparableDataType(final DataType leftOperandDataType, final DataType rightOperandDataType) {
+        if (leftOperandDataType == DataType.VERSION && rightOperandDataType == DataType.STRING) {
+            return leftOperandDataType;
+        }
+        if (leftOperandDataType == DataType.STRING && rightOperandDataType == DataType.VERSION) {
+            return rightOperandDataType;
+        }
         if (leftOperandDataType.priority > rightOperandDataType.priority) {
             return leftOperandDataType;
         }
-- 
2.43.0


From a3f8c93311c86bc38b7ee59642873f0d1c4b464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 19/26] fix: parse versions with a major of several digits

10.2.3 was taken for a field, which is missing in the data, as the version
token allows just one digit in front of the first dot.
---
 .../parser/antlr/BooleanFilterListener.java        | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index fd7d8c6..b94495d 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -5,6 +5,7 @@ import java.util.LinkedList;
 import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
+import java.util.regex.Pattern;
 import org.antlr.v4.runtime.ParserRuleContext;
 import org.antlr.v4.runtime.Token;
 import org.apache.commons.lang3.StringUtils;
@@ -26,6 +27,8 @@ import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
 public class BooleanFilterListener extends BooleanExpressionBaseListener {
+    private static final Pattern VERSION_PATTERN = Pattern.compile("[0-9]+(\\.[0-9]+){2,}");
+
     private Node node;
 
     private final Stack<Node> currentNodes;
@@ -128,7 +131,7 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
             }
             return new FieldNode(defaultField);
         }
-        if (ctx.start.getType() == BooleanExpressionLexer.FIELD) {
+        if (ctx.start.getType() == BooleanExpressionLexer.FIELD && !isVersion(ctx.start)) {
             return new FieldNode(ctx.getText());
         }
         final DataType dataType = getDataType(ctx.start);
@@ -171,10 +174,17 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
             case BooleanExpressionLexer.DATETIME:
                 return DataType.DATETIME;
             default:
-                return DataType.STRING;
+                return isVersion(token) ? DataType.VERSION : DataType.STRING;
         }
     }
 
+    /**
+     * The lexer takes a version starting with a number of two or more digits for a field.
+     */
+    private boolean isVersion(final org.antlr.v4.runtime.Token token) {
+        return token.getType() == BooleanExpressionLexer.FIELD && VERSION_PATTERN.matcher(token.getText()).matches();
+    }
+
     private LogicalOperationType getLogicalOperator(final org.antlr.v4.runtime.Token token) {
         switch (token.getType()) {
             case BooleanExpressionLexer.AND:
-- 
2.43.0


From 623efbe0cdd79d41473d899c39de4d3d7c417ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 20/26] fix: elements of other types are no match in CONTAINS

---
 .../operator/comparison/ContainsAllOperator.java           | 5 ++++-
 .../operator/comparison/ContainsAnyOperator.java           | 5 ++++-
 .../com/github/sidhant92/boolparser/util/ValueUtils.java   | 7 +++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index aefc9ac..010afba 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -30,7 +30,10 @@ public class ContainsAllOperator extends AbstractOperator {
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().allMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
-                                                                       leftOperandArray));
+                                                                       leftOperandArray
+                                                                               .stream()
+                                                                               .filter(element -> ValueUtils.isComparable(rightOperand.getRight(), element.getRight()))
+                                                                               .collect(Collectors.toList())));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 638d9f9..b15c9ec 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -30,7 +30,10 @@ public class ContainsAnyOperator extends AbstractOperator {
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().anyMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
-                                                                       leftOperandArray));
+                                                                       leftOperandArray
+                                                                               .stream()
+                                                                               .filter(element -> ValueUtils.isComparable(rightOperand.getRight(), element.getRight()))
+                                                                               .collect(Collectors.toList())));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 097c7b4..bc23702 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -126,6 +126,13 @@ public class ValueUtils {
         }
     }
 
+    public static boolean isComparable(final DataType left, final DataType right) {
+        if (left == right || left == DataType.STRING || right == DataType.STRING) {
+            return true;
+        }
+        return left.numeric && right.numeric && left != DataType.VERSION && right != DataType.VERSION;
+    }
+
     public static DataType getDataType(final Object value) {
         if (value instanceof Boolean) {
             return DataType.BOOLEAN;
-- 
2.43.0


From 65a1b1e85e3020e0db8e98e867f50faa9f03aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 21/26] fix: recognise function and operator names under every
 default locale

---
 .../github/sidhant92/boolparser/constant/FunctionType.java | 3 ++-
 .../com/github/sidhant92/boolparser/constant/Operator.java | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
index d47ff4b..c6db69e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
+import java.util.Locale;
 import java.util.Optional;
 
 /**
@@ -20,7 +21,7 @@ public enum FunctionType {
     DAYS_ELAPSED;
 
     public static Optional<FunctionType> getArrayFunctionFromSymbol(final String symbol) {
-        final String symbolUpperCase = symbol.toUpperCase();
+        final String symbolUpperCase = symbol.toUpperCase(Locale.ROOT);
         return Arrays
                 .stream(FunctionType.values())
                 .filter(function -> function.name().equals(symbolUpperCase))
diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
index 2ec58fd..d040994 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
@@ -2,6 +2,7 @@ package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
 import java.util.List;
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.operator.comparison.AbstractOperator;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
@@ -36,10 +37,10 @@ public enum Operator {
     CONTAINS_ANY;
 
     public static Optional<Operator> getOperatorFromSymbol(final String symbol) {
-        final String symbolLowerCase = symbol.toLowerCase();
+        final String symbolLowerCase = symbol.toLowerCase(Locale.ROOT);
         final Optional<Operator> operator = OperatorFactory.getAllLogicalOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(AbstractOperator::getOperator)
                 .findFirst();
         if (operator.isPresent()) {
@@ -47,7 +48,7 @@ public enum Operator {
         }
         return OperatorFactory.getAllArithmeticOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(com.github.sidhant92.boolparser.operator.arithmetic.AbstractOperator::getOperator)
                 .findFirst();
     }
-- 
2.43.0


From 278a55dd9280e3f1e4e57fd4e463a3b6372f2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 22/26] fix: report too deeply nested expressions as a failure

---
 .../application/ArithmeticExpressionEvaluator.java    | 11 ++++++++++-
 .../application/BooleanExpressionEvaluator.java       | 11 ++++++++++-
 .../sidhant92/boolparser/parser/antlr/BoolParser.java |  9 +++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
index 324eeaf..7b90ac6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
@@ -16,6 +16,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
 import com.github.sidhant92.boolparser.domain.logical.Node;
 import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
+import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.function.FunctionEvaluatorService;
 import com.github.sidhant92.boolparser.operator.OperatorService;
@@ -42,13 +43,21 @@ public class ArithmeticExpressionEvaluator {
 
     public Try<Object> evaluate(final String expression, final Map<String, Object> data) {
         final Try<Node> tokenOptional = boolExpressionParser.parseExpression(expression, null);
-        return tokenOptional.map(node -> evaluateToken(node, data));
+        return tokenOptional.map(node -> evaluateExpression(node, data));
     }
 
     protected Object evaluate(final Node node, final Map<String, Object> data) {
         return evaluateToken(node, data);
     }
 
+    private Object evaluateExpression(final Node node, final Map<String, Object> data) {
+        try {
+            return evaluateToken(node, data);
+        } catch (final StackOverflowError ex) {
+            throw new InvalidExpressionException("Error evaluating expression (nested too deeply)");
+        }
+    }
+
     private Object evaluateToken(final Node node, final Map<String, Object> data) {
         switch (node.getTokenType()) {
             case ARITHMETIC:
diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 996b8a0..a516e51 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -22,6 +22,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
 import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticBaseNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
 import com.github.sidhant92.boolparser.exception.HeterogeneousArrayException;
+import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 import com.github.sidhant92.boolparser.exception.InvalidUnaryOperand;
 import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.operator.OperatorService;
@@ -48,13 +49,21 @@ public class BooleanExpressionEvaluator {
 
     public Try<Boolean> evaluate(final String expression, final Map<String, Object> data, final String defaultField) {
         final Try<Node> tokenOptional = boolExpressionParser.parseExpression(expression, defaultField);
-        return tokenOptional.map(node -> evaluateToken(node, data));
+        return tokenOptional.map(node -> evaluateExpression(node, data));
     }
 
     public Try<Boolean> evaluate(final String expression, final Map<String, Object> data) {
         return evaluate(expression, data, null);
     }
 
+    private boolean evaluateExpression(final Node node, final Map<String, Object> data) {
+        try {
+            return evaluateToken(node, data);
+        } catch (final StackOverflowError ex) {
+            throw new InvalidExpressionException("Error evaluating expression (nested too deeply)");
+        }
+    }
+
     private boolean evaluateToken(final Node node, final Map<String, Object> data) {
         switch (node.getTokenType()) {
             case COMPARISON:
diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
index c4a501b..c43e4ea 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
@@ -5,6 +5,7 @@ import org.antlr.v4.runtime.CommonTokenStream;
 import org.antlr.v4.runtime.tree.ParseTree;
 import org.antlr.v4.runtime.tree.ParseTreeWalker;
 import com.github.sidhant92.boolparser.domain.logical.Node;
+import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import io.vavr.control.Try;
@@ -31,6 +32,14 @@ public class BoolParser implements BoolExpressionParser {
     }
 
     protected Node parse(final String expression, final String defaultField) {
+        try {
+            return parseTree(expression, defaultField);
+        } catch (final StackOverflowError ex) {
+            throw new InvalidExpressionException("Error parsing expression (nested too deeply)");
+        }
+    }
+
+    private Node parseTree(final String expression, final String defaultField) {
         final BooleanExpressionLexer filterLexer = new BooleanExpressionLexer(CharStreams.fromString(expression));
         filterLexer.removeErrorListeners();
         filterLexer.addErrorListener(new SyntaxErrorListener());
-- 
2.43.0


From 8736404321e340d1d381bd206c36823a8d5eb28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 23/26] fix: texts with huge exponents exhausted the memory
 when ordered against an integer

---
 .../github/sidhant92/boolparser/datatype/IntegerDataType.java | 4 ++--
 .../github/sidhant92/boolparser/datatype/LongDataType.java    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
index 9dcaa8b..b57bbd5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
@@ -24,7 +24,7 @@ public class IntegerDataType extends AbstractDataType<Integer> {
         if (!isValid) {
             try {
                 BigDecimal number = new BigDecimal(value.toString());
-                Integer.parseInt(number.stripTrailingZeros().toPlainString());
+                number.intValueExact();
                 return true;
             } catch (Exception ex) {
                 return false;
@@ -49,7 +49,7 @@ public class IntegerDataType extends AbstractDataType<Integer> {
         }
         try {
             BigDecimal number = new BigDecimal(value.toString());
-            return Optional.of(Integer.parseInt(number.stripTrailingZeros().toPlainString()));
+            return Optional.of(number.intValueExact());
         } catch (final Exception ignored) {
         }
         return Optional.empty();
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
index d68e242..0d5604a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
@@ -24,7 +24,7 @@ public class LongDataType extends AbstractDataType<Long> {
         if (!isValid) {
             try {
                 BigDecimal number = new BigDecimal(value.toString());
-                Long.parseLong(number.stripTrailingZeros().toPlainString());
+                number.longValueExact();
                 return true;
             } catch (Exception ex) {
                 return false;
@@ -49,7 +49,7 @@ public class LongDataType extends AbstractDataType<Long> {
         }
         try {
             BigDecimal number = new BigDecimal(value.toString());
-            return Optional.of(Long.parseLong(number.stripTrailingZeros().toPlainString()));
+            return Optional.of(number.longValueExact());
         } catch (final Exception ignored) {
         }
         return Optional.empty();
-- 
2.43.0


From 21fca8588ef5e9f22dc5321a4c3f8d434ad54137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 24/26] fix: negation, modulus and INT of a long in the range
 of int gave another type than the literal of that value

---
 .../sidhant92/boolparser/function/arithmetic/IntFunction.java  | 2 +-
 .../boolparser/operator/arithmetic/ModulusOperator.java        | 3 ++-
 .../boolparser/operator/arithmetic/UnaryOperator.java          | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
index 2ec03d5..1ae5305 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
@@ -24,7 +24,7 @@ public class IntFunction extends AbstractFunction {
             final BigDecimal value = (BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get();
             return ValueUtils.castDecimal(value.scale() > 0 ? value.setScale(0, RoundingMode.DOWN) : value);
         }
-        return item.getValue();
+        return item.getDataType() == DataType.LONG ? ValueUtils.castLong((Long) item.getValue()) : item.getValue();
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ModulusOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ModulusOperator.java
index f79dd32..ef7d4f8 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ModulusOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ModulusOperator.java
@@ -10,6 +10,7 @@ import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.IntegerDataType;
 import com.github.sidhant92.boolparser.datatype.LongDataType;
 import com.github.sidhant92.boolparser.exception.InvalidDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -21,7 +22,7 @@ public class ModulusOperator extends AbstractOperator {
                            final DataType rightOperandDataType) {
         if (leftOperandDataType.equals(DataType.LONG) || rightOperandDataType.equals(DataType.LONG)) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return longDataType.getValue(leftOperand).get() % longDataType.getValue(rightOperand).get();
+            return ValueUtils.castLong(longDataType.getValue(leftOperand).get() % longDataType.getValue(rightOperand).get());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return integerDataType.getValue(leftOperand).get() % integerDataType.getValue(rightOperand).get();
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 5db26d9..bf25183 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -23,7 +23,7 @@ public class UnaryOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
-            return Math.negateExact((long) leftOperand);
+            return ValueUtils.castLong(Math.negateExact((long) leftOperand));
         }
         return ValueUtils.castLong(-(long) (int) leftOperand);
     }
-- 
2.43.0


From 8f38aa25818c3c4e05b96ed4410fb0b4416e8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 25/26] fix: DAYS_ELAPSED in the range of int gave another type
 than an integer literal

---
 .../boolparser/function/arithmetic/DaysElapsedFunction.java    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/DaysElapsedFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/DaysElapsedFunction.java
index 14955ed..229a3f7 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/DaysElapsedFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/DaysElapsedFunction.java
@@ -9,6 +9,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.exception.InvalidFunctionArgument;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * Function to calculate the number of days elapsed since a given date.
@@ -43,7 +44,7 @@ public class DaysElapsedFunction extends AbstractFunction {
         }
         
         final LocalDate today = LocalDate.now();
-        return ChronoUnit.DAYS.between(inputDate, today);
+        return ValueUtils.castLong(ChronoUnit.DAYS.between(inputDate, today));
     }
 
     @Override
-- 
2.43.0


From 9158026c0d9a62769133dd17d0a915779055f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 26/26] fix: a field name ending in dots was read as the name
 without them, and a name of dots only failed null checks

---
 .../java/com/github/sidhant92/boolparser/util/ValueUtils.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index bc23702..17ad42b 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -20,7 +20,7 @@ import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 
 public class ValueUtils {
     public static Optional<Object> getValueFromMap(final String key, final Map<String, Object> data) {
-        final String[] keys = key.split("\\.");
+        final String[] keys = key.split("\\.", -1);
         final int size = keys.length;
         final Optional<Object> fieldData = Optional.ofNullable(data.get(keys[0]));
         if (size == 1) {
-- 
2.43.0

