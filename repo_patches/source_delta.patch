From 77d3c34dc3d379de7df53e42f132860182983bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 01/22] fix: build each parse tree node from its own operands
 instead of a shared stack

---
 .../parser/antlr/BooleanFilterListener.java   | 159 ++++++------------
 1 file changed, 56 insertions(+), 103 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 92c3423..043d663 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -2,11 +2,10 @@ package com.github.sidhant92.boolparser.parser.antlr;
 
 import java.util.List;
 import java.util.Objects;
-import java.util.Stack;
 import java.util.stream.Collectors;
-import org.antlr.v4.runtime.CommonToken;
 import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
+import org.antlr.v4.runtime.tree.ParseTreeProperty;
 import org.antlr.v4.runtime.tree.TerminalNodeImpl;
 import org.apache.commons.lang3.StringUtils;
 import com.github.sidhant92.boolparser.constant.FunctionType;
@@ -29,19 +28,14 @@ import com.github.sidhant92.boolparser.util.ValueUtils;
 public class BooleanFilterListener extends BooleanExpressionBaseListener {
     private Node node;
 
-    private final Stack<Node> currentNodes;
-
-    private org.antlr.v4.runtime.Token lastToken;
-
-    private int tokenCount;
+    private final ParseTreeProperty<Node> nodes;
 
     private final String defaultField;
 
     public BooleanFilterListener(final String defaultField) {
         this.defaultField = defaultField;
         this.node = null;
-        this.lastToken = null;
-        this.currentNodes = new Stack<>();
+        this.nodes = new ParseTreeProperty<>();
     }
 
     public Node getNode() {
@@ -50,27 +44,25 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitComparatorExpression(BooleanExpressionParser.ComparatorExpressionContext ctx) {
-        currentNodes.add(mapComparatorExpressionContext(ctx));
-        super.enterComparatorExpression(ctx);
+        nodes.put(ctx, mapComparatorExpressionContext(ctx));
+        super.exitComparatorExpression(ctx);
     }
 
     @Override
     public void exitArithmeticExpression(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
-        currentNodes.add(mapArithmeticExpressionContext(ctx));
+        nodes.put(ctx, mapArithmeticExpressionContext(ctx));
         super.exitArithmeticExpression(ctx);
     }
 
     @Override
     public void exitUnaryArithmeticExpression(BooleanExpressionParser.UnaryArithmeticExpressionContext ctx) {
-        final Node leafNode = !currentNodes.isEmpty() && currentNodes.peek() instanceof ArithmeticNode ? currentNodes.pop() : mapTypesExpressionContext(
-                (BooleanExpressionParser.TypesExpressionContext) ctx.exp);
-        currentNodes.add(ArithmeticNode.builder().left(leafNode).operator(Operator.UNARY).build());
-        super.enterUnaryArithmeticExpression(ctx);
+        nodes.put(ctx, ArithmeticNode.builder().left(getMappedNode(ctx.exp, ctx)).operator(Operator.UNARY).build());
+        super.exitUnaryArithmeticExpression(ctx);
     }
 
     @Override
     public void exitToExpression(BooleanExpressionParser.ToExpressionContext ctx) {
-        currentNodes.add(mapToExpressionContext(ctx));
+        nodes.put(ctx, mapToExpressionContext(ctx));
         super.exitToExpression(ctx);
     }
 
@@ -80,20 +72,20 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         final String field = getField(ctx.field.getText());
         final List<Node> items = getArrayElements(ctx.data.children);
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        currentNodes.add(new ArrayNode(field, operator, items));
+        nodes.put(ctx, new ArrayNode(field, operator, items));
         super.exitArrayExpression(ctx);
     }
 
     @Override
     public void exitArithmeticFunctionExpression(BooleanExpressionParser.ArithmeticFunctionExpressionContext ctx) {
         final Node node = mapArithmeticFunctionExpressionContext(ctx);
-        currentNodes.add(node);
+        nodes.put(ctx, node);
         super.exitArithmeticFunctionExpression(ctx);
     }
 
     @Override
     public void exitInExpression(BooleanExpressionParser.InExpressionContext ctx) {
-        currentNodes.add(mapInExpressionContext(ctx));
+        nodes.put(ctx, mapInExpressionContext(ctx));
         super.exitInExpression(ctx);
     }
 
@@ -101,32 +93,34 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         return trees
                 .stream()
                 .filter(child -> !(child instanceof TerminalNodeImpl))
-                .map(this::mapContextToNode)
+                .map(this::mapArrayElement)
                 .collect(Collectors.toList());
     }
 
-    private Node mapContextToNode(final ParseTree ctx) {
-        if (ctx instanceof BooleanExpressionParser.ArithmeticExpressionContext) {
-            return mapArithmeticExpressionContext((BooleanExpressionParser.ArithmeticExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.InExpressionContext) {
-            return mapInExpressionContext((BooleanExpressionParser.InExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ArithmeticFunctionExpressionContext) {
-            return mapArithmeticFunctionExpressionContext((BooleanExpressionParser.ArithmeticFunctionExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ComparatorExpressionContext) {
-            return mapComparatorExpressionContext((BooleanExpressionParser.ComparatorExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ToExpressionContext) {
-            return mapToExpressionContext((BooleanExpressionParser.ToExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && ((BooleanExpressionParser.TypesExpressionContext) ctx).start.getType() == BooleanExpressionLexer.FIELD) {
-            return mapTypesExpressionContextField((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
-            return mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else {
+    private Node mapArrayElement(final ParseTree ctx) {
+        ParseTree element = ctx;
+        while (element instanceof BooleanExpressionParser.ParentExpressionContext) {
+            element = ((BooleanExpressionParser.ParentExpressionContext) element).expression();
+        }
+        if (element instanceof BooleanExpressionParser.NotExpressionContext || element instanceof BooleanExpressionParser.BinaryExpressionContext) {
             throw new InvalidExpressionException(String.format("Array does not support this expression %s", ctx.getText()));
         }
+        return getMappedNode(element, ctx);
+    }
+
+    private Node getMappedNode(final ParseTree child, final ParseTree ctx) {
+        final Node mappedNode = Objects.isNull(child) ? null : nodes.get(child);
+        if (Objects.isNull(mappedNode)) {
+            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
+        }
+        return mappedNode;
     }
 
     private FieldNode mapTypesExpressionContextField(BooleanExpressionParser.TypesExpressionContext ctx) {
-        final String value = StringUtils.isBlank(ctx.getText()) ? defaultField : ctx.getText();
+        final String value = getField(ctx.getText());
+        if (StringUtils.isBlank(value)) {
+            throw new InvalidExpressionException("Error parsing expression (missing operand and no default field)");
+        }
         return new FieldNode(value);
     }
 
@@ -156,45 +150,18 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     private ComparisonNode mapComparatorExpressionContext(BooleanExpressionParser.ComparatorExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
 
-        if (!currentNodes.isEmpty() && ((ctx.right instanceof BooleanExpressionParser.ParentExpressionContext || ctx.left instanceof BooleanExpressionParser.ParentExpressionContext) || !(currentNodes.peek() instanceof ComparisonNode || currentNodes.peek() instanceof BooleanNode))) {
-            if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.left.getStart());
-                final Node value = mapContextToNode(ctx.left);
-                return new ComparisonNode(value, currentNodes.pop(), operator, dataType);
-            } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.right.getStart());
-                final Node value = mapContextToNode(ctx.right);
-                return new ComparisonNode(currentNodes.pop(), value, operator, dataType);
-            }
-        }
-
-        final DataType dataType = getDataType(ctx.right.getStart());
-        final Node value = mapContextToNode(ctx.right);
-        return new ComparisonNode(mapContextToNode(ctx.left), value, operator, dataType);
+        final Node left = getMappedNode(ctx.left, ctx);
+        final Node right = getMappedNode(ctx.right, ctx);
+        final boolean useLeftDataType = ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && !(ctx.right instanceof BooleanExpressionParser.TypesExpressionContext);
+        final DataType dataType = getDataType(useLeftDataType ? ctx.left.getStart() : ctx.right.getStart());
+        return new ComparisonNode(left, right, operator, dataType);
     }
 
     private ArithmeticNode mapArithmeticExpressionContext(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else {
-            if (currentNodes.size() < 2) {
-                throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-            }
-            final Node right = currentNodes.pop();
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        }
+        final Node left = getMappedNode(ctx.left, ctx);
+        final Node right = getMappedNode(ctx.right, ctx);
+        return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
     }
 
     private Node mapInExpressionContext(BooleanExpressionParser.InExpressionContext ctx) {
@@ -262,50 +229,36 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitParse(BooleanExpressionParser.ParseContext ctx) {
-        if (this.node == null && !this.currentNodes.isEmpty()) {
-            this.node = currentNodes.pop();
-        }
-        if (this.node == null && tokenCount == 1 && lastToken instanceof CommonToken) {
-            this.node = lastToken.getType() == BooleanExpressionLexer.FIELD ? FieldNode.builder().field(lastToken.getText()).build() : UnaryNode
-                    .builder().dataType(DataType.STRING).value(ValueUtils.convertValue(lastToken.getText(), DataType.STRING).toString()).build();
-        }
-        if (this.node == null) {
-            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-        }
+        this.node = getMappedNode(ctx.expression(), ctx);
         super.exitParse(ctx);
     }
 
     @Override
     public void exitNotExpression(BooleanExpressionParser.NotExpressionContext ctx) {
-        if (currentNodes.isEmpty()) {
-            if (lastToken == null) {
-                throw new InvalidExpressionException(String.format("Error parsing not expression for the string %s", ctx.getText()));
-            }
-            final DataType dataType = getDataType(lastToken);
-            final Object value = ValueUtils.convertValue(lastToken.getText(), dataType);
-            currentNodes.add(new UnaryNode(dataType, value));
-        }
-        final BooleanNode booleanToken = new BooleanNode(currentNodes.pop(), null, LogicalOperationType.NOT);
-        currentNodes.add(booleanToken);
+        final Node operand = getMappedNode(ctx.expression(), ctx);
+        final Node child = operand instanceof FieldNode ? new UnaryNode(DataType.STRING, ((FieldNode) operand).getField()) : operand;
+        nodes.put(ctx, new BooleanNode(child, null, LogicalOperationType.NOT));
         super.exitNotExpression(ctx);
     }
 
     @Override
     public void exitTypesExpression(BooleanExpressionParser.TypesExpressionContext ctx) {
-        tokenCount++;
-        this.lastToken = ctx.start;
+        nodes.put(ctx, mapTypesExpressionContext(ctx));
+        super.exitTypesExpression(ctx);
+    }
+
+    @Override
+    public void exitParentExpression(BooleanExpressionParser.ParentExpressionContext ctx) {
+        nodes.put(ctx, getMappedNode(ctx.expression(), ctx));
+        super.exitParentExpression(ctx);
     }
 
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
-        if (currentNodes.size() < 2) {
-            throw new InvalidExpressionException(String.format("Error parsing binary expression for the string %s", ctx.getText()));
-        }
-        final Node firstNode = currentNodes.pop();
-        final Node secondNode = currentNodes.pop();
+        final Node left = getMappedNode(ctx.left, ctx);
+        final Node right = getMappedNode(ctx.right, ctx);
         final LogicalOperationType operator = getLogicalOperator(ctx.op.getStart());
-        final BooleanNode booleanToken = new BooleanNode(secondNode, firstNode, operator);
-        currentNodes.add(booleanToken);
-        super.enterBinaryExpression(ctx);
+        nodes.put(ctx, new BooleanNode(left, right, operator));
+        super.exitBinaryExpression(ctx);
     }
 }
-- 
2.43.0


From e0c3032522e5bd4d88cc889b8a0c8834f0940dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 02/22] fix: reject expressions with syntax errors instead of
 dropping or inventing input

---
 .../boolparser/parser/antlr/BoolParser.java   | 54 +++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
index 29f4454..cb1484d 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
@@ -1,15 +1,30 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
+import org.antlr.v4.runtime.BaseErrorListener;
 import org.antlr.v4.runtime.CharStreams;
 import org.antlr.v4.runtime.CommonTokenStream;
+import org.antlr.v4.runtime.DefaultErrorStrategy;
+import org.antlr.v4.runtime.Parser;
+import org.antlr.v4.runtime.RecognitionException;
+import org.antlr.v4.runtime.Recognizer;
+import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
 import org.antlr.v4.runtime.tree.ParseTreeWalker;
 import com.github.sidhant92.boolparser.domain.logical.Node;
+import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import io.vavr.control.Try;
 
 public class BoolParser implements BoolExpressionParser {
+    private static final BaseErrorListener ERROR_LISTENER = new BaseErrorListener() {
+        @Override
+        public void syntaxError(final Recognizer<?, ?> recognizer, final Object offendingSymbol, final int line, final int charPositionInLine,
+                                final String message, final RecognitionException ex) {
+            throw new InvalidExpressionException(String.format("Error parsing expression at %s:%s %s", line, charPositionInLine, message));
+        }
+    };
+
     private final ParseTreeWalker parseTreeWalker = new ParseTreeWalker();
 
     public BoolParser() {
@@ -32,8 +47,12 @@ public class BoolParser implements BoolExpressionParser {
 
     protected Node parse(final String expression, final String defaultField) {
         final BooleanExpressionLexer filterLexer = new BooleanExpressionLexer(CharStreams.fromString(expression));
+        filterLexer.removeErrorListeners();
+        filterLexer.addErrorListener(ERROR_LISTENER);
         final CommonTokenStream commonTokenStream = new CommonTokenStream(filterLexer);
         final BooleanExpressionParser filterParser = new BooleanExpressionParser(commonTokenStream);
+        filterParser.removeErrorListeners();
+        filterParser.setErrorHandler(new StrictErrorStrategy());
         final ParseTree parseTree = filterParser.parse();
 
         final BooleanFilterListener listener = new BooleanFilterListener(defaultField);
@@ -41,4 +60,39 @@ public class BoolParser implements BoolExpressionParser {
 
         return listener.getNode();
     }
+
+    /**
+     * Rejects an expression with a syntax error instead of recovering by dropping or inventing input. Only a closing parenthesis missing at the
+     * very end of the expression is tolerated.
+     */
+    private static class StrictErrorStrategy extends DefaultErrorStrategy {
+        @Override
+        public void recover(final Parser recognizer, final RecognitionException ex) {
+            throw invalidExpression(recognizer);
+        }
+
+        @Override
+        public void sync(final Parser recognizer) {
+            // no re-synchronisation: the offending token is reported when it is matched
+        }
+
+        @Override
+        protected void reportUnwantedToken(final Parser recognizer) {
+            throw invalidExpression(recognizer);
+        }
+
+        @Override
+        protected void reportMissingToken(final Parser recognizer) {
+            if (recognizer.getCurrentToken().getType() != Token.EOF || !getExpectedTokens(recognizer).contains(BooleanExpressionParser.RPAREN)) {
+                throw invalidExpression(recognizer);
+            }
+            super.reportMissingToken(recognizer);
+        }
+
+        private InvalidExpressionException invalidExpression(final Parser recognizer) {
+            final Token token = recognizer.getCurrentToken();
+            return new InvalidExpressionException(
+                    String.format("Error parsing expression at %s:%s near %s", token.getLine(), token.getCharPositionInLine(), token.getText()));
+        }
+    }
 }
-- 
2.43.0


From 8b20d98b77a1eb56651174161487d6f0eed25632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 03/22] fix: null checks test the compared operand on either
 side

---
 .../application/BooleanExpressionEvaluator.java  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 55375a6..2530aa3 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -89,17 +89,25 @@ public class BooleanExpressionEvaluator {
     }
 
     private boolean evaluateComparisonToken(final ComparisonNode comparisonToken, final Map<String, Object> data) {
-        final Optional<Object> leftValueOptional = getValue(comparisonToken.getLeft(), data);
-
-        final Object leftData = comparisonToken.isNullCheck() ? leftValueOptional.orElse("null") : leftValueOptional.orElseThrow(
+        if (comparisonToken.isNullCheck()) {
+            return evaluateNullCheck(comparisonToken, data);
+        }
+        final Object leftData = getValue(comparisonToken.getLeft(), data).orElseThrow(
                 () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = comparisonToken.isNullCheck() ? "null" : getValue(comparisonToken.getRight(), data).get();
+        final Object rightData = getValue(comparisonToken.getRight(), data).get();
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
                                                        Collections.singletonList(Pair.of(rightData, rightDataType)));
     }
 
+    private boolean evaluateNullCheck(final ComparisonNode comparisonToken, final Map<String, Object> data) {
+        final boolean nullOnRight = comparisonToken.getRight() instanceof FieldNode && ((FieldNode) comparisonToken.getRight()).isNull();
+        final Node operand = nullOnRight ? comparisonToken.getLeft() : comparisonToken.getRight();
+        final boolean isNull = !getValue(operand, data).isPresent();
+        return comparisonToken.getOperator() == Operator.EQUALS ? isNull : !isNull;
+    }
+
     private boolean evaluateNumericRangeToken(final NumericRangeNode numericRangeToken, final Map<String, Object> data) {
         final Object fieldData = ValueUtils.getValueFromMap(numericRangeToken.getField(), data)
                                            .orElseThrow(() -> new DataNotFoundException(numericRangeToken.getField()));
-- 
2.43.0


From 2e0739d3423b02bb9adcf8b968d2157d8a1a48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 04/22] fix: report a missing field on the right of a
 comparison as DataNotFoundException

---
 .../boolparser/application/BooleanExpressionEvaluator.java     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 2530aa3..f378781 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -94,7 +94,8 @@ public class BooleanExpressionEvaluator {
         }
         final Object leftData = getValue(comparisonToken.getLeft(), data).orElseThrow(
                 () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = getValue(comparisonToken.getRight(), data).get();
+        final Object rightData = getValue(comparisonToken.getRight(), data).orElseThrow(
+                () -> new DataNotFoundException(((FieldNode) comparisonToken.getRight()).getField()));
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
-- 
2.43.0


From d471d729645ee180ec22bb630ff1fc87c19f5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 05/22] fix: evaluate a bare boolean field and reject non
 boolean expressions instead of answering false

---
 .../application/BooleanExpressionEvaluator.java      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index f378781..7125b6e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -23,6 +23,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticBaseNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
 import com.github.sidhant92.boolparser.exception.HeterogeneousArrayException;
 import com.github.sidhant92.boolparser.exception.InvalidUnaryOperand;
+import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.operator.OperatorService;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import com.github.sidhant92.boolparser.util.ValueUtils;
@@ -68,8 +69,10 @@ public class BooleanExpressionEvaluator {
                 return evaluateUnaryToken((UnaryNode) node, data);
             case BOOLEAN:
                 return evaluateBooleanNode((BooleanNode) node, data);
+            case FIELD:
+                return evaluateBooleanField(((FieldNode) node).getField(), data);
             default:
-                return false;
+                throw new UnsupportedToken(node.getTokenType().name());
         }
     }
 
@@ -170,8 +173,11 @@ public class BooleanExpressionEvaluator {
         if (unaryToken.getDataType().equals(DataType.BOOLEAN)) {
             return (boolean) unaryToken.getValue();
         }
-        final Object fieldData = ValueUtils.getValueFromMap(unaryToken.getValue().toString(), data)
-                                           .orElseThrow(() -> new DataNotFoundException(unaryToken.getValue().toString()));
+        return evaluateBooleanField(unaryToken.getValue().toString(), data);
+    }
+
+    private boolean evaluateBooleanField(final String field, final Map<String, Object> data) {
+        final Object fieldData = ValueUtils.getValueFromMap(field, data).orElseThrow(() -> new DataNotFoundException(field));
         if (!(fieldData instanceof Boolean)) {
             throw new InvalidUnaryOperand();
         }
-- 
2.43.0


From 0901e019c77cf1a753f2c220a7fb28b7f05ebf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 06/22] fix: integer addition, subtraction, multiplication and
 negation never wrap around

---
 .../boolparser/operator/arithmetic/AddOperator.java          | 2 +-
 .../boolparser/operator/arithmetic/MultiplyOperator.java     | 2 +-
 .../boolparser/operator/arithmetic/SubtractOperator.java     | 5 +++--
 .../boolparser/operator/arithmetic/UnaryOperator.java        | 5 +++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
index d26a62b..2a80de1 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
@@ -28,7 +28,7 @@ public class AddOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().add(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() + longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.addExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
index 931a3ff..4e729b2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
@@ -24,7 +24,7 @@ public class MultiplyOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().multiply(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() * longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.multiplyExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
index fc4917c..e71dfb5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
@@ -10,6 +10,7 @@ import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.datatype.IntegerDataType;
 import com.github.sidhant92.boolparser.datatype.LongDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -25,10 +26,10 @@ public class SubtractOperator extends AbstractOperator {
         }
         if (leftOperandDataType.equals(DataType.LONG) || rightOperandDataType.equals(DataType.LONG)) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get();
+            return Math.subtractExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
-        return integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get();
+        return ValueUtils.castLong((long) integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 8c0675c..0aca8f8 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -7,6 +7,7 @@ import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -20,9 +21,9 @@ public class UnaryOperator extends AbstractOperator {
             return ((BigDecimal) leftOperand).negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
-            return -(long) leftOperand;
+            return Math.negateExact((long) leftOperand);
         }
-        return -(int) leftOperand;
+        return ValueUtils.castLong(-(long) (int) leftOperand);
     }
 
     @Override
-- 
2.43.0


From f11c5e9aab97fc6cbb264ee69517ebf73eb24241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 07/22] fix: negate Double and Float operands

---
 .../boolparser/operator/arithmetic/UnaryOperator.java       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 0aca8f8..5db26d9 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -1,12 +1,13 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
-import java.math.BigDecimal;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
@@ -18,7 +19,8 @@ public class UnaryOperator extends AbstractOperator {
     public Object evaluate(final Object leftOperand, final DataType leftOperandDataType, final Object rightOperand,
                            final DataType rightOperandDataType) {
         if (leftOperandDataType.equals(DataType.DECIMAL)) {
-            return ((BigDecimal) leftOperand).negate();
+            final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+            return decimalDataType.getValue(leftOperand).get().negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
             return Math.negateExact((long) leftOperand);
-- 
2.43.0


From f6e8cd894563c6991e157c02529eb2086de31c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 08/22] fix: integral decimal results beyond the int range do
 not fail

---
 .../java/com/github/sidhant92/boolparser/util/ValueUtils.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 7e9e377..228feda 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -102,7 +102,7 @@ public class ValueUtils {
 
     public static Object castDecimal(final BigDecimal value) {
         if (value.signum() == 0 || value.scale() <= 0 || value.stripTrailingZeros().scale() <= 0) {
-            return value.intValueExact();
+            return value.toBigInteger().bitLength() < Long.SIZE ? castLong(value.longValueExact()) : value;
         }
         return value;
     }
-- 
2.43.0


From cdb94838f46c967ffb779d517017aa53e818f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 09/22] fix: SUM, MAX and MIN of longs keep every digit

---
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 5f3b8a8..279aa49 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -39,8 +39,8 @@ public class MaxFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index b18bcb8..6b065d6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -39,8 +39,8 @@ public class MinFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 455339c..3e64238 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -36,8 +36,8 @@ public class SumFunction extends AbstractFunction {
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
-        return ValueUtils.castDecimal(sum);
+                .stream().map(a -> longDataType.getValue(a.getValue()).get()).reduce(0L, Math::addExact);
+        return ValueUtils.castLong(sum);
     }
 
     @Override
-- 
2.43.0


From 73f038cfefd8be07ec1e03c3f50b6d361e8a9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 10/22] fix: AVG of integers rounds down instead of failing

---
 .../boolparser/function/arithmetic/AvgFunction.java         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 909c11e..5a847e4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -36,9 +36,9 @@ public class AvgFunction extends AbstractFunction {
             return ValueUtils.castDecimal(sum.divide(new BigDecimal(itemsConverted.size()), 3, RoundingMode.DOWN));
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
-        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
+        final BigDecimal sum = items
+                .stream().map(a -> BigDecimal.valueOf(longDataType.getValue(a.getValue()).get())).reduce(BigDecimal.ZERO, BigDecimal::add);
+        return ValueUtils.castDecimal(sum.divide(new BigDecimal(items.size()), 3, RoundingMode.DOWN));
     }
 
     @Override
-- 
2.43.0


From 18cccb9b231179ebdd36b4e3cce104ce6a60f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 11/22] fix: aggregate functions accept a single value

---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MeanFunction.java | 3 +--
 .../boolparser/function/arithmetic/MedianFunction.java         | 2 +-
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/ModeFunction.java | 3 +--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java  | 3 +--
 7 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 5a847e4..c687ed2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -3,7 +3,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 import java.math.BigDecimal;
 import java.math.RoundingMode;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import java.util.stream.Collectors;
@@ -48,7 +47,7 @@ public class AvgFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 279aa49..d063010 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MaxFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
index 36ba128..f14e1b4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
@@ -1,7 +1,6 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
@@ -26,7 +25,7 @@ public class MeanFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
index 90f0d12..86c5061 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
@@ -47,7 +47,7 @@ public class MedianFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index 6b065d6..f4144e6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MinFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 01f9945..685a595 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.HashMap;
 import java.util.List;
 import java.util.Map;
@@ -56,7 +55,7 @@ public class ModeFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 3e64238..942456d 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import java.util.stream.Collectors;
@@ -47,7 +46,7 @@ public class SumFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
-- 
2.43.0


From 8a26d4cca5af5b12827812d5936f0ac6a0971b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 12/22] fix: LEN of a list with one or no element is its size

---
 .../application/ArithmeticExpressionEvaluator.java           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
index 56f4e71..324eeaf 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
@@ -1,11 +1,13 @@
 package com.github.sidhant92.boolparser.application;
 
+import java.util.Collection;
 import java.util.List;
 import java.util.Map;
 import java.util.Optional;
 import java.util.stream.Collectors;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
+import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.domain.FieldNode;
@@ -79,6 +81,9 @@ public class ArithmeticExpressionEvaluator {
                 .stream()
                 .map(item -> evaluate(item, data))
                 .collect(Collectors.toList());
+        if (arithmeticFunctionNode.getFunctionType() == FunctionType.LEN && resolvedValues.size() == 1 && resolvedValues.get(0) instanceof Collection) {
+            return ((Collection<?>) resolvedValues.get(0)).size();
+        }
         final List<EvaluatedNode> flattenedValues = ValueUtils.mapToEvaluatedNodes(resolvedValues);
         return functionEvaluatorService.evaluateArithmeticFunction(arithmeticFunctionNode.getFunctionType(), flattenedValues);
     }
-- 
2.43.0


From 4ca9770683100a775ea676592d494ac51910d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 13/22] fix: CONTAINS_ANY and CONTAINS_ALL accept any
 collection or array

---
 .../boolparser/operator/comparison/ContainsAllOperator.java    | 3 ++-
 .../boolparser/operator/comparison/ContainsAnyOperator.java    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index c87b0b8..caf9e78 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
 import java.util.stream.Collectors;
@@ -21,7 +22,7 @@ public class ContainsAllOperator extends AbstractOperator {
             return false;
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
+                .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
                 .map(a -> Pair.of(a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 917135a..15b21e2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
 import java.util.stream.Collectors;
@@ -21,7 +22,7 @@ public class ContainsAnyOperator extends AbstractOperator {
             return false;
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
+                .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
                 .map(a -> Pair.of(a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
-- 
2.43.0


From ed664c64cd1a17fad908d44c92b78671d2af0a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 14/22] fix: cached parser never confuses two expression and
 default field pairs

---
 .../sidhant92/boolparser/parser/antlr/CachedBoolParser.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
index 2c6289f..b2bf05c 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
@@ -1,6 +1,6 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
-import java.util.Optional;
+import org.apache.commons.lang3.tuple.Pair;
 import com.github.benmanes.caffeine.cache.Cache;
 import com.github.benmanes.caffeine.cache.Caffeine;
 import com.github.sidhant92.boolparser.domain.logical.Node;
@@ -8,7 +8,7 @@ import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import io.vavr.control.Try;
 
 public class CachedBoolParser extends BoolParser {
-    private final Cache<String, Node> cache;
+    private final Cache<Pair<String, String>, Node> cache;
 
     public CachedBoolParser(final int maxCacheSize) {
         OperatorFactory.initialize();
@@ -26,7 +26,7 @@ public class CachedBoolParser extends BoolParser {
     }
 
     private Node getNode(final String expression, final String defaultField) {
-        final String cacheKey = expression + "_" + Optional.ofNullable(defaultField).orElse("");
+        final Pair<String, String> cacheKey = Pair.of(expression, defaultField);
         return cache.get(cacheKey, ex -> super.parse(expression, defaultField));
     }
 }
-- 
2.43.0


From 1ed66e6a741fe1e5f8a12bc48b6673107f088d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 15/22] fix: INT keeps values beyond the int range

---
 .../boolparser/function/arithmetic/IntFunction.java         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
index d3a28de..d513e88 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.RoundingMode;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -9,6 +10,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -19,10 +21,10 @@ public class IntFunction extends AbstractFunction {
     public Object evaluate(final List<EvaluatedNode> items) {
         final EvaluatedNode item = items.get(0);
         if (item.getDataType() == DataType.DECIMAL) {
-            return ((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).intValue();
+            return ValueUtils.castDecimal(((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).setScale(0, RoundingMode.DOWN));
         }
         if (item.getDataType() == DataType.LONG) {
-            return ((Long) item.getValue()).intValue();
+            return ValueUtils.castLong((Long) item.getValue());
         }
         return item.getValue();
     }
-- 
2.43.0


From 96a3531b16859e068a4a5cf2adfa6049fc2e9921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 16/22] fix: recognise version literals whose first component
 has several digits

---
 .../boolparser/parser/antlr/BooleanFilterListener.java    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 043d663..c45c720 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -2,6 +2,7 @@ package com.github.sidhant92.boolparser.parser.antlr;
 
 import java.util.List;
 import java.util.Objects;
+import java.util.regex.Pattern;
 import java.util.stream.Collectors;
 import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
@@ -26,6 +27,8 @@ import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
 public class BooleanFilterListener extends BooleanExpressionBaseListener {
+    private static final Pattern VERSION_PATTERN = Pattern.compile("[0-9]+(\\.[0-9]+){2,}");
+
     private Node node;
 
     private final ParseTreeProperty<Node> nodes;
@@ -125,7 +128,7 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     }
 
     private Node mapTypesExpressionContext(BooleanExpressionParser.TypesExpressionContext ctx) {
-        if (ctx.start.getType() == BooleanExpressionLexer.FIELD) {
+        if (ctx.start.getType() == BooleanExpressionLexer.FIELD && getDataType(ctx.start) != DataType.VERSION) {
             return mapTypesExpressionContextField(ctx);
         }
         if (StringUtils.isBlank(ctx.getText())) {
@@ -204,6 +207,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
                 return ValueUtils.getNumericDataType(token.getText());
             case BooleanExpressionLexer.APP_VERSION:
                 return DataType.VERSION;
+            case BooleanExpressionLexer.FIELD:
+                // the lexer only knows versions with a single leading digit
+                return VERSION_PATTERN.matcher(token.getText()).matches() ? DataType.VERSION : DataType.STRING;
             case BooleanExpressionLexer.TRUE:
             case BooleanExpressionLexer.FALSE:
                 return DataType.BOOLEAN;
-- 
2.43.0


From cd942151b33c5ab881c22b907f1e11ff62fb2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 17/22] fix: a huge exponent in a number like text cannot
 exhaust memory when it is compared with an integer

---
 .../github/sidhant92/boolparser/datatype/IntegerDataType.java | 4 ++--
 .../github/sidhant92/boolparser/datatype/LongDataType.java    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
index 9dcaa8b..b57bbd5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
@@ -24,7 +24,7 @@ public class IntegerDataType extends AbstractDataType<Integer> {
         if (!isValid) {
             try {
                 BigDecimal number = new BigDecimal(value.toString());
-                Integer.parseInt(number.stripTrailingZeros().toPlainString());
+                number.intValueExact();
                 return true;
             } catch (Exception ex) {
                 return false;
@@ -49,7 +49,7 @@ public class IntegerDataType extends AbstractDataType<Integer> {
         }
         try {
             BigDecimal number = new BigDecimal(value.toString());
-            return Optional.of(Integer.parseInt(number.stripTrailingZeros().toPlainString()));
+            return Optional.of(number.intValueExact());
         } catch (final Exception ignored) {
         }
         return Optional.empty();
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
index d68e242..0d5604a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
@@ -24,7 +24,7 @@ public class LongDataType extends AbstractDataType<Long> {
         if (!isValid) {
             try {
                 BigDecimal number = new BigDecimal(value.toString());
-                Long.parseLong(number.stripTrailingZeros().toPlainString());
+                number.longValueExact();
                 return true;
             } catch (Exception ex) {
                 return false;
@@ -49,7 +49,7 @@ public class LongDataType extends AbstractDataType<Long> {
         }
         try {
             BigDecimal number = new BigDecimal(value.toString());
-            return Optional.of(Long.parseLong(number.stripTrailingZeros().toPlainString()));
+            return Optional.of(number.longValueExact());
         } catch (final Exception ignored) {
         }
         return Optional.empty();
-- 
2.43.0


From ae7836d1e5e94bbb9fedbba507332ba52de0b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 18/22] fix: reject a date literal that is no date instead of
 evaluating it to null

---
 .../boolparser/parser/antlr/BooleanFilterListener.java         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index c45c720..11c52d0 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -136,6 +136,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         }
         final DataType dataType = getDataType(ctx.start);
         final Object value = ValueUtils.convertValue(ctx.start.getText(), dataType);
+        if (Objects.isNull(value)) {
+            throw new InvalidExpressionException(String.format("Error parsing expression (no such date) for the string %s", ctx.getText()));
+        }
         return new UnaryNode(dataType, value);
     }
 
-- 
2.43.0


From 32ebb8daf0fd080ae1feef7fa1be413f4fab896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 19/22] fix: recognise keywords and function names whatever the
 platform's default locale

---
 .../github/sidhant92/boolparser/constant/FunctionType.java | 3 ++-
 .../com/github/sidhant92/boolparser/constant/Operator.java | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
index d47ff4b..c6db69e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
+import java.util.Locale;
 import java.util.Optional;
 
 /**
@@ -20,7 +21,7 @@ public enum FunctionType {
     DAYS_ELAPSED;
 
     public static Optional<FunctionType> getArrayFunctionFromSymbol(final String symbol) {
-        final String symbolUpperCase = symbol.toUpperCase();
+        final String symbolUpperCase = symbol.toUpperCase(Locale.ROOT);
         return Arrays
                 .stream(FunctionType.values())
                 .filter(function -> function.name().equals(symbolUpperCase))
diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
index 2ec58fd..d040994 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
@@ -2,6 +2,7 @@ package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
 import java.util.List;
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.operator.comparison.AbstractOperator;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
@@ -36,10 +37,10 @@ public enum Operator {
     CONTAINS_ANY;
 
     public static Optional<Operator> getOperatorFromSymbol(final String symbol) {
-        final String symbolLowerCase = symbol.toLowerCase();
+        final String symbolLowerCase = symbol.toLowerCase(Locale.ROOT);
         final Optional<Operator> operator = OperatorFactory.getAllLogicalOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(AbstractOperator::getOperator)
                 .findFirst();
         if (operator.isPresent()) {
@@ -47,7 +48,7 @@ public enum Operator {
         }
         return OperatorFactory.getAllArithmeticOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(com.github.sidhant92.boolparser.operator.arithmetic.AbstractOperator::getOperator)
                 .findFirst();
     }
-- 
2.43.0


From 33802871254b8e324ef1e29897d72e551565cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 20/22] fix: CONTAINS_ANY and CONTAINS_ALL ignore null elements
 of the field wherever they stand

---
 .../boolparser/operator/comparison/ContainsAllOperator.java     | 2 ++
 .../boolparser/operator/comparison/ContainsAnyOperator.java     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index caf9e78..b42a1c5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -4,6 +4,7 @@ import java.util.Arrays;
 import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
+import java.util.Objects;
 import java.util.stream.Collectors;
 import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
@@ -23,6 +24,7 @@ public class ContainsAllOperator extends AbstractOperator {
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
                 .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
+                .filter(Objects::nonNull)
                 .map(a -> Pair.of(a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 15b21e2..c8a1cea 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -4,6 +4,7 @@ import java.util.Arrays;
 import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
+import java.util.Objects;
 import java.util.stream.Collectors;
 import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
@@ -23,6 +24,7 @@ public class ContainsAnyOperator extends AbstractOperator {
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
                 .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
+                .filter(Objects::nonNull)
                 .map(a -> Pair.of(a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
-- 
2.43.0


From 07c18797c7eab97913cbe7b283208052c810e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 21/22] fix: SUM of whole numbers fails only if the sum itself
 is beyond 64 bits, in any order

---
 .../boolparser/function/arithmetic/SumFunction.java        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 942456d..03f48f7 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.BigInteger;
 import java.util.Arrays;
 import java.util.List;
 import java.util.Optional;
@@ -34,9 +35,9 @@ public class SumFunction extends AbstractFunction {
             return ValueUtils.castDecimal(sum);
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        final long sum = items
-                .stream().map(a -> longDataType.getValue(a.getValue()).get()).reduce(0L, Math::addExact);
-        return ValueUtils.castLong(sum);
+        final BigInteger sum = items
+                .stream().map(a -> BigInteger.valueOf(longDataType.getValue(a.getValue()).get())).reduce(BigInteger.ZERO, BigInteger::add);
+        return ValueUtils.castLong(sum.longValueExact());
     }
 
     @Override
-- 
2.43.0


From 9fd793e43bf2c0a82cebcf2355491040b59a3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 22/22] fix: MODE counts numbers by their value however they
 are represented

---
 .../function/arithmetic/ModeFunction.java     | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 685a595..b9630be 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -8,6 +8,8 @@ import java.util.Map;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
@@ -18,12 +20,14 @@ import com.github.sidhant92.boolparser.util.ValueUtils;
 public class ModeFunction extends AbstractFunction {
     @Override
     public Object evaluate(final List<EvaluatedNode> items) {
-        Map<Object, Integer> hm = new HashMap<Object, Integer>();
+        final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+        Map<BigDecimal, Integer> hm = new HashMap<BigDecimal, Integer>();
         int max = 1;
-        Object temp = items.get(0).getValue();
+        BigDecimal temp = decimalDataType.getValue(items.get(0).getValue()).get();
 
         for (int i = 0; i < items.size(); i++) {
-            final Object value = items.get(i).getValue();
+            final BigDecimal number = decimalDataType.getValue(items.get(i).getValue()).get();
+            final BigDecimal value = number.stripTrailingZeros();
 
             if (hm.get(value) != null) {
 
@@ -33,19 +37,13 @@ public class ModeFunction extends AbstractFunction {
 
                 if (count > max) {
                     max = count;
-                    temp = value;
+                    temp = number;
                 }
             } else {
                 hm.put(value, 1);
             }
         }
-        if (temp instanceof BigDecimal) {
-            return ValueUtils.castDecimal((BigDecimal) temp);
-        }
-        if (temp instanceof Long) {
-            return ValueUtils.castLong((Long) temp);
-        }
-        return temp;
+        return ValueUtils.castDecimal(temp);
     }
 
     @Override
-- 
2.43.0

