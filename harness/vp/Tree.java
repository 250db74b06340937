package vp;

import java.util.List;
import com.github.sidhant92.boolparser.constant.Operator;
import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
import com.github.sidhant92.boolparser.domain.logical.ArrayNode;
import com.github.sidhant92.boolparser.domain.logical.BooleanNode;
import com.github.sidhant92.boolparser.domain.logical.ComparisonNode;
import com.github.sidhant92.boolparser.domain.logical.InNode;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.domain.logical.NumericRangeNode;

/** Node trees of the code as trees of the specification (module Parser). */
final class Tree {
    private Tree() {
    }

    static String symbol(final Operator op) {
        switch (op) {
            case EQUALS:
                return "=";
            case NOT_EQUAL:
                return "!=";
            case GREATER_THAN:
                return ">";
            case GREATER_THAN_EQUAL:
                return ">=";
            case LESS_THAN:
                return "<";
            case LESS_THAN_EQUAL:
                return "<=";
            case ADD:
                return "+";
            case SUBTRACT:
                return "-";
            case MULTIPLY:
                return "*";
            case DIVIDE:
                return "/";
            case MODULUS:
                return "%";
            case EXPONENT:
                return "^";
            default:
                return op.name();
        }
    }

    private static String list(final List<Node> ns) {
        final StringBuilder b = new StringBuilder("[");
        for (final Node n : ns) {
            b.append(b.length() > 1 ? "," : "").append(json(n));
        }
        return b.append(']').toString();
    }

    static String json(final Node n) {
        if (n == null) {
            return "{\"t\":\"missing\"}";
        }
        if (n instanceof FieldNode) {
            return "{\"t\":\"field\",\"f\":" + Json.codes(((FieldNode) n).getField()) + "}";
        }
        if (n instanceof UnaryNode) {
            final UnaryNode u = (UnaryNode) n;
            return "{\"t\":\"lit\",\"ty\":\"" + u.getDataType() + "\",\"v\":" + Val.json(u.getValue()) + "}";
        }
        if (n instanceof ArithmeticNode) {
            final ArithmeticNode a = (ArithmeticNode) n;
            if (a.getOperator() == Operator.UNARY) {
                return a.getRight() == null ? "{\"t\":\"neg\",\"l\":" + json(a.getLeft()) + "}" : "{\"t\":\"odd\"}";
            }
            return "{\"t\":\"arith\",\"op\":\"" + symbol(a.getOperator()) + "\",\"l\":" + json(a.getLeft()) + ",\"r\":" + json(a.getRight()) + "}";
        }
        if (n instanceof ArithmeticFunctionNode) {
            final ArithmeticFunctionNode a = (ArithmeticFunctionNode) n;
            return "{\"t\":\"fn\",\"g\":\"" + a.getFunctionType() + "\",\"args\":" + list(a.getItems()) + "}";
        }
        if (n instanceof ComparisonNode) {
            final ComparisonNode c = (ComparisonNode) n;
            return "{\"t\":\"cmp\",\"op\":\"" + symbol(c.getOperator()) + "\",\"l\":" + json(c.getLeft()) + ",\"r\":" + json(c.getRight()) + ",\"dt\":\""
                    + c.getDataType() + "\"}";
        }
        if (n instanceof BooleanNode) {
            final BooleanNode b = (BooleanNode) n;
            switch (b.getOperator()) {
                case NOT:
                    return b.getRight() == null ? "{\"t\":\"not\",\"l\":" + json(b.getLeft()) + "}" : "{\"t\":\"odd\"}";
                default:
                    return "{\"t\":\"logic\",\"op\":\"" + b.getOperator() + "\",\"l\":" + json(b.getLeft()) + ",\"r\":" + json(b.getRight()) + "}";
            }
        }
        if (n instanceof InNode) {
            return "{\"t\":\"in\",\"f\":" + Json.codes(((InNode) n).getField()) + ",\"args\":" + list(((InNode) n).getItems()) + "}";
        }
        if (n instanceof ArrayNode) {
            final ArrayNode a = (ArrayNode) n;
            return "{\"t\":\"arr\",\"op\":\"" + symbol(a.getOperator()) + "\",\"f\":" + Json.codes(a.getField()) + ",\"args\":" + list(a.getItems()) + "}";
        }
        if (n instanceof NumericRangeNode) {
            final NumericRangeNode r = (NumericRangeNode) n;
            return "{\"t\":\"range\",\"f\":" + Json.codes(r.getField()) + ",\"lo\":" + typed(r.getFromValue(), r.getFromDataType().name()) + ",\"hi\":"
                    + typed(r.getToValue(), r.getToDataType().name()) + "}";
        }
        return "{\"t\":\"odd\"}";
    }

    private static String typed(final Object v, final String dataType) {
        final String actual = v instanceof Integer ? "INTEGER" : v instanceof Long ? "LONG" : v instanceof java.math.BigDecimal ? "DECIMAL" : "odd";
        return actual.equals(dataType) ? Val.json(v) : "{\"k\":\"odd\"}";
    }
}
