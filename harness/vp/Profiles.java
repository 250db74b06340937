package vp;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Random cases of each property. */
final class Profiles extends Gen {
    Profiles(final Rng r) {
        super(r);
    }

    static Case make(final String profile, final Rng r) {
        return new Profiles(r).build(profile);
    }

    private Case boolCase(final String e) {
        if (r.below(120) == 0) {
            crowd();
        }
        return new Case('B', render(e), data, null);
    }

    private Case arithCase(final String e) {
        if (r.below(120) == 0) {
            crowd();
        }
        return new Case('A', render(e), data, null);
    }

    private Case parseCase(final String e) {
        return new Case('P', render(e), data, null);
    }

    Case build(final String profile) {
        switch (profile) {
            case "compare":
                return boolCase(compare());
            case "cross":
                return boolCase(cross());
            case "logic":
                return boolCase(logic(r.in(1, 4), r.pick(0, 10, 30)));
            case "tree":
                return treeCase();
            case "surface":
                return surface();
            case "literal":
                return literalCase();
            case "malformed":
                return malformed();
            case "contain":
                return contain();
            case "field":
                return field();
            case "nullcheck":
                return nullCheck();
            case "in":
                return in();
            case "contains":
                return contains();
            case "range":
                return range();
            case "arith":
                return arithmetic();
            case "divide":
                return divide();
            case "aggregate":
                return aggregate();
            case "convert":
                return convert();
            case "embed":
                return embed();
            case "kinds":
                return kinds();
            case "default":
                return defaultField();
            case "concat":
                return concat();
            case "oddcmp":
            case "oddfn":
            case "oddkind":
                return odd(profile);
            default:
                return mixed();
        }
    }

    // ------------------------------------------------------------------ comparisons

    String compare() {
        Object x;
        Object y;
        switch (r.below(8)) {
            case 0:
            case 1:
            case 2:
                x = number();
                y = r.chance(70) && !(x instanceof Float) ? near(x) : number();
                break;
            case 3:
                x = word();
                y = r.chance(30) ? x : r.chance(50) ? word() : x + r.pick("a", " ", "Z", "\u0000");
                break;
            case 4:
                x = version();
                y = r.chance(30) ? version() : new org.apache.maven.artifact.versioning.ComparableVersion(
                        x + r.pick("", ".0", ".1", "0", ".0.0", ".10"));
                break;
            case 5:
                x = date();
                y = r.chance(40) ? ((LocalDate) x).plusDays(r.in(-1, 1)) : date();
                if (((LocalDate) y).getYear() < 1 || ((LocalDate) y).getYear() > 9999) {
                    y = x;
                }
                break;
            case 6:
                x = dateTime();
                y = r.chance(40) ? ((LocalDateTime) x).plusSeconds(r.in(-1, 1)) : r.chance(30) ? ((LocalDateTime) x).plusNanos(r.pick(1, -1, 1000000, -500000000)) : dateTime();
                if (((LocalDateTime) y).getYear() < 1 || ((LocalDateTime) y).getYear() > 9999) {
                    y = x;
                }
                break;
            default:
                x = r.chance(50);
                y = r.chance(50);
        }
        // dates may also be held as text
        if (x instanceof LocalDate || x instanceof LocalDateTime) {
            x = dateForm(x);
            y = dateForm(y);
        }
        return operand(x) + S + r.pick(CMP) + S + operand(y);
    }

    private Object dateForm(final Object v) {
        return r.chance(40) && (v instanceof LocalDate || ((LocalDateTime) v).getNano() == 0) ? (v instanceof LocalDate ? v.toString() : DT.format((LocalDateTime) v)) : v;
    }

    private Object anything() {
        switch (r.below(14)) {
            case 0:
                return other();
            case 1:
                return collection(smallList());
            case 2:
                return new LinkedHashMap<>(Collections.singletonMap("k", r.in(0, 3)));
            case 3:
            case 4:
            case 5:
                return number();
            case 6:
            case 7:
                return string();
            default:
                return scalar();
        }
    }

    /** the same value seen as another type, where there is one */
    private Object recast(final Object v) {
        switch (r.below(4)) {
            case 0:
                return v.toString();
            case 1:
                return v instanceof LocalDate ? ((LocalDate) v).atStartOfDay() : v instanceof LocalDateTime ? ((LocalDateTime) v).toLocalDate() : v.toString();
            case 2:
                try {
                    final BigDecimal d = new BigDecimal(v.toString());
                    return r.chance(50) ? asNumber(d) : spelling(d);
                } catch (final NumberFormatException e) {
                    return r.chance(30) ? new org.apache.maven.artifact.versioning.ComparableVersion(v.toString()) : v.toString();
                }
            default:
                return v.toString() + r.pick(".0", "0", " ", "x");
        }
    }

    String cross() {
        final Object x;
        final Object y;
        if (r.chance(15)) { // a number and a text that spells it, or one close by
            x = number();
            final BigDecimal d = new BigDecimal(x.toString());
            y = spelling(r.chance(60) ? d : d.add(r.pick(BigDecimal.ONE, BigDecimal.ONE.negate(), epsilon(d))));
        } else {
            x = anything();
            y = r.chance(45) ? recast(x) : anything();
        }
        final boolean swap = r.chance(50);
        return operand(swap ? y : x) + S + r.pick(CMP) + S + operand(swap ? x : y);
    }

    // ------------------------------------------------------------------ texts and trees

    /** any production of the grammar, with brackets mostly left out */
    String free(final int depth) {
        if (depth <= 0) {
            return atom();
        }
        switch (r.below(16)) {
            case 0:
                return par(free(depth - 1));
            case 1:
                return r.pick("not", "NOT") + S + (r.chance(50) ? par(free(depth - 1)) : free(depth - 1));
            case 2:
                return "-" + S + free(depth - 1);
            case 3:
            case 4:
            case 5:
                return free(depth - 1) + S + r.pick(CMP) + S + free(depth - 1);
            case 6:
            case 7:
            case 8:
                return free(depth - 1) + S + r.pick(ARITH) + S + free(depth - 1);
            case 9:
            case 10:
            case 11:
                return free(depth - 1) + S + r.pick("and", "or", "AND", "OR", "&&", "||") + S + free(depth - 1);
            case 12:
                return pickCase(r.pick(FNS)) + S + freeList(depth - 1);
            case 13:
                return fieldName() + S + (r.chance(40) ? r.pick("not", "NOT") + S : "") + r.pick("in", "IN") + S + freeList(depth - 1);
            case 14:
                return fieldName() + S + r.pick("contains_any", "CONTAINS_ANY", "contains_all", "CONTAINS_ALL") + S + freeList(depth - 1);
            default:
                return fieldName() + S + numeric() + S + r.pick("to", "TO") + S + numeric();
        }
    }

    private String pickCase(final String keyword) {
        return r.chance(40) ? keyword.toUpperCase(java.util.Locale.ROOT) : keyword;
    }

    private String freeList(final int depth) {
        final List<String> items = new ArrayList<>();
        final int n = r.pick(1, 1, 2, 2, 3, 5);
        for (int i = 0; i < n; i++) {
            items.add(r.chance(75) ? atom() : listExpr(depth));
        }
        return list(items);
    }

    private String listExpr(final int depth) {
        final String e = free(depth);
        return r.chance(50) ? par(e) : e;
    }

    String numeric() {
        return r.chance(50) ? Long.toString(r.in(0, 100)) : r.in(0, 50) + "." + r.in(0, 99);
    }

    String fieldName() {
        return r.pick("a", "b", "c", "name", "person.age", "a.b.c", "x_1", "_p", "order", "island", "notnull", "inside", "total2", "minimum", "1abc", "2x", "A", "lenx", "trueish",
                      "max_value", "Tom", "null", "a..b", "9.a", "x.1", "5a.6");
    }

    String atom() {
        switch (r.below(12)) {
            case 0:
            case 1:
                return Long.toString(r.in(0, 1000));
            case 2:
                return literal(new BigDecimal(BigInteger.valueOf(r.in(0, 100000)), r.in(1, 4)));
            case 3:
                return quote(r.chance(50) ? string() : word());
            case 4:
                return literal(r.chance(50));
            case 5:
                return r.pick("1.2.3", "1.10.0", "10.2.3", "2.0.0.1", "12.0.0", "0.0.1");
            case 6:
                return r.pick("2024-01-31", "1999-12-31", "2024-02-30", "2024-01-31 10:20:30", "2000-02-29 00:00:00", "2024-13-01", "9999-99-99");
            case 7:
                return r.pick("2147483647", "2147483648", "9223372036854775807", "007", "00", "0.0", "1.50", "99999999999");
            default:
                return fieldName();
        }
    }

    private Case treeCase() {
        if (r.chance(25)) {
            return parseCase(logic(r.in(1, 3), 20));
        }
        if (r.chance(20)) {
            return parseCase(arith(r.in(1, 3)));
        }
        final Case c = parseCase(free(r.below(60) == 0 ? r.in(5, 7) : r.pick(1, 2, 2, 3, 3, 4)));
        if (r.chance(10)) {
            c.def = r.pick("dflt", "a.b");
        }
        return c;
    }

    private String addParens(final String e) {
        if (r.below(100) == 0) {
            String d = e;
            for (int i = r.in(3, 60); i > 0; i--) {
                d = par(d);
            }
            return d;
        }
        return r.chance(60) ? par(e) : e;
    }

    private Case surface() {
        final String op = r.pick(CMP);
        if (r.chance(45)) {
            // white space and spelling of keywords
            final String e = r.chance(50) ? free(r.in(1, 3)) : logic(r.in(1, 3), 5);
            final String text = render(e, r.pick(1, 2, 2, 2));
            return new Case(r.chance(60) ? 'P' : 'B', r.chance(30) ? r.pick(" ", "\t", "\n ", "\r\n", "\f") + text + r.pick(" ", "\n", "\t\t", "") : text, data, null);
        }
        switch (r.below(5)) {
            case 0:
                final Object x = number();
                return boolCase(addParens(addParens(operand(x)) + S + op + S + addParens(operand(near(x)))));
            case 1:
                return boolCase(addParens(par(logic(r.in(0, 2), 5))));
            case 2:
                return arithCase(addParens(addParens(arith(1)) + S + r.pick("+", "-", "*", "/", "%") + S + addParens(addParens(arith(0)))));
            case 3:
                final List<String> items = new ArrayList<>();
                for (int i = r.in(1, 3); i > 0; i--) {
                    items.add(addParens(literal(r.in(0, 5))));
                }
                return boolCase(addParens(store(r.in(0, 5)) + S + r.pick("in", "IN", "not" + S + "in", "NOT" + S + "IN") + S + list(items)));
            default:
                return boolCase(r.pick("not", "NOT") + S + par(par(logic(r.in(0, 2), 5))));
        }
    }

    private Case literalCase() {
        Object v;
        do {
            switch (r.below(9)) {
                case 0:
                    v = Math.abs((long) wholeInt());
                    break;
                case 1:
                    v = whole() & Long.MAX_VALUE;
                    break;
                case 2:
                    v = decimal().abs();
                    break;
                case 3:
                case 4:
                    v = r.chance(60) ? string() : string() + r.pick("'", "\"", "\\", "\\'", " x", "é", "\uD83D\uDE00");
                    break;
                case 5:
                    v = version();
                    break;
                case 6:
                    v = date();
                    break;
                case 7:
                    v = dateTime();
                    break;
                default:
                    v = r.chance(50);
            }
        } while (!(v instanceof Long) && !hasLiteral(v));
        final String lit = r.chance(8) ? r.pick("0", "00", "007", "0.0", "0.50", "1.0", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808",
                                               "99999999999999999999", "0000000000000000000005", "1.2.3", "01.2.3", "10.20.30", "2024-02-30", "2024-02-29", "0001-01-01")
                : v instanceof Long ? Long.toString((Long) v) : literal(v);
        switch (r.below(8)) {
            case 6:
                return arithCase(r.pick("min", "max", "sum", "len", "int", "days_elapsed") + S + list(Collections.singletonList(lit)));
            case 7:
                return boolCase(store(v) + S + r.pick("in", "not" + S + "in") + S + list(Arrays.asList(atom(), lit)));
            case 0:
                return parseCase(lit);
            case 1:
                return arithCase(lit);
            case 2:
                return parseCase(fieldName() + S + r.pick(CMP) + S + lit);
            case 3:
                return parseCase(fieldName() + S + r.pick("in", "contains_any", "contains_all", "not" + S + "in") + S + list(Arrays.asList(lit, atom(), lit)));
            case 4:
                return boolCase(store(v instanceof Long && (int) (long) (Long) v == (Long) v ? (Object) (int) (long) (Long) v : v) + S + "=" + S + lit);
            default:
                return parseCase(r.pick("min", "sum", "len") + S + list(Arrays.asList(atom(), lit)));
        }
    }

    static final String[] TOKENS = {"(", ")", ",", "=", "!=", ">", ">=", "<", "<=", "+", "-", "*", "/", "%", "^", "and", "or", "not", "in", "to", "contains_any", "contains_all", "min",
                                    "sum", "len", "int", "days_elapsed", "true", "false", "a", "b", "x.y", "5", "7", "1.5", "1.2.3", "'s'", "\"q\"", "2024-01-01", "null", "!", "&", "|", "'",
                                    "\"", "$", "#", "@", ";", "==", "=>", "[", "]", "{", "}", "~", "?", ":", "\\", "é", "&&", "||", "=="};

    private Case malformed() {
        final String base = r.chance(60) ? free(r.in(1, 3)) : r.chance(50) ? logic(r.in(1, 2), 0) : arith(r.in(1, 2));
        final List<String> ts = new ArrayList<>(Arrays.asList(base.split(S)));
        final int edits = r.pick(1, 1, 1, 2, 2, 3);
        for (int i = 0; i < edits; i++) {
            final int at = r.below(ts.size() + 1);
            switch (r.below(6)) {
                case 0:
                    ts.add(at, r.pick(TOKENS));
                    break;
                case 1:
                    if (at < ts.size() && ts.size() > 1) {
                        ts.remove(at);
                    }
                    break;
                case 2:
                    if (at < ts.size()) {
                        ts.set(at, r.pick(TOKENS));
                    }
                    break;
                case 3:
                    if (ts.size() > 2) {
                        final int k = r.below(ts.size() - 1);
                        Collections.swap(ts, k, k + 1);
                    }
                    break;
                case 4:
                    if (at < ts.size()) {
                        ts.add(at, ts.get(at));
                    }
                    break;
                default:
                    ts.add(r.pick(TOKENS));
            }
        }
        final String text = r.chance(10) ? render(String.join(S, ts)) + r.pick(" garbage", ")", " 5", "(", " and", " = 5", "'") : render(String.join(S, ts));
        final char api = r.pick('P', 'P', 'B', 'A');
        return new Case(api, text, data, api != 'A' && r.chance(10) ? "dflt" : null);
    }

    private Case contain() {
        final Case c;
        switch (r.below(6)) {
            case 0:
                final StringBuilder b = new StringBuilder();
                for (int i = r.in(0, 30); i > 0; i--) {
                    b.append(r.chance(80) ? (char) r.in(32, 126) : (char) r.below(65536));
                }
                c = new Case(r.pick('P', 'B', 'A'), b.toString(), data, null);
                break;
            case 1:
                final List<String> ts = new ArrayList<>();
                for (int i = r.in(0, 14); i > 0; i--) {
                    ts.add(r.pick(TOKENS));
                }
                c = new Case(r.pick('P', 'B', 'A'), render(String.join(S, ts)), data, r.chance(20) ? "dflt" : null);
                break;
            case 2:
                c = new Case(r.pick('B', 'A'), render(free(r.in(1, 4))), data, null);
                oddData();
                break;
            case 3:
                c = malformed();
                break;
            case 4:
                final String f = store(oddValue());
                c = new Case(r.pick('B', 'B', 'A'), render(oddUse(f)), data, null);
                break;
            default:
                String e = r.pick("a", "5", "a = 5", "not a", "-5");
                final int n = r.in(5, 40);
                for (int i = 0; i < n; i++) {
                    e = r.pick("(" + e + ")", "(" + e + ")", "not (" + e + ")", "-(" + e + ")", e + " and (b = 1)", e + " + 1");
                }
                data.put("a", r.chance(50) ? (Object) true : (Object) 5);
                data.put("b", 1);
                c = new Case(r.pick('P', 'B', 'A'), e, data, null);
        }
        if (r.chance(4)) {
            c.data = null;
        }
        c.open = true;
        return c;
    }

    private void oddData() {
        for (final String n : new String[] {"a", "b", "c", "name", "x_1", "person", "A", "_p", "order"}) {
            if (r.chance(60)) {
                data.put(n, oddValue());
            }
        }
    }

    private Object oddValue() {
        switch (r.below(14)) {
            case 0:
                return r.pick(Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, -0.0, Double.MIN_VALUE, Double.MAX_VALUE);
            case 1:
                return r.pick(Float.NaN, Float.NEGATIVE_INFINITY, Float.MAX_VALUE);
            case 2:
                return new ArrayList<>(Arrays.asList(1, null, 2));
            case 3:
                return new ArrayList<>(Collections.singletonList(null));
            case 4:
                return new Object[] {1, null};
            case 5:
                return r.pick("1e999999999", "1e-999999999", "9e2147483647", "1e400", "-1e999999");
            case 6:
                return new int[] {1, 2, 3};
            case 7:
                return new BigDecimal("1e5000");
            case 8:
                return new HashMap<>(Collections.singletonMap("age", 5));
            case 9:
                return other();
            case 10:
                return new ArrayList<>(Arrays.asList(new ArrayList<>(Arrays.asList(1, 2)), "x"));
            case 11:
                return null;
            case 12:
                return new Object();
            default:
                return scalar();
        }
    }

    /** values of unusual kinds whose outcome is specified all the same */
    private Object strange() {
        Object v;
        do {
            v = oddValue();
        } while (v == null || v instanceof String || v instanceof BigDecimal && Math.abs(((BigDecimal) v).scale()) > 400);
        return r.chance(80) ? v : r.pick(Arrays.asList("a", null), Arrays.asList(null, 5, 5L), new Object[] {"a"}, new Object[] {}, new LinkedHashMap<>(), Arrays.asList(true, false),
                                         Arrays.asList(new Object[] {1}, 2), Arrays.asList(Collections.emptyMap()), Arrays.asList(Double.NaN, 1), Arrays.asList("5", 5), Arrays.asList(LocalDate.of(2024, 1, 1)),
                                         new String[] {"5", "6"}, new Integer[] {5}, Collections.emptySet(), new HashMap<>(Collections.singletonMap(5, 5)));
    }

    private Case odd(final String which) {
        final String f = store(strange());
        final String g = r.chance(50) ? operand(scalar()) : store(strange());
        final boolean swap = r.chance(50);
        final String a = swap ? g : f;
        final String b = swap ? f : g;
        switch (which) {
            case "oddcmp":
                return boolCase(r.chance(75) ? a + S + r.pick(CMP) + S + b : r.chance(50) ? f + S + "in" + S + list(Arrays.asList(g, literal(5), operand(word())))
                        : store(scalar()) + S + r.pick("in", "not" + S + "in") + S + list(Arrays.asList(a, b)));
            case "oddfn":
                return arithCase(r.pick(FNS) + S + list(r.chance(50) ? Collections.singletonList(f) : Arrays.asList(a, b)));
            default:
                switch (r.below(7)) {
                    case 0:
                        return boolCase(r.chance(50) ? f : "not" + S + f);
                    case 1:
                        return boolCase(f + S + r.pick("and", "or") + S + literal(r.chance(50)));
                    case 2:
                        return boolCase(literal(r.chance(50)) + S + r.pick("and", "or") + S + f);
                    case 3:
                        return arithCase("-" + S + f);
                    case 4:
                        return boolCase(par(a + S + r.pick(ARITH) + S + b) + S + r.pick(CMP) + S + operand(scalar()));
                    case 5:
                        return boolCase(a + S + r.pick("contains_any", "contains_all") + S + list(Collections.singletonList(r.chance(50) ? literal(5) : b)));
                    default:
                        return arithCase(a + S + r.pick(ARITH) + S + b);
                }
        }
    }

    private String oddUse(final String f) {
        return r.pick(f + S + r.pick(CMP) + S + r.pick("5", "'x'", "1.5", "true", "2024-01-01", "1.2.3", f),
                      r.pick("5", "'x'", "1.5", "true", "2024-01-01", "1.2.3") + S + r.pick(CMP) + S + f,
                      f + S + "in" + S + "(1,'x'," + f + ")", f + S + r.pick("contains_any", "contains_all") + S + "(1,2)", f + S + "1" + S + "to" + S + "5",
                      r.pick(FNS) + S + "(" + f + ")", r.pick(FNS) + S + "(" + f + ",5)", f + S + r.pick(ARITH) + S + r.pick("5", "1.5", f), "-" + S + f, f, "not" + S + f,
                      "5" + S + r.pick(ARITH) + S + f, f + S + "=" + S + "null");
    }

    // ------------------------------------------------------------------ data access

    private Case field() {
        final String f;
        switch (r.below(10)) {
            case 0:
            case 1:
                f = missing();
                break;
            case 2:
                f = storeAt(name() + "." + name() + "." + name(), r.in(0, 5));
                break;
            case 3:
                final String p = storeAt(name() + "." + name(), r.in(0, 5));
                f = r.pick(p, p + ".x", p.substring(0, p.indexOf('.')), p.substring(p.indexOf('.') + 1), p.substring(0, p.indexOf('.')) + ".zz", p + p);
                break;
            case 4:
                // a dotted key of the map itself is not a path
                f = name() + "." + name();
                data.put(f, r.in(0, 5));
                break;
            case 5:
                final String q = storeAt(name() + "." + name(), r.in(0, 5));
                final int dot = q.indexOf('.');
                f = r.pick(q.substring(0, dot) + ".." + q.substring(dot + 1), q + ".", q + "..", "." + q, q.toUpperCase(java.util.Locale.ROOT), q);
                break;
            case 6:
                final String inner = name();
                storeAt(inner + ".list", collection(smallList()));
                f = r.pick(inner + ".list", inner + ".list.size", inner + ".list.0");
                break;
            case 7:
                f = store(r.chance(50));
                break;
            case 8:
                f = store(other());
                break;
            default:
                f = store(r.in(0, 5));
        }
        switch (r.below(14)) {
            case 0:
                return arithCase(f);
            case 1:
                return arithCase(f + S + r.pick("+", "-", "*") + S + literal(r.in(1, 5)));
            case 2:
                return arithCase(literal(r.in(1, 5)) + S + r.pick("+", "-", "*") + S + f);
            case 3:
                return arithCase(r.pick(NUMFNS) + S + list(Arrays.asList(literal(1), f)));
            case 4:
                return boolCase(f);
            case 5:
                return boolCase("not" + S + f);
            case 6:
                return boolCase(f + S + r.pick("in", "not" + S + "in") + S + "(1,2,3)");
            case 7:
                return boolCase(store(r.in(0, 5)) + S + r.pick("in", "not" + S + "in") + S + list(Arrays.asList(literal(r.in(0, 5)), f)));
            case 8:
                return boolCase(f + S + r.pick("contains_any", "contains_all") + S + "(1,2)");
            case 9:
                return boolCase(store(collection(smallList())) + S + r.pick("contains_any", "contains_all") + S + list(Arrays.asList(literal(1), f)));
            case 10:
                return boolCase(f + S + r.in(0, 2) + S + "to" + S + r.in(2, 5));
            case 11:
                return boolCase(literal(r.in(0, 5)) + S + r.pick(CMP) + S + f);
            case 12:
                return boolCase(logicAround(f + S + r.pick(CMP) + S + literal(r.in(0, 5))));
            default:
                return boolCase(f + S + r.pick(CMP) + S + literal(r.in(0, 5)));
        }
    }

    private String logicAround(final String e) {
        return r.pick(par(e) + S + r.pick("and", "or") + S + r.pick("true", "false"), r.pick("true", "false") + S + r.pick("and", "or") + S + par(e), "not" + S + par(e),
                      par(e) + S + "=" + S + r.pick("true", "false"));
    }

    private Case nullCheck() {
        final String nul = r.pick("null", "NULL", "Null", "nUll");
        final String op = r.pick("=", "!=");
        String f;
        switch (r.below(9)) {
            case 0:
            case 1:
                f = missing();
                break;
            case 2:
                f = store(r.pick("null", "NULL", "", "x"));
                break;
            case 3:
                f = store(r.chance(50));
                break;
            case 4:
                f = storeAt(name() + "." + name(), anything());
                f = r.chance(50) ? f : r.chance(50) ? f + ".z" : f.substring(0, f.indexOf('.'));
                break;
            case 5:
                f = r.pick("'null'", "5", "(" + store(3) + " + 1)", "(" + missing() + " + 1)", "'x'", "0");
                break;
            case 6:
                f = store(collection(smallList()));
                break;
            case 7:
                final Object odd = other();
                f = r.chance(60) ? store(odd) : storeAt(name() + "." + name(), odd);
                break;
            default:
                f = store(anything());
        }
        final String e = r.chance(65) ? f + S + op + S + nul : nul + S + op + S + f;
        if (r.chance(12)) {
            return boolCase(f + S + r.pick("=", "!=") + S + "'null'");
        }
        return boolCase(r.chance(25) ? logicAround(e) : e);
    }

    // ------------------------------------------------------------------ membership

    /** another value of the same data type, at times an equal one written otherwise */
    private Object alike(final Object x) {
        final boolean equal = r.chance(10);
        if (x instanceof BigDecimal || x instanceof Double || x instanceof Float) {
            final BigDecimal d = equal ? new BigDecimal(x.toString()) : new BigDecimal(x.toString()).add(new BigDecimal(r.in(1, 60)));
            return r.chance(60) ? d.setScale(Math.max(1, d.scale() + r.in(0, 3)), java.math.RoundingMode.UP) : r.chance(50) ? d : (Object) d.doubleValue();
        }
        if (x instanceof Integer) {
            return equal ? x : (Object) ((Integer) x + r.in(1, 60));
        }
        if (x instanceof Long) {
            return equal ? x : (Object) ((Long) x + r.in(1, 60));
        }
        if (x instanceof LocalDate) {
            return dateForm(equal ? x : LocalDate.of(2024, r.in(1, 12), r.in(1, 28)));
        }
        if (x instanceof LocalDateTime) {
            return dateForm(equal ? x : LocalDate.of(2024, r.in(1, 12), r.in(1, 28)).atTime(r.below(24), 0, 0));
        }
        if (x instanceof Boolean) {
            return r.chance(90) ? (Object) !(Boolean) x : x;
        }
        if (x instanceof org.apache.maven.artifact.versioning.ComparableVersion) {
            return equal ? new org.apache.maven.artifact.versioning.ComparableVersion(x + r.pick("", ".0", ".0.0")) : version();
        }
        return equal ? x : x + r.pick("a", "b", " ", "0") + r.in(0, 60);
    }

    /** a list of any length of one data type */
    private Case inAlike(final String neg) {
        final Object x = r.pick(decimal(), decimal(), wholeInt(), (Object) (3000000000L + r.in(0, 9)), r.pick("2.0", "1.50", "abc"), date(), dateTime(), version(), floating(), r.chance(50));
        final List<String> items = new ArrayList<>();
        for (int i = r.pick(2, 5, 9, 12, 17, 33, 40, r.chance(15) ? 150 : 65); i > 0; i--) {
            items.add(operand(alike(x)));
        }
        return boolCase(store(x instanceof LocalDate || x instanceof LocalDateTime ? dateForm(x) : x) + S + neg + r.pick("in", "IN") + S + list(items));
    }

    private Case in() {
        final String neg = r.chance(35) ? r.pick("not", "NOT") + S : "";
        if (r.chance(12)) {
            return inAlike(neg);
        }
        Object x = r.chance(40) ? number() : r.chance(50) ? word() : scalar();
        final List<String> items = new ArrayList<>();
        final int n = r.below(150) == 0 ? r.in(40, 200) : r.chance(8) ? r.in(7, 40) : r.pick(1, 2, 3, 3, 4, 6);
        final boolean same = r.chance(75);
        for (int i = 0; i < n; i++) {
            final Object item;
            if (r.chance(25)) {
                item = x;
            } else if (x instanceof Number && same) {
                item = r.chance(60) && !(x instanceof Float) ? near(x) : number();
            } else if (x instanceof String && same) {
                item = word();
            } else if (same) {
                item = value(x instanceof Boolean ? "bool" : x instanceof LocalDate ? "date" : x instanceof LocalDateTime ? "dt" : "ver");
            } else {
                item = scalar();
            }
            switch (r.below(12)) {
                case 0:
                    items.add(store(collection(new ArrayList<>(Arrays.asList(item, number())))));
                    break;
                case 1:
                    items.add(r.chance(50) ? literal(r.in(0, 3)) + S + "+" + S + literal(r.in(0, 3)) : par(arith(1)));
                    break;
                case 2:
                    items.add(par(literal(r.in(0, 3)) + S + r.pick(CMP) + S + literal(r.in(0, 3))));
                    break;
                case 3:
                    items.add(r.chance(15) ? missing() : store(collection(smallList())));
                    break;
                default:
                    items.add(operand(item));
            }
        }
        if (r.chance(5)) {
            return boolCase(missing() + S + neg + "in" + S + list(items));
        }
        final String e = store(x) + S + neg + r.pick("in", "IN") + S + list(items);
        return boolCase(r.chance(12) ? logicAround(e) : e);
    }

    private Case contains() {
        final List<Object> xs = new ArrayList<>();
        final String kind = r.pick("int", "str", "dec", "long", "ver", "bool", "date", "mix");
        final int n = r.below(150) == 0 ? r.in(50, 250) : r.chance(6) ? r.in(6, 50) : r.pick(0, 1, 2, 3, 4, 5);
        for (int i = 0; i < n; i++) {
            xs.add(element(kind));
        }
        final Object c = r.chance(20) ? array(xs) : collection(xs);
        final List<String> items = new ArrayList<>();
        final int k = r.below(150) == 0 ? r.in(40, 150) : r.chance(6) ? r.in(5, 40) : r.pick(1, 1, 2, 2, 3, 4);
        final boolean hetero = r.chance(8);
        for (int i = 0; i < k; i++) {
            final Object item = !xs.isEmpty() && r.chance(60) ? r.pick(xs) : element(hetero ? "mix" : kind);
            if (r.chance(8)) {
                items.add(store(collection(r.chance(20) ? new ArrayList<>() : new ArrayList<>(Arrays.asList(item, element(kind))))));
            } else if (r.chance(6)) {
                items.add(literal(r.in(0, 3)) + S + "+" + S + literal(r.in(0, 3)));
            } else {
                items.add(operand(item));
            }
        }
        final String f = r.chance(6) ? (r.chance(50) ? missing() : store(scalar())) : store(c);
        final String e = f + S + r.pick("contains_any", "contains_all", "CONTAINS_ANY", "CONTAINS_ALL") + S + list(items);
        return boolCase(r.chance(12) ? logicAround(e) : e);
    }

    private Object element(final String kind) {
        switch (kind) {
            case "int":
                return r.in(-3, 6);
            case "str":
                return r.chance(70) ? word() : string();
            case "dec":
                return r.pick(new BigDecimal("1.5"), new BigDecimal("1.50"), new BigDecimal("2.25"), new BigDecimal("0.1"), new BigDecimal(r.in(0, 9) + ".5"));
            case "long":
                return 3000000000L + r.in(0, 3);
            case "ver":
                return new org.apache.maven.artifact.versioning.ComparableVersion(r.pick("1.2.3", "1.2.4", "1.10.0", "2.0.0", "1.2", "2.0", "1.2.3-rc", "1.2.3.0", "5"));
            case "bool":
                return r.chance(50);
            case "date":
                return LocalDate.of(2024, 1, r.in(1, 4));
            default:
                return r.chance(50) ? (Object) r.in(0, 3) : (Object) word();
        }
    }

    private Case range() {
        final String lo;
        final String hi;
        final Object x;
        if (r.chance(60)) {
            final int a = r.in(0, 20);
            final int b = r.chance(85) ? a + r.in(0, 10) : r.in(0, 20);
            lo = r.chance(60) ? "" + a : a + "." + r.in(0, 99);
            hi = r.chance(60) ? "" + b : b + "." + r.in(0, 99);
            final BigDecimal base = new BigDecimal(r.pick(lo, hi, "" + r.in(0, 30)));
            x = r.chance(50) ? near(base) : asNumber(base);
        } else {
            final long a = whole() & Long.MAX_VALUE;
            final long b = whole() & Long.MAX_VALUE;
            lo = r.chance(70) ? "" + Math.min(a, b) : Math.min(a, b) + "." + r.in(0, 999);
            hi = r.chance(70) ? "" + Math.max(a, b) : Math.max(a, b) + "." + r.in(0, 999);
            final BigDecimal base = new BigDecimal(r.pick(lo, hi, "" + whole()));
            x = r.chance(60) ? near(base) : number();
        }
        final Object v = r.chance(10) ? anything() : r.chance(10) ? x.toString() : x;
        final String f = r.chance(4) ? missing() : store(v);
        final String e = f + S + lo + S + r.pick("to", "TO") + S + hi;
        return boolCase(r.chance(15) ? logicAround(e) : e);
    }

    // ------------------------------------------------------------------ arithmetic

    private String number1() {
        return operand(r.chance(45) ? number() : r.chance(50) ? (Object) wholeInt() : (Object) whole());
    }

    private Case arithmetic() {
        switch (r.below(8)) {
            case 0:
                return arithCase("-" + S + wrap(number1(), 50));
            case 1:
                return arithCase(arith(r.in(1, 3)));
            case 2:
                return arithCase(par(number1() + S + r.pick("+", "-", "*") + S + number1()) + S + r.pick("+", "-", "*") + S + number1());
            case 3:
                return arithCase(number1() + S + r.pick("+", "-", "*") + S + par(number1() + S + r.pick("+", "-", "*") + S + number1()));
            case 4:
                return arithCase(number1() + S + r.pick("+", "-", "*", "/") + S + number1() + S + r.pick("+", "-", "*") + S + number1());
            default:
                return arithCase(number1() + S + r.pick("+", "-", "*") + S + number1());
        }
    }

    private Case divide() {
        final String op = r.pick("/", "/", "%", "%", "^");
        if (op.equals("^") && r.chance(30)) {
            final Object base = r.pick((Object) 2, -2, 4, 10, -10, 20, 1024, -1, 0, 0L, 6L, 2.0, new BigDecimal("10.0"), -8.0, 1000000, 4294967296L, 9007199254740992L, 3, Integer.MIN_VALUE);
            final Object exponent = r.pick((Object) r.in(-40, 80), r.in(-1100, 1100), r.in(-3, 3), (long) r.in(-5, 320), -1, 1023, 1024, 308, 309, new BigDecimal("3.0"), -2.0, 2147483647, 9007199254740992L);
            return arithCase(wrap(operand(base), 50) + S + "^" + S + par(operand(exponent)));
        }
        if (op.equals("^") && r.chance(45)) {
            final Object base = r.pick((Object) wholeInt(), r.in(2, 20), whole(), decimal(), floating(), new BigDecimal(r.in(1, 400)).movePointLeft(2), new BigDecimal("1.0001"), new BigDecimal("0.999"), 0.5, 1e10, 1e-5);
            final Object exponent = r.pick((Object) r.in(-30, 30), new BigDecimal(r.in(-60, 60)).movePointLeft(1), new BigDecimal(r.in(-600, 600)).movePointLeft(2), 0.5, -0.5, 0.25, 1.5, new BigDecimal("0.2"), new BigDecimal("0.125"),
                                           r.in(-400, 400), r.in(-9999, 9999), decimal());
            return arithCase(wrap(operand(base), 50) + S + "^" + S + par(operand(exponent)));
        }
        if (op.equals("^")) {
            final String base = r.chance(70) ? operand(r.in(-12, 12)) : operand(r.pick((Object) (long) r.in(-9, 9), new BigDecimal("2.0"), 3.0, whole()));
            return arithCase(wrap(base, 50) + S + "^" + S + operand(r.chance(80) ? r.in(0, 12) : r.in(0, 60)));
        }
        final Object y = r.chance(12) ? r.pick((Object) 0, 0L, new BigDecimal("0.00"), 0.0) : op.equals("%") && r.chance(85) ? (r.chance(50) ? (Object) r.in(-20, 20) : (Object) whole())
                : number();
        final Object x = op.equals("%") && r.chance(85) ? (r.chance(50) ? (Object) wholeInt() : (Object) whole()) : number();
        final String e = operand(x) + S + op + S + operand(y);
        return arithCase(r.chance(15) ? par(e) + S + r.pick("+", "-", "*", "/") + S + smallNumber() : e);
    }

    private List<Object> numbers(final int max) {
        final int mode = r.below(5);
        final List<Object> xs = new ArrayList<>();
        final int n = r.below(150) == 0 ? r.in(40, 200) : r.chance(5) ? r.in(max, 40) : r.in(1, max);
        if (mode == 4) {
            // close together
            Object x = r.chance(50) ? longDecimal() : r.chance(50) ? decimal() : (Object) whole();
            for (int i = 0; i < n; i++) {
                xs.add(x);
                if (!(x instanceof Float)) {
                    x = near(x);
                }
            }
            Collections.shuffle(xs, new java.util.Random(r.next()));
            return xs;
        }
        for (int i = 0; i < n; i++) {
            xs.add(mode == 0 ? (Object) r.in(-9, 9) : mode == 1 ? (Object) wholeInt() : mode == 2 ? (r.chance(60) ? (Object) (long) r.in(-99, 99) : (Object) whole()) : number());
        }
        return xs;
    }

    private String arguments(final List<Object> xs) {
        final List<String> items = new ArrayList<>();
        int i = 0;
        while (i < xs.size()) {
            if (r.chance(20)) {
                final int k = r.in(1, xs.size() - i);
                items.add(store(collection(new ArrayList<>(xs.subList(i, i + k)))));
                i += k;
            } else {
                items.add(operand(xs.get(i)));
                i++;
            }
        }
        if (r.chance(4)) {
            items.add(store(collection(new ArrayList<>())));
        }
        return list(items);
    }

    private Case aggregate() {
        final String f = r.pick(NUMFNS);
        List<Object> xs = numbers(r.pick(1, 3, 5, 8));
        if (f.equals("mode")) {
            final List<Object> pool = new ArrayList<>(xs);
            xs = new ArrayList<>();
            for (int i = r.in(1, 7); i > 0; i--) {
                xs.add(r.pick(pool));
            }
        }
        if (r.chance(6)) {
            xs.add(r.in(0, xs.size()), scalar());
        }
        final String e = pickCase(f) + S + (r.chance(25) ? list(Collections.singletonList(store(collection(xs)))) : arguments(xs));
        return arithCase(r.chance(15) ? e + S + r.pick("+", "-", "*") + S + smallNumber() : e);
    }

    private Case convert() {
        switch (r.below(10)) {
            case 0:
                return arithCase("len" + S + list(Collections.singletonList(operand(string()))));
            case 1:
                final List<Object> xs = new ArrayList<>();
                for (int i = r.in(0, 6); i > 0; i--) {
                    xs.add(r.chance(50) ? (Object) string() : scalar());
                }
                return arithCase("LEN" + S + list(Collections.singletonList(store(collection(xs)))));
            case 2:
                final List<Object> ys = numbers(4);
                if (r.chance(50)) {
                    ys.add(r.in(0, ys.size()), r.chance(70) ? string() : anything());
                }
                return arithCase("len" + S + arguments(ys));
            case 3:
                return arithCase("len" + S + list(Collections.singletonList(operand(r.chance(60) ? scalar() : anything()))));
            case 4:
            case 5:
                return arithCase(pickCase("int") + S + list(Collections.singletonList(r.chance(80) ? operand(number()) : r.chance(50) ? par(arith(1)) : operand(scalar()))));
            case 6:
                return arithCase("int" + S + arguments(numbers(3)));
            case 7:
                return arithCase("days_elapsed" + S + list(Collections.singletonList(operand(r.chance(85) ? dateForm(date()) : scalar()))));
            case 8:
                return arithCase("DAYS_ELAPSED" + S + list(Collections.singletonList(r.pick("2024-01-01", "'2024-02-29'", "'2023-02-29'", "2024-02-29", "1970-01-01", "9999-12-31", "'x'"))));
            default:
                return arithCase("int" + S + list(Collections.singletonList(operand(decimal()))) + S + r.pick("+", "*", "/") + S + smallNumber());
        }
    }

    private Case embed() {
        final String cmp = r.pick(CMP);
        switch (r.below(9)) {
            case 7:
            case 8:
                return exactEmbed(cmp);
            case 0:
                return boolCase(par(arith(r.in(1, 2))) + S + cmp + S + smallNumber());
            case 1:
                return boolCase(smallNumber() + S + cmp + S + par(arith(r.in(1, 2))));
            case 2:
                return boolCase(par(arith(1)) + S + cmp + S + par(arith(1)));
            case 3:
                return boolCase(fn(r.pick(NUMFNS), 1) + S + cmp + S + wrap(number1(), 30));
            case 4:
                return boolCase(store(r.in(0, 9)) + S + "in" + S + list(Arrays.asList(arith(1), par(arith(1)), fn(r.pick(NUMFNS), 0))));
            case 5:
                return boolCase(store(collection(smallList())) + S + r.pick("contains_any", "contains_all") + S + list(Arrays.asList(arith(1), literal(r.in(0, 5)))));
            default:
                final String e = par(par(arith(1)) + S + cmp + S + smallNumber());
                return boolCase(e + S + r.pick("and", "or") + S + par(fn(r.pick("min", "max", "sum", "len"), 0) + S + r.pick(CMP) + S + literal(r.in(0, 9))));
        }
    }

    /** an operation compared with a value next to its exact result */
    private Case exactEmbed(final String cmp) {
        final Object x = r.chance(40) ? longDecimal() : r.chance(50) ? decimal() : (Object) (long) r.in(-1000000, 1000000);
        final Object y = r.chance(40) ? longDecimal() : r.chance(50) ? decimal() : (Object) (long) r.in(-1000000, 1000000);
        final BigDecimal a = new BigDecimal(x.toString());
        final BigDecimal b = new BigDecimal(y.toString());
        final String op = r.pick("+", "-", "*", "min", "max", "sum");
        final BigDecimal exact = op.equals("+") || op.equals("sum") ? a.add(b) : op.equals("-") ? a.subtract(b) : op.equals("*") ? a.multiply(b) : op.equals("min") ? a.min(b) : a.max(b);
        final String e = op.length() == 1 ? par(operand(x) + S + op + S + operand(y)) : pickCase(op) + S + list(Arrays.asList(operand(x), operand(y)));
        final BigDecimal other = r.chance(35) ? exact : exact.add(epsilon(exact));
        final String o = r.chance(20) ? par(operand(other) + S + r.pick("+", "-") + S + "0") : operand(asNumber(other));
        if (r.chance(20)) { // containment of the result, in whichever of its forms the list holds it
            final List<Object> xs = new ArrayList<>(Arrays.asList(r.pick(exact, asNumber(other), exact.stripTrailingZeros(), exact.setScale(Math.max(0, exact.scale()) + 1)), number()));
            Collections.shuffle(xs, new java.util.Random(r.next()));
            return boolCase(store(collection(xs)) + S + r.pick("contains_any", "contains_all") + S + list(r.chance(60) ? Arrays.asList(e) : Arrays.asList(e, operand(xs.get(0)))));
        }
        if (r.chance(15)) {
            return boolCase(store(asNumber(other)) + S + (r.chance(30) ? "not" + S : "") + "in" + S + list(Arrays.asList(e, literal(r.in(0, 3)))));
        }
        return boolCase(r.chance(50) ? e + S + cmp + S + o : o + S + cmp + S + e);
    }

    private Case kinds() {
        final String b = r.pick(boolLeaf(), par(boolLeaf()), literal(r.chance(50)), store(r.chance(50)));
        final String nonBool = r.pick(literal(r.in(0, 9)), store(number()), quote(word() + "w"), par(arith(1)), arith(1), fn(r.pick(NUMFNS), 0), "1.2.3", "2024-01-01", store(word()),
                                      store(collection(smallList())), "-" + S + literal(4), store("true"), quote("true"), store(1), store(date()));
        switch (r.below(9)) {
            case 0:
                return boolCase(nonBool);
            case 1:
                return boolCase("not" + S + par(nonBool));
            case 2:
                return boolCase(r.pick("true", "false") + S + r.pick("and", "or") + S + par(nonBool));
            case 3:
                return boolCase(par(nonBool) + S + r.pick("and", "or") + S + r.pick("true", "false"));
            case 4:
                return arithCase(b);
            case 5:
                return arithCase(par(boolLeaf()) + S + r.pick("+", "-", "*", "/") + S + literal(r.in(1, 5)));
            case 6:
                return arithCase(r.pick("-" + S + par(b), r.pick(FNS) + S + "(" + operand(scalar()) + ")", operand(scalar()) + S + r.pick("-", "*", "/", "%") + S + operand(scalar()),
                                        "-" + S + operand(scalar())));
            case 7:
                return arithCase(r.pick("not" + S + par(b), b + S + "and" + S + b, store(3) + S + "in" + S + "(1,3)", store(3) + S + "1 to 5"));
            default:
                return arithCase(operand(r.chance(50) ? scalar() : anything()) + S + r.pick(ARITH) + S + operand(scalar()));
        }
    }

    private Case defaultField() {
        final String f = r.chance(12) ? oddDefault() : r.chance(15) ? missing() : r.chance(75) ? store(r.in(0, 5)) : store(scalar());
        final String e;
        switch (r.below(9)) {
            case 0:
            case 1:
            case 2:
                e = r.pick(CMP) + S + literal(r.in(0, 5));
                break;
            case 3:
                e = store(r.in(0, 5)) + S + r.pick(CMP);
                break;
            case 4:
                e = r.pick(CMP) + S + literal(r.in(0, 5)) + S + r.pick("and", "or") + S + r.pick(CMP) + S + literal(r.in(0, 5));
                break;
            case 5:
                e = "not" + S + par(r.pick(CMP) + S + literal(r.in(0, 5)));
                break;
            case 6:
                e = logic(1, 5);
                break;
            case 7:
                e = r.pick("", S, r.pick(CMP), "and", "not", "-", "+" + S + literal(3) + S + ">" + S + "2", "in" + S + "(1,2)", "1 to 5", "min" + S + "()", "()");
                break;
            default:
                e = store(r.in(0, 5)) + S + r.pick(CMP) + S + literal(r.in(0, 5)) + S + r.pick("and", "or") + S + r.pick(CMP) + S + literal(r.in(0, 5));
        }
        return new Case(r.chance(65) ? 'B' : 'P', render(e), data, r.chance(80) ? f : r.pick(null, "", " ", null));
    }

    /** a default field need not look like one */
    private String oddDefault() {
        final String f = r.pick("my field", "and", "5", "true", "'q'", "a,b", " a", "a ", "é", "(x)", "not", "1.5", "1.2.3", "2024-01-01", "=", "a = 1", "-", "min", "\uD83D\uDE00", "\"", "in", "$");
        final String path = r.chance(20) ? "top." + f : f;
        if (!path.equals(f) || f.indexOf('.') >= 0) {
            return r.chance(80) ? storeAt(path, r.in(0, 5)) : path;
        }
        if (r.chance(85)) {
            data.put(f, r.chance(80) ? (Object) r.in(0, 5) : scalar());
        }
        return f;
    }

    private Case concat() {
        final Object x = r.chance(50) ? string() : anything();
        final Object y = x instanceof String && r.chance(60) ? anything() : r.chance(70) ? (Object) string() : (Object) r.pick(version(), r.chance(50), word());
        final String a = operand(x);
        final String b = operand(y);
        final boolean swap = r.chance(50);
        final String e = (swap ? b : a) + S + "+" + S + (swap ? a : b);
        if (r.chance(25)) {
            return arithCase(par(e) + S + "+" + S + operand(r.chance(50) ? scalar() : string()));
        }
        if (r.chance(10)) {
            return boolCase(par(e) + S + r.pick("=", "!=") + S + quote(word()));
        }
        return arithCase(e);
    }

    private Case mixed() {
        return build(r.pick("compare", "cross", "logic", "field", "nullcheck", "in", "contains", "range", "arith", "divide", "aggregate", "convert", "embed", "kinds", "default", "concat",
                            "tree", "surface", "literal", "malformed"));
    }
}
