package vp;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Collection;
import java.util.Iterator;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import org.apache.maven.artifact.versioning.ComparableVersion;

/** Java values as values of the specification (module Values) and back. */
final class Val {
    private static final BigInteger BASE = BigInteger.valueOf(10000);

    private Val() {
    }

    static String num(final BigInteger n) {
        final StringBuilder b = new StringBuilder("{\"s\":").append(n.signum()).append(",\"m\":[");
        BigInteger m = n.abs();
        boolean first = true;
        while (m.signum() != 0) {
            final BigInteger[] qr = m.divideAndRemainder(BASE);
            b.append(first ? "" : ",").append(qr[1]);
            first = false;
            m = qr[0];
        }
        return b.append("]}").toString();
    }

    static BigInteger num(final Object json) {
        final Map<?, ?> m = (Map<?, ?>) json;
        BigInteger r = BigInteger.ZERO;
        final List<?> limbs = (List<?>) m.get("m");
        for (int i = limbs.size() - 1; i >= 0; i--) {
            r = r.multiply(BASE).add(BigInteger.valueOf((Long) limbs.get(i)));
        }
        return (Long) m.get("s") < 0 ? r.negate() : r;
    }

    private static String tag(final String kind, final String body) {
        return "{\"k\":\"" + kind + "\"" + body + "}";
    }

    static String json(final Object v) {
        if (v == null) {
            return tag("null", "");
        }
        if (v instanceof Integer) {
            return tag("int", ",\"n\":" + num(BigInteger.valueOf((Integer) v)));
        }
        if (v instanceof Long) {
            return tag("long", ",\"n\":" + num(BigInteger.valueOf((Long) v)));
        }
        if (v instanceof BigDecimal) {
            final BigDecimal d = (BigDecimal) v;
            return tag("dec", ",\"d\":{\"u\":" + num(d.unscaledValue()) + ",\"sc\":" + d.scale() + "}");
        }
        if (v instanceof Double || v instanceof Float) {
            return tag("flt", ",\"t\":" + Json.codes(v.toString()));
        }
        if (v instanceof Boolean) {
            return tag("bool", ",\"b\":" + v);
        }
        if (v instanceof String) {
            return tag("str", ",\"t\":" + Json.codes((String) v));
        }
        if (v instanceof ComparableVersion) {
            return tag("ver", ",\"t\":" + Json.codes(v.toString()));
        }
        if (v instanceof LocalDate) {
            final LocalDate d = (LocalDate) v;
            return tag("date", ",\"y\":" + d.getYear() + ",\"mo\":" + d.getMonthValue() + ",\"d\":" + d.getDayOfMonth());
        }
        if (v instanceof LocalDateTime) {
            final LocalDateTime d = (LocalDateTime) v;
            return tag("dt", ",\"y\":" + d.getYear() + ",\"mo\":" + d.getMonthValue() + ",\"d\":" + d.getDayOfMonth() + ",\"h\":" + d.getHour()
                    + ",\"mi\":" + d.getMinute() + ",\"s\":" + d.getSecond() + ",\"ns\":" + d.getNano());
        }
        if (v instanceof Map) {
            return tag("map", ",\"e\":" + entries((Map<?, ?>) v) + ",\"t\":" + Json.codes(v.toString()));
        }
        if (v instanceof Collection) {
            return tag("list", ",\"e\":" + elements(((Collection<?>) v).iterator()) + ",\"t\":" + Json.codes(v.toString()));
        }
        if (v instanceof Object[]) {
            return tag("arr", ",\"e\":" + elements(java.util.Arrays.asList((Object[]) v).iterator()));
        }
        return tag("oth", ",\"t\":" + Json.codes(v.toString()));
    }

    static String elements(final Iterator<?> it) {
        final StringBuilder b = new StringBuilder("[");
        while (it.hasNext()) {
            b.append(b.length() > 1 ? "," : "").append(json(it.next()));
        }
        return b.append(']').toString();
    }

    static String entries(final Map<?, ?> m) {
        final StringBuilder b = new StringBuilder("[");
        for (final Map.Entry<?, ?> e : m.entrySet()) {
            b.append(b.length() > 1 ? "," : "").append("{\"key\":").append(Json.codes(String.valueOf(e.getKey()))).append(",\"v\":").append(json(e.getValue()))
             .append('}');
        }
        return b.append(']').toString();
    }

    /** The Java value of a specification value (one representative for each kind). */
    static Object of(final Object json) {
        final Map<?, ?> m = (Map<?, ?>) json;
        switch ((String) m.get("k")) {
            case "null":
                return null;
            case "int":
                return num(m.get("n")).intValueExact();
            case "long":
                return num(m.get("n")).longValueExact();
            case "dec":
                final Map<?, ?> d = (Map<?, ?>) m.get("d");
                return new BigDecimal(num(d.get("u")), (int) (long) (Long) d.get("sc"));
            case "flt":
                return Double.valueOf(Json.text(m.get("t")));
            case "bool":
                return m.get("b");
            case "str":
                return Json.text(m.get("t"));
            case "ver":
                return new ComparableVersion(Json.text(m.get("t")));
            case "date":
                return LocalDate.of(i(m, "y"), i(m, "mo"), i(m, "d"));
            case "dt":
                return LocalDateTime.of(i(m, "y"), i(m, "mo"), i(m, "d"), i(m, "h"), i(m, "mi"), i(m, "s"), i(m, "ns"));
            case "list":
                return list(m.get("e"));
            case "arr":
                return list(m.get("e")).toArray();
            case "map":
                return map(m.get("e"));
            case "upto": // large values in short
                return upTo(i(m, "n"));
            case "uptoarr":
                return upTo(i(m, "n")).toArray();
            case "reps":
                return new ArrayList<>(java.util.Collections.nCopies(i(m, "n"), of(m.get("v"))));
            case "strs":
                return String.join("", java.util.Collections.nCopies(i(m, "n"), Json.text(m.get("t"))));
            case "oth":
                return other(Json.text(m.get("t")));
            default:
                throw new IllegalArgumentException(String.valueOf(json));
        }
    }

    private static List<Object> upTo(final int n) {
        final List<Object> l = new ArrayList<>();
        for (int k = 1; k <= n; k++) {
            l.add(k);
        }
        return l;
    }

    /** a text of pieces that are repeated or numbered */
    static String pieces(final Object json) {
        final StringBuilder b = new StringBuilder();
        for (final Object o : (List<?>) json) {
            final Map<?, ?> p = (Map<?, ?>) o;
            final String t = Json.text(p.get("t"));
            final boolean numbered = "upto".equals(p.get("kind"));
            for (int k = 1; k <= i(p, "n"); k++) {
                b.append(numbered && k > 1 ? Json.text(p.get("sep")) : "").append(t).append(numbered ? String.valueOf(k) : "");
            }
        }
        return b.toString();
    }

    private static Object other(final String text) {
        switch (text) {
            case "Optional.empty":
                return java.util.Optional.empty();
            case "OptionalInt.empty":
                return java.util.OptionalInt.empty();
            case "Optional[5]":
                return java.util.Optional.of(5);
            case "MONDAY":
                return java.time.DayOfWeek.MONDAY;
            case "NULL":
                return Gen.Nothing.NULL;
            case "":
                return new StringBuilder();
            case "12":
                return BigInteger.valueOf(12);
            default:
                return new Other(text);
        }
    }

    /** a value of a class the library knows nothing of */
    static final class Other {
        private final String text;

        Other(final String text) {
            this.text = text;
        }

        @Override
        public String toString() {
            return text;
        }
    }

    private static int i(final Map<?, ?> m, final String key) {
        return (int) (long) (Long) m.get(key);
    }

    static List<Object> list(final Object json) {
        final List<Object> r = new ArrayList<>();
        for (final Object o : (List<?>) json) {
            r.add(of(o));
        }
        return r;
    }

    static Map<String, Object> map(final Object json) {
        final Map<String, Object> r = new LinkedHashMap<>();
        for (final Object o : (List<?>) json) {
            r.put(Json.text(((Map<?, ?>) o).get("key")), of(((Map<?, ?>) o).get("v")));
        }
        return r;
    }
}
