package vp;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.format.DateTimeFormatter;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.Collections;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.concurrent.CopyOnWriteArrayList;
import org.apache.maven.artifact.versioning.ComparableVersion;

/**
 * Building blocks of random cases. Expressions are built with {@link #S} between tokens; {@link #render} turns it into
 * white space (none where the tokens need none).
 */
class Gen {
    static final String S = "\u0001";
    static final DateTimeFormatter DT = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
    static final String[] CMP = {"=", "!=", ">", ">=", "<", "<="};
    static final String[] ORD = {">", ">=", "<", "<="};
    static final String[] ARITH = {"+", "-", "*", "/", "%", "^"};
    static final String[] FNS = {"min", "max", "avg", "sum", "mean", "mode", "median", "len", "int", "days_elapsed"};
    static final String[] NUMFNS = {"min", "max", "avg", "sum", "mean", "mode", "median"};

    final Rng r;
    Map<String, Object> data = new LinkedHashMap<>();
    private int names;

    Gen(final Rng r) {
        this.r = r;
    }

    // ------------------------------------------------------------------ values

    static final long[] EDGES = {0, 1, -1, 2, 3, 5, 7, 9, 10, 12, 99, 100, 1000, 32767, 65536, 999999999L, Integer.MAX_VALUE, Integer.MIN_VALUE, 2147483648L,
                                 -2147483649L, 4294967296L, 10000000000L, (1L << 53) - 1, 1L << 53, (1L << 53) + 1, -(1L << 53) - 1, 3037000500L, 1L << 62,
                                 Long.MAX_VALUE - 1, Long.MAX_VALUE, Long.MIN_VALUE, Long.MIN_VALUE + 1};

    long whole() {
        switch (r.below(6)) {
            case 0:
            case 1:
                return r.in(-20, 20);
            case 2:
                return r.pick(EDGES[r.below(EDGES.length)], EDGES[r.below(EDGES.length)]);
            case 3:
                return r.in(-1000000, 1000000);
            case 4:
                return r.next() >> r.in(0, 62);
            default:
                return r.in(0, 200);
        }
    }

    int wholeInt() {
        final long v = whole();
        return (int) v == v ? (int) v : r.in(-50, 50);
    }

    BigDecimal decimal() {
        switch (r.below(8)) {
            case 0:
                return new BigDecimal(BigInteger.valueOf(r.in(-50, 50)), r.in(0, 2));
            case 1:
                return new BigDecimal(BigInteger.valueOf(r.in(-100000, 100000)), r.in(1, 4));
            case 2:
                return new BigDecimal(BigInteger.valueOf(whole()), r.in(0, 6));
            case 3:
                return new BigDecimal(r.pick("0.1", "0.2", "0.3", "0.5", "1.0", "1.50", "2.00", "0.001", "0.0009", "0.333", "99.999", "100.0005", "0.30"));
            case 4:
                return new BigDecimal(new BigInteger(r.in(10, 120), new java.util.Random(r.next())), r.in(0, 30));
            case 5:
                return r.chance(50) ? longDecimal() : BigDecimal.valueOf(whole()).add(new BigDecimal(r.pick("0.5", "0.1", "0.999", "0.0001")));
            default:
                return new BigDecimal(BigInteger.valueOf(r.in(-1000, 1000)), r.in(1, 3));
        }
    }

    Object floating() {
        final double d = r.pick(0.5, 1.5, 2.0, -3.25, 0.1, 0.30000000000000004, 1e10, 1.0E-5, 123456.789, 100.0, 9.007199254740993E15, -0.0, 2.5, 1.0E22);
        return r.chance(25) ? (Object) r.pick(0.5f, 1.5f, 2.0f, -3.25f, 0.1f, 7.75f) : (Object) (r.chance(50) ? d : r.in(-1000, 1000) / 8.0);
    }

    static final String[] STRINGS = {"abc", "ABC", "abd", "ab", "", "a", "b", "z", "Z", " abc", "abc ", "a b", "5", "5.0", "05", "10", "9", "-3", "1.5", "true", "FALSE",
                                     "True", "null", "2024-01-01", "2024-02-30", "2023-12-31 23:59:59", "1.2.3", "1.10", "é", "Ω", "日本", "\uD83D\uDE00",
                                     "\uFFFD", "and", "x or y", "(a)", "a,b", "%", "1e3", "+7", "9223372036854775807", "100", "99999999999", "0.10", "tab\there",
                                     "line\nbreak", "O", "_", "..", "12abc", "'x'", "\"x\"", "'", "\"", "''", "\"\"", "'5'", "\"true\"", "'a", "b'", "it's", "\\", "\\n", "%s", "{0}", "$1", "a\\b",
                                     "a' and b = 'c", "\u00a0", " ", "  ", "\t", "ı", "İ", "K", "ſ", "NaN", "Infinity", "0x1F", "5L", "5d", "1_000", "1,000", "2024-1-05", "2024-01-5", "2024-1-1", "24-01-05", "12024-01-05", "+12024-01-05",
                                     "-2024-01-05", "02024-01-05", "2024-01-05 01:02", "2024-01-05 1:02:03", "2024-01-05T01:02:03", "2024-01-05 01:02:03.5", "2024-1-5 01:02:03", "2024-01-05 24:00:00",
                                     "2024-01-05 01:02:03 ", " 2024-01-05", "2024-01-05 ", "2024/01/05", "20240105", "05-01-2024", "2024-01", "01:02:03", "2024-13-05", "2024-00-05", "0000-01-05", "2024-01-05Z",
                                     "2024-02-31", "2024-01-00", "2024-01-32", "2024-01-05 25:00:00", "2024-01-05 23:60:00", "1.2.3-rc", "1.2-SNAPSHOT", "2.0.0-alpha-1", "1.0.final", "v1.2.3", "1.2.x",
                                     "1.2.3.", ".1.2.3", "1..2", "1.2.3.4.5"};

    String string() {
        if (r.chance(70)) {
            return STRINGS[r.below(STRINGS.length)];
        }
        if (r.chance(8)) {
            // a long one
            final StringBuilder b = new StringBuilder();
            final String unit = r.pick("ab", "x", "0", " y", "é", "\uD83D\uDE00");
            for (int i = r.chance(4) ? r.in(300, 3000) : r.in(10, 120); i > 0; i--) {
                b.append(unit);
            }
            return b + r.pick("", "a", "b", "Z");
        }
        final StringBuilder b = new StringBuilder();
        final int n = r.in(0, 8);
        for (int i = 0; i < n; i++) {
            b.append(r.pick('a', 'b', 'A', 'B', ' ', '1', '2', '.', '-', 'é', 'ß', '~', '!', '=', '(', '字'));
        }
        return b.toString();
    }

    /** strings that are no number, date or boolean */
    String word() {
        return r.pick("abc", "ABC", "abd", "", "a", "b", "ab", "a b", "Z", "zeta", "é", "\uD83D\uDE00", "日本", "aa", "aB", "b1", "x.y", "~", "\uFFFD", "abcabcabcabc", "A", "_",
                      "hello world", "ab ", " ab");
    }

    ComparableVersion version() {
        return new ComparableVersion(r.chance(70) ? versionText() : oddVersion());
    }

    /** a version no literal can name */
    String oddVersion() {
        if (r.chance(30)) {
            return r.pick("5", "1.5", "10", "0", "1.0", "00.1", "1.", ".1", "", "-", ".", "1..2", "2024-01-01", "0001-01-01", "true", "abc", "1e3", "5.0", "-1", "99999999999999999999.1", "v1", "null", "1 2");
        }
        final StringBuilder b = new StringBuilder(r.pick("1", "1.2", "1.2.3", "1.0", "2.0.0", "", "10", "1.10"));
        for (int i = r.in(1, 3); i > 0; i--) {
            b.append(r.pick("", ".", "-", "-")).append(r.pick("0", "1", "2", "10", "01", "a", "b", "m", "alpha", "beta", "milestone", "rc", "cr", "RC", "ga", "Final", "snapshot", "SNAPSHOT", "sp", "x", "xyz", "jre8", "_"));
        }
        return b.toString();
    }

    String versionText() {
        final int n = r.in(3, 5);
        final StringBuilder b = new StringBuilder();
        for (int i = 0; i < n; i++) {
            b.append(i == 0 ? "" : ".").append(r.pick(0, 1, 2, 9, 10, 11, 100, r.below(30)));
        }
        return b.toString();
    }

    /** a text that spells the number, or nearly */
    String spelling(final BigDecimal d) {
        final String plain = d.toPlainString();
        switch (r.below(12)) {
            case 0:
                return plain + (plain.indexOf('.') < 0 ? "." : "") + r.pick("0", "00", "000000000000000000000000");
            case 1:
                return d.signum() < 0 ? "-0" + plain.substring(1) : r.pick("0", "00", "+") + plain;
            case 2:
                return d.unscaledValue() + r.pick("E", "e") + r.pick("", d.scale() > 0 ? "" : "+") + -d.scale();
            case 3:
                return new BigDecimal(d.unscaledValue(), Math.max(0, d.scale())).movePointLeft(3).toPlainString() + r.pick("E3", "e+3", "E+03");
            case 4:
                return plain + r.pick(" ", ".", "L", "d", "f", "x", "%", "e", "\n");
            case 5:
                return r.pick(" ", "\t", "--", "++", "+-", "#", "0x") + plain;
            case 6:
                return plain + r.pick(".5", ".1", ".0000000000000000000001", "1", "0");
            case 7:
                return r.chance(50) && plain.length() > 3 && plain.indexOf('.') < 0 ? plain.substring(0, plain.length() - 3) + r.pick(",", "_", " ", ".") + plain.substring(plain.length() - 3) : plain;
            default:
                return r.chance(50) ? plain : d.toString();
        }
    }

    LocalDate date() {
        return r.pick(LocalDate.of(2024, 1, 1), LocalDate.of(2024, 2, 29), LocalDate.of(2023, 12, 31), LocalDate.of(1999, 12, 31), LocalDate.of(2000, 2, 29),
                      LocalDate.of(1900, 2, 28), LocalDate.of(2024, 10, 9), LocalDate.of(2024, 9, 10), LocalDate.of(9999, 12, 31), LocalDate.of(1, 1, 1),
                      LocalDate.of(r.in(1, 9999), r.in(1, 12), r.in(1, 28)), LocalDate.of(2024, r.in(1, 12), r.in(1, 28)), LocalDate.now().minusDays(r.in(-400, 4000)));
    }

    LocalDateTime dateTime() {
        final LocalDate d = r.chance(60) ? LocalDate.of(2024, r.in(1, 2), r.in(1, 3)) : date();
        return d.atTime(r.pick(0, 12, 23, r.below(24)), r.pick(0, 59, r.below(60)), r.pick(0, 0, 1, 59, r.below(60)), r.chance(85) ? 0 : nanos());
    }

    int nanos() {
        return r.pick(1, 999999999, 500000000, 120000000, 1000, 1000000, 999000, 1001, r.below(1000000000));
    }

    /** a year no literal can name */
    LocalDate farDate() {
        return LocalDate.of(r.pick(0, -1, -44, -999, -10000, 10000, 12345, 99999, -99999), r.in(1, 12), r.in(1, 28));
    }

    static boolean common(final LocalDate d) {
        return d.getYear() >= 1 && d.getYear() <= 9999;
    }

    static final String[] KINDS = {"int", "long", "dec", "flt", "str", "ver", "bool", "date", "dt"};

    Object value(final String kind) {
        switch (kind) {
            case "int":
                return wholeInt();
            case "long":
                return whole();
            case "dec":
                return decimal();
            case "flt":
                return floating();
            case "str":
                return string();
            case "ver":
                return version();
            case "bool":
                return r.chance(50);
            case "date":
                return r.chance(3) ? farDate() : date();
            case "dt":
                return r.chance(3) ? farDate().atTime(r.in(0, 23), r.in(0, 59), r.in(0, 59), r.chance(50) ? 0 : nanos()) : dateTime();
            default:
                throw new IllegalArgumentException(kind);
        }
    }

    Object any() {
        return value(r.pick(KINDS));
    }

    Object number() {
        switch (r.below(10)) {
            case 0:
            case 1:
            case 2:
            case 3:
                return wholeInt();
            case 4:
            case 5:
                return whole();
            case 6:
                return floating();
            default:
                return decimal();
        }
    }

    Object scalar() {
        return value(KINDS[r.below(KINDS.length)]);
    }

    /** objects the library has no data type for */
    Object other() {
        switch (r.below(3)) {
            case 0:
                return r.pick(BigInteger.valueOf(whole()), (short) r.in(-5, 5), (byte) r.in(0, 9), 'c', '5', java.time.DayOfWeek.MONDAY,
                              java.time.LocalTime.of(10, 0), new StringBuilder("abc"), new java.util.concurrent.atomic.AtomicInteger(r.in(-5, 5)), new java.util.concurrent.atomic.AtomicLong(whole()),
                              java.util.Optional.of(r.in(0, 5)), java.time.YearMonth.of(2024, r.in(1, 12)), new StringBuilder("5"), java.time.Instant.ofEpochSecond(r.in(0, 1000)));
            case 1: // values that stand for nothing, or look like it
                return r.pick(java.util.Optional.empty(), java.util.OptionalInt.empty(), java.util.OptionalLong.empty(), java.util.OptionalDouble.empty(), java.util.Optional.of("null"), new StringBuilder(),
                              new StringBuilder("null"), new StringBuffer(" "), java.util.Locale.ROOT, java.time.Duration.ZERO, java.time.Period.ZERO, new java.util.concurrent.atomic.AtomicReference<Object>(),
                              new java.util.concurrent.atomic.AtomicBoolean(), BigInteger.ZERO, (short) 0, (byte) 0, '\0', ' ', java.util.Collections.emptyIterator(), new java.util.StringJoiner(","),
                              new java.util.BitSet(), new UUIDs(), Nothing.NULL, Nothing.NONE, new java.util.concurrent.CompletableFuture<Object>(), io.vavr.control.Option.none(), new java.util.Date(0L));
            default:
                return r.pick(java.util.OptionalInt.of(r.in(0, 5)), java.util.OptionalLong.of(r.in(0, 5)), java.util.OptionalDouble.of(1.5), java.util.Optional.of(true), java.util.Optional.of("abc"),
                              java.util.UUID.nameUUIDFromBytes(new byte[] {1}), java.net.URI.create("a:b"), new java.util.Date(r.in(0, 5) * 86400000L), java.sql.Date.valueOf("2024-01-01"),
                              java.time.Duration.ofHours(r.in(-5, 50)), java.time.Period.ofDays(r.in(0, 9)), java.time.Year.of(2024), java.time.ZoneOffset.UTC,
                              java.time.ZonedDateTime.of(2024, 1, 1, 0, 0, 0, 0, java.time.ZoneOffset.UTC), java.time.OffsetDateTime.of(2024, 1, 1, 0, 0, 0, 0, java.time.ZoneOffset.UTC),
                              new java.util.concurrent.atomic.AtomicBoolean(true), new java.util.concurrent.atomic.LongAdder(), Nothing.TRUE, io.vavr.control.Option.of(5), io.vavr.collection.List.of(1, 2),
                              new java.util.AbstractMap.SimpleEntry<>("a", 1), Integer.class, java.nio.CharBuffer.wrap("abc"));
        }
    }

    /** constants of an enumeration */
    enum Nothing {
        NULL, NONE, TRUE
    }

    /** an object whose text is a constant */
    static final class UUIDs {
        @Override
        public String toString() {
            return "";
        }
    }

    /** a number equal or close to v, of any kind that can hold it */
    Object near(final Object v) {
        BigDecimal d = new BigDecimal(v.toString());
        switch (r.below(6)) {
            case 0:
                d = d.add(BigDecimal.ONE);
                break;
            case 1:
                d = d.subtract(BigDecimal.ONE);
                break;
            case 2:
                d = d.add(new BigDecimal(r.pick("0.1", "-0.1", "0.001", "-0.0000001", "0.5")));
                break;
            case 3:
                d = d.add(epsilon(d));
                break;
            default:
        }
        return asNumber(d);
    }

    /** a step of the last place of d, or of a place behind it */
    BigDecimal epsilon(final BigDecimal d) {
        final int scale = Math.max(0, d.scale()) + r.pick(0, 0, 1, 3, 8, 20);
        return new BigDecimal(BigInteger.valueOf(r.chance(50) ? 1 : -1), scale);
    }

    /** a decimal of more digits than a double or MathContext.DECIMAL64 holds */
    BigDecimal longDecimal() {
        BigInteger u = new BigInteger(r.in(54, 150), new java.util.Random(r.next())).setBit(54);
        if (r.chance(50)) {
            u = u.negate();
        }
        return new BigDecimal(u, r.in(1, 40));
    }

    /** mostly few, at times many */
    int size(final int few) {
        return r.below(200) == 0 ? r.in(41, 260) : r.chance(6) ? r.in(few, 40) : r.in(1, few);
    }

    Object asNumber(final BigDecimal d) {
        final List<Object> forms = new ArrayList<>();
        forms.add(d);
        forms.add(d.setScale(d.scale() + r.in(1, 3)));
        try {
            forms.add(d.longValueExact());
            forms.add(d.intValueExact());
        } catch (final ArithmeticException ignored) {
            // not whole, or too big
        }
        final double f = d.doubleValue();
        if (new BigDecimal(Double.toString(f)).compareTo(d) == 0) {
            forms.add(f);
        }
        return r.pick(forms);
    }

    // ------------------------------------------------------------------ data

    String name() {
        names++;
        if (r.chance(8)) {
            final String odd = r.pick("And", "oR", "Not", "In", "To", "True", "fALSE", "Min", "Max", "Sum", "Len", "Int", "NaN", "e", "E5", "_", "__", "5a", "1e5", "0x1F", "2L", "1_000", "nul", "nulll",
                                      "Contains_any", "days_Elapsed", "x", "X", "TRUE_", "_and", "a__________________________________________________________________________________________b");
            if (!data.containsKey(odd)) {
                return odd;
            }
        }
        final String base = r.pick("a", "b", "c", "x", "name", "Age", "price", "f_1", "_u", "input", "order", "android", "notes", "inn", "to_x", "minimum", "A1", "max_len", "truex", "n0")
                + names;
        return base;
    }

    /** stores the value under a new name, sometimes inside nested maps, and gives the path */
    String store(final Object v) {
        if (r.chance(75)) {
            final String n = name();
            data.put(n, v);
            return n;
        }
        return storeAt(r.chance(70) ? name() + "." + name() : name() + "." + name() + "." + name(), v);
    }

    @SuppressWarnings("unchecked")
    String storeAt(final String path, final Object v) {
        final String[] ps = path.split("\\.");
        Map<String, Object> m = data;
        for (int i = 0; i < ps.length - 1; i++) {
            Object inner = m.get(ps[i]);
            if (!(inner instanceof Map)) {
                inner = v == null ? new LinkedHashMap<String, Object>()
                        : r.pick(new LinkedHashMap<String, Object>(), new LinkedHashMap<String, Object>(), new TreeMap<String, Object>(), new HashMap<String, Object>(),
                                 new java.util.concurrent.ConcurrentHashMap<String, Object>(), new java.util.concurrent.ConcurrentSkipListMap<String, Object>(),
                                 new java.util.Hashtable<String, Object>());
                if (r.chance(30)) {
                    ((Map<String, Object>) inner).put("other", r.in(0, 9));
                }
                m.put(ps[i], inner);
            }
            m = (Map<String, Object>) inner;
        }
        m.put(ps[ps.length - 1], v);
        return path;
    }

    Object collection(final List<Object> xs) {
        switch (r.below(24)) {
            case 0:
            case 1:
                return new LinkedList<>(xs);
            case 2:
            case 3:
                return Collections.unmodifiableList(new ArrayList<>(xs));
            case 4:
            case 5:
                return new LinkedHashSet<>(xs);
            case 6:
                return new CopyOnWriteArrayList<>(xs);
            case 7:
            case 8:
                return Arrays.asList(xs.toArray());
            case 9:
                return xs.contains(null) ? new ArrayList<>(xs) : List.copyOf(xs);
            case 10:
                return xs.contains(null) ? new ArrayList<>(xs) : new java.util.ArrayDeque<>(xs);
            case 11:
                return new java.util.Vector<>(xs);
            case 12:
                return new java.util.HashSet<>(xs);
            case 13:
                return xs.contains(null) ? new ArrayList<>(xs) : java.util.Set.copyOf(xs);
            case 14: // a view of the values of a map
                final Map<Integer, Object> m = new LinkedHashMap<>();
                for (final Object x : xs) {
                    m.put(m.size(), x);
                }
                return m.values();
            case 15:
                final List<Object> copy = new ArrayList<>(xs);
                return new java.util.AbstractCollection<Object>() {
                    @Override
                    public java.util.Iterator<Object> iterator() {
                        return copy.iterator();
                    }

                    @Override
                    public int size() {
                        return copy.size();
                    }
                };
            case 16:
                return xs.size() == 1 ? Collections.singletonList(xs.get(0)) : new ArrayList<>(xs).subList(0, xs.size());
            case 17:
                return xs.isEmpty() ? Collections.emptySet() : xs.size() == 1 ? Collections.singleton(xs.get(0)) : Collections.synchronizedList(new ArrayList<>(xs));
            default:
                return new ArrayList<>(xs);
        }
    }

    /** an array, of the narrowest type at times */
    Object[] array(final List<Object> xs) {
        if (!xs.isEmpty() && xs.get(0) != null && r.chance(50)) {
            final Class<?> c = xs.get(0).getClass();
            for (final Object x : xs) {
                if (x == null || x.getClass() != c) {
                    return xs.toArray();
                }
            }
            return xs.toArray((Object[]) java.lang.reflect.Array.newInstance(c, 0));
        }
        return xs.toArray();
    }

    /** the same map among many other entries */
    void crowd() {
        for (int i = r.in(10, 300); i > 0; i--) {
            data.putIfAbsent("crowd" + i, i);
        }
    }

    // ------------------------------------------------------------------ literals and operands

    static boolean hasLiteral(final Object v) {
        if (v instanceof Integer) {
            return (Integer) v != Integer.MIN_VALUE;
        }
        if (v instanceof Long) {
            return (Long) v > Integer.MAX_VALUE || (Long) v < Integer.MIN_VALUE && (Long) v != Long.MIN_VALUE;
        }
        if (v instanceof BigDecimal) {
            return ((BigDecimal) v).scale() > 0;
        }
        if (v instanceof String) {
            return ((String) v).indexOf('\'') < 0 || ((String) v).indexOf('"') < 0;
        }
        if (v instanceof LocalDate) {
            return common((LocalDate) v);
        }
        if (v instanceof LocalDateTime) {
            return common(((LocalDateTime) v).toLocalDate()) && ((LocalDateTime) v).getNano() == 0;
        }
        return v instanceof Boolean || v instanceof ComparableVersion && v.toString().matches("[0-9]+(\\.[0-9]+){2,}");
    }

    String quote(final String s) {
        final char q = s.indexOf('\'') >= 0 ? '"' : s.indexOf('"') >= 0 ? '\'' : r.pick('\'', '"');
        return q + s + q;
    }

    /** literal text of a value; negative numbers come out as a unary minus */
    String literal(final Object v) {
        if (v instanceof Integer || v instanceof Long) {
            final long n = ((Number) v).longValue();
            return n < 0 ? "-" + S + Long.toString(-n) : Long.toString(n);
        }
        if (v instanceof BigDecimal) {
            final BigDecimal d = (BigDecimal) v;
            return d.signum() < 0 ? "-" + S + d.negate().toPlainString() : d.toPlainString();
        }
        if (v instanceof String) {
            return quote((String) v);
        }
        if (v instanceof LocalDate) {
            return v.toString();
        }
        if (v instanceof LocalDateTime) {
            return DT.format((LocalDateTime) v);
        }
        if (v instanceof Boolean) {
            return (Boolean) v ? r.pick("true", "TRUE") : r.pick("false", "FALSE");
        }
        return v.toString();
    }

    /** a literal or a field holding the value */
    String operand(final Object v) {
        return hasLiteral(v) && r.chance(50) ? literal(v) : store(v);
    }

    String fieldOrLiteral(final Object v, final int literalPercent) {
        return hasLiteral(v) && r.chance(literalPercent) ? literal(v) : store(v);
    }

    String missing() {
        final String n = "missing" + (++names);
        if (r.chance(20)) {
            data.put(n, null);
            return n;
        }
        if (r.chance(30)) {
            final String inner = name();
            storeAt(inner + ".present", r.in(0, 3));
            return inner + "." + r.pick("absent", "present.deeper");
        }
        return n;
    }

    static String par(final String e) {
        return "(" + S + e + S + ")";
    }

    String list(final List<String> items) {
        return "(" + S + String.join(S + "," + S, items) + S + ")";
    }

    // ------------------------------------------------------------------ boolean leaves with a known flavour

    String boolLeaf() {
        switch (r.below(12)) {
            case 0:
                return literal(r.chance(50));
            case 1:
                return store(r.chance(50));
            case 2:
            case 3:
                final Object n = number();
                return operand(n) + S + r.pick(CMP) + S + operand(near(n));
            case 4:
                return operand(word()) + S + r.pick(CMP) + S + operand(word());
            case 5:
                return missing() + S + r.pick("=", "!=") + S + r.pick("null", "NULL");
            case 6:
                return inLeaf();
            case 7:
                return store(r.in(0, 12)) + S + r.in(0, 5) + S + "to" + S + r.in(4, 12);
            case 8:
                return store(collection(smallList())) + S + r.pick("contains_any", "contains_all") + S + list(Arrays.asList(literal(r.in(0, 5)), literal(r.in(0, 5))));
            case 9:
                return par(arith(1)) + S + r.pick(CMP) + S + literal(r.in(-5, 20));
            default:
                final int a = r.in(0, 3);
                return fieldOrLiteral(a, 40) + S + r.pick(CMP) + S + literal(r.in(0, 3));
        }
    }

    List<Object> smallList() {
        final List<Object> xs = new ArrayList<>();
        final int n = r.chance(4) ? r.in(5, 40) : r.in(0, 4);
        for (int i = 0; i < n; i++) {
            xs.add(r.in(0, 5));
        }
        return xs;
    }

    String inLeaf() {
        final List<String> items = new ArrayList<>();
        final int n = size(4);
        for (int i = 0; i < n; i++) {
            items.add(fieldOrLiteral(r.in(0, 5), 70));
        }
        return store(r.in(0, 5)) + S + (r.chance(30) ? r.pick("not", "NOT") + S : "") + r.pick("in", "IN") + S + list(items);
    }

    /** a boolean expression whose evaluation fails */
    String failingLeaf() {
        switch (r.below(7)) {
            case 0:
                return missing() + S + r.pick(CMP) + S + literal(r.in(0, 5));
            case 1:
                return literal(r.in(0, 5)) + S + r.pick(CMP) + S + missing();
            case 2:
                return store(word() + "x") + S + r.pick(ORD) + S + literal(r.in(0, 5));
            case 3:
                return missing() + S + "in" + S + "(1,2)";
            case 4:
                return missing();
            case 5:
                return par(literal(r.in(1, 9)) + S + "/" + S + "0") + S + "=" + S + "1";
            default:
                return store(r.in(0, 9)) + S + "contains_any" + S + "(1)";
        }
    }

    /** a long row of operands without brackets */
    private String row(final int n, final int failPercent) {
        final StringBuilder b = new StringBuilder();
        final String only = r.pick("and", "or", "", "");
        for (int i = 0; i < n; i++) {
            b.append(i == 0 ? "" : S + (only.isEmpty() ? r.pick("and", "AND", "&&", "or", "OR", "||") : only) + S);
            b.append(r.chance(failPercent) ? failingLeaf() : boolLeaf());
        }
        return b.toString();
    }

    String logic(final int depth, final int failPercent) {
        if (r.below(250) == 0) {
            return row(r.in(8, 70), failPercent / 4);
        }
        if (depth == 0 || r.chance(15)) {
            return r.chance(failPercent) ? failingLeaf() : boolLeaf();
        }
        if (r.chance(20)) {
            return r.pick("not", "NOT") + S + (r.chance(80) ? par(logic(depth - 1, failPercent)) : logic(0, failPercent));
        }
        final String op = r.pick("and", "AND", "&&", "or", "OR", "||");
        final String a = logic(depth - 1, failPercent);
        final String b = logic(depth - 1, failPercent);
        return (r.chance(50) ? par(a) : a) + S + op + S + (r.chance(60) ? par(b) : b);
    }

    // ------------------------------------------------------------------ arithmetic

    String smallNumber() {
        switch (r.below(5)) {
            case 0:
                return literal(r.in(0, 20));
            case 1:
                return store(r.in(-20, 20));
            case 2:
                return operand(new BigDecimal(BigInteger.valueOf(r.in(-400, 400)), r.in(1, 2)));
            case 3:
                return store((long) r.in(-9, 9));
            default:
                return operand(r.in(1, 9));
        }
    }

    String arith(final int depth) {
        if (r.below(300) == 0) {
            final StringBuilder b = new StringBuilder(smallNumber());
            for (int i = r.in(6, 90); i > 0; i--) {
                b.append(S).append(r.pick("+", "-", "+", "-", "*")).append(S).append(r.chance(80) ? literal(r.in(0, 5)) : smallNumber());
            }
            return b.toString();
        }
        if (depth <= 0) {
            return r.chance(70) ? smallNumber() : operand(number());
        }
        switch (r.below(8)) {
            case 0:
                return "-" + S + wrap(arith(depth - 1), 80);
            case 1:
            case 2:
                return fn(r.pick(NUMFNS), depth - 1);
            default:
                return wrap(arith(depth - 1), 70) + S + r.pick("+", "-", "*", "/", "%", "+", "-", "*") + S + wrap(arith(depth - 1), 70);
        }
    }

    String wrap(final String e, final int percent) {
        return r.chance(percent) ? par(e) : e;
    }

    String fn(final String name, final int depth) {
        final int n = size(4);
        final List<String> items = new ArrayList<>();
        for (int i = 0; i < n; i++) {
            items.add(arith(r.chance(70) ? 0 : depth));
        }
        return (r.chance(30) ? name.toUpperCase(java.util.Locale.ROOT) : name) + S + list(items);
    }

    // ------------------------------------------------------------------ rendering

    private static boolean fieldChar(final char c) {
        return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '.' || c == '_';
    }

    /** mode 0: one space everywhere; 1: as little as possible; 2: random white space */
    String render(final String e, final int mode) {
        final StringBuilder b = new StringBuilder();
        for (int i = 0; i < e.length(); i++) {
            final char c = e.charAt(i);
            if (c != 1) {
                b.append(c);
                continue;
            }
            final char before = b.length() == 0 ? ' ' : b.charAt(b.length() - 1);
            char after = ' ';
            for (int j = i + 1; j < e.length(); j++) {
                if (e.charAt(j) != 1) {
                    after = e.charAt(j);
                    break;
                }
            }
            final boolean needed = fieldChar(before) && fieldChar(after);
            if (mode == 0) {
                b.append(' ');
            } else if (mode == 1) {
                b.append(needed ? " " : "");
            } else {
                final int n = r.pick(0, 0, 1, 1, 1, 2, 3);
                for (int k = 0; k < (needed ? Math.max(1, n) : n); k++) {
                    b.append(r.pick(' ', ' ', ' ', '\t', '\n', '\r', '\f'));
                }
            }
        }
        return b.toString();
    }

    String render(final String e) {
        return render(e, r.pick(0, 0, 0, 1, 1, 2));
    }
}
