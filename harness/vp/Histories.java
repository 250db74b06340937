package vp;

import java.io.PrintWriter;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/** Sequences of calls through one caching parser (C19) and through shared instances (C20), recorded call by call. */
final class Histories {
    private static final String[] SEPARATORS = {"_", ":", "|", "#", ",", "-", " ", ";", "/", "@", "::", "||", "__", ".", "\n", "\t", "\u0000", "$", "~", "+", "=", "&&", ")", "null"};
    private static final String[] DEFAULTS = {null, "", " ", "a", "b", "null", "c", "aa", "a.b", "name"};
    private static final int[] SIZES = {0, 1, 2, 3, 8, 1000};

    private final Rng r;

    private Histories(final Rng r) {
        this.r = r;
    }

    private static String[] pair(final String text, final String def) {
        return new String[] {text, def};
    }

    private static String repeat(final String s, final int n) {
        final StringBuilder b = new StringBuilder();
        for (int i = 0; i < n; i++) {
            b.append(s);
        }
        return b.toString();
    }

    /** a pool of expression and default field pairs that are easily taken for one another */
    List<String[]> pool() {
        final List<String[]> p = new ArrayList<>();
        final String f = r.pick("a", "b", "name", "aa");
        final String v = r.pick("1", "'x'", "2.5", "b", "true");
        final String op = r.pick("=", "!=", ">", "<=");
        switch (r.below(19)) {
            case 16:
            case 17: // what is the same text or default field to a careless reader: other letter case, padding, white space or quotes
                lookAlikes(p);
                break;
            case 18: // a failing text next to what it becomes when tidied
                for (final String q : new String[] {"a = 1 ", " a = 1", "a = 1;", "a == 1", "a = 1\u00a0", "\ufeffa = 1", "a = 1\n", "a = 1\u0000", "(a = 1", "a = 1)", "A = 1", "a = '1", "a = 1'", "a = 1"}) {
                    p.add(pair(q, r.chance(30) ? r.pick("", "a", "b") : null));
                }
                break;
            case 12:
            case 13: // equal hash codes of longer texts
                final Case base = Profiles.make(r.pick("tree", "mixed", "logic", "default", "surface"), new Rng(r.next()));
                final String[] twins = r.pick(new String[] {"Aa", "BB"}, new String[] {"AaAa", "BBBB"}, new String[] {"AaBB", "BBAa"}, new String[] {"C#", "Bb"}, new String[] {"Ea", "FB"});
                final String before = r.pick("", "a = 1 OR ", "(b = 2) AND ", repeat("a = 1 OR ", r.in(1, 9)), base.text + " AND ", base.text + " OR ");
                final String after = r.pick("", " OR b = 2", " AND (a)", repeat(" OR b = 2", r.in(1, 9)), " OR " + base.text);
                for (final String w : twins) {
                    p.add(pair(before + "a " + op + " '" + w + "'" + after, null));
                    p.add(pair(before + w + " " + op + " " + v + after, null));
                    p.add(pair(before + "'" + w + "' " + op + " a" + after, w));
                    p.add(pair(before + op + " " + v + after, w + w));
                }
                break;
            case 0: // one text, several default fields
                final String t = r.pick(op + " " + v, f + " AND", "OR " + f, "NOT", f + " " + op, "(" + op + " " + v + ") AND " + f, "-", "1 +", f, "IN", "");
                for (final String d : DEFAULTS) {
                    p.add(pair(t, d));
                }
                break;
            case 1: // text and default field run together
                final String whole = f + " = " + r.pick("1", "x") + r.pick("a", "b", "null", "aa", "c");
                for (int i = 3; i <= whole.length(); i++) {
                    p.add(pair(whole.substring(0, i), whole.substring(i)));
                }
                break;
            case 2: // text and default field joined by a separator
            case 3:
                final String s = r.pick(SEPARATORS);
                p.add(pair("= b", "a" + s + "b"));
                p.add(pair("= b" + s + "a", "b"));
                p.add(pair("= b" + s + "a" + s + "b", null));
                p.add(pair("= b" + s + "a" + s + "b", ""));
                p.add(pair("a = b" + s + "a", "a"));
                p.add(pair("a = b", "a" + s + "a"));
                p.add(pair("a = b", s + "a"));
                p.add(pair("a = b" + s, "a"));
                p.add(pair("= 'b" + s + "a'", "a"));
                p.add(pair("= 'b'", s + "a"));
                p.add(pair("= 'b'", "a"));
                break;
            case 4: // equal hash codes
                p.add(pair("Aa " + op + " " + v, null));
                p.add(pair("BB " + op + " " + v, null));
                p.add(pair(op + " " + v, "Aa"));
                p.add(pair(op + " " + v, "BB"));
                p.add(pair("AaAa " + op + " " + v, null));
                p.add(pair("BBBB " + op + " " + v, null));
                p.add(pair("AaBB " + op + " " + v, null));
                p.add(pair("a = 'Aa'", "x"));
                p.add(pair("a = 'BB'", "x"));
                p.add(pair("= Aa", "BB"));
                p.add(pair("= BB", "Aa"));
                break;
            case 5: // long common beginnings and ends
                final String head = repeat("a = 1 OR ", r.in(1, 60));
                final String end = repeat(" OR b = 2", r.in(1, 60));
                p.add(pair(head + "a = 2", null));
                p.add(pair(head + "a = 3", null));
                p.add(pair(head + "b = 2", null));
                p.add(pair("a = 2" + end, null));
                p.add(pair("a = 3" + end, null));
                p.add(pair("b = 1" + end, null));
                p.add(pair(head + "a = 2" + end, null));
                p.add(pair(head + "a = 3" + end, null));
                break;
            case 6: // white space, letter case and quotes
                for (final String q : new String[] {"a = 'x y'", "a = 'x  y'", "a = ' x y'", "a = 'x y '", "a = 'xy'", "a = 'X y'", "a = \"x y\"", "a = 'x\ty'", "a = 'x\ny'",
                        "A = 'x y'", "a = \"'x y'\""}) {
                    p.add(pair(q, null));
                }
                break;
            case 7:
                for (final String q : new String[] {"a = 1", "a = 1 ", " a = 1", "a=1", "a  =  1", "a = 1.0", "a = 01", "a = '1'", "a = \"1\"", "A = 1", "a = 1.0.0", "a != 1",
                        "1 = a", "a = -1", "(a = 1)", "a = (1)"}) {
                    p.add(pair(q, null));
                }
                break;
            case 8: // order and grouping of operands
                for (final String q : new String[] {"a AND b", "b AND a", "a OR b", "NOT a AND b", "NOT (a AND b)", "a && b", "a and b", "a AND (b)", "b OR a", "a ANDb", "aAND b"}) {
                    p.add(pair(q, null));
                }
                break;
            case 9:
                for (final String q : new String[] {"a + b", "b + a", "a - b", "b - a", "(a + b)", "a+b", "ab", "a b", "a+ b", "-a + b", "-(a + b)", "a + b + c", "a + (b + c)"}) {
                    p.add(pair(q, null));
                }
                break;
            case 10: // expressions that do not parse, next to some that do
                for (final String q : new String[] {"a = ", "a = 1 1", "a = 1)", "(a = 1", "a = 'x", "a IN ()", "a IN (1)", "a IN (1", "= ", "", " ", "a", "a =", "= 1", "a = 1 AND",
                        "99999999999999999999"}) {
                    p.add(pair(q, r.pick(DEFAULTS)));
                }
                break;
            case 11: // items in other orders and numbers
                for (final String q : new String[] {"a IN (1, 2)", "a IN (2, 1)", "a IN (1)", "a IN (1, 2, 2)", "a NOT IN (1, 2)", "a IN (12)", "a IN ('1', '2')", "a IN ('1, 2')",
                        "a IN (1.0, 2)", "min(1, 2)", "max(1, 2)", "min(12)", "sum(1, 2)"}) {
                    p.add(pair(q, null));
                }
                break;
            default: // whatever other checks use, with and without default fields
                for (int i = 0; i < 6; i++) {
                    final Case c = Profiles.make(r.pick("tree", "default", "mixed", "logic", "malformed", "surface"), new Rng(r.next()));
                    p.add(pair(c.text, c.def));
                    p.add(pair(c.text, r.pick(DEFAULTS)));
                }
        }
        for (int i = p.size(); i > 1; i--) {
            Collections.swap(p, i - 1, r.below(i));
        }
        final int keep = r.in(2, 10);
        while (p.size() > keep) {
            p.remove(p.size() - 1);
        }
        return p;
    }

    /** a text and a default field, each next to its forms under one change that a cache may take for harmless */
    private void lookAlikes(final List<String[]> p) {
        final boolean any = r.chance(40);
        final Case c = any ? Profiles.make(r.pick("tree", "default", "mixed", "surface", "logic"), new Rng(r.next())) : null;
        String text = any ? c.text
                : r.pick("= 1", "= x", "!= 'x y'", "a = 1", "a = 'X y'", "NOT = 2", "a AND = 1", "b = 'x' OR a = 2", "(= 1) OR a", "a", "IN (1, 2)", "a IN ('x', 'X')", "name = \"x\"", "= name", "aa = Aa");
        if (r.chance(35)) { // texts long enough to be worth a key of their own
            text = r.chance(50) ? text + repeat(" OR b = 3", r.in(2, 12)) : repeat("b = 3 OR ", r.in(2, 12)) + text;
        }
        final String def = any && r.chance(70) ? c.def : r.pick(null, "", "a", "A", "aa", "Aa", "name", "b", " a", "x.y");
        final List<String> defs = new ArrayList<>();
        if (def != null) {
            Collections.addAll(defs, def, def.toLowerCase(java.util.Locale.ROOT), def.toUpperCase(java.util.Locale.ROOT), def + " ", " " + def, def.trim(), def + def, def.isEmpty() ? "a" : def.substring(1),
                               "'" + def + "'", def + ".", "_" + def, def + "\u0000", def.isEmpty() ? " " : Character.toUpperCase(def.charAt(0)) + def.substring(1));
        }
        Collections.addAll(defs, null, "", "null", "a", "A");
        switch (r.below(3)) {
            case 0: // one text, its default field in all forms
                for (final String d : defs) {
                    p.add(pair(text, d));
                }
                p.add(pair(text, def));
                break;
            case 1: // one default field, the text in all forms
                for (final String t : forms(text)) {
                    p.add(pair(t, def));
                }
                break;
            default:
                for (final String t : forms(text)) {
                    p.add(pair(t, r.pick(defs)));
                }
        }
        // the first two go first, whatever is left of the rest
        p.add(pair(text, def));
    }

    private List<String> forms(final String t) {
        final List<String> l = new ArrayList<>();
        Collections.addAll(l, t, t + " ", " " + t, t.trim(), t.toLowerCase(java.util.Locale.ROOT), t.toUpperCase(java.util.Locale.ROOT), t.replaceAll("\\s+", " "), t.replace(" ", ""), t.replace(" ", "  "),
                           t.replace('\'', '"'), t.replace('"', '\''), t.replaceAll("['\"]", ""), t.replaceAll("[()]", ""), "(" + t + ")", t + "\t", t + "\n", t.replace(' ', '\t'), t.replace(" ", "\u00a0"),
                           t + "\u0001", "\u0001" + t, t + "\u001f", "\u001c" + t, t + "\u000b", "\u000c" + t, t + "\u007f", t + ";", ";" + t, t + "\r", "\r\n" + t, "\u0008" + t + "\u0008",
                           java.text.Normalizer.normalize(t, java.text.Normalizer.Form.NFKD), new StringBuilder(t).reverse().toString(), t + t, t.length() > 1 ? t.substring(0, t.length() - 1) : t);
        return l;
    }

    private Object simple() {
        switch (r.below(8)) {
            case 0:
                return 1;
            case 1:
                return 2;
            case 2:
                return r.pick("x", "x y", "1", "b", "xy", "Aa", "BB", "AaAa", "BBBB", "AaBB", "C#", "Ea");
            case 3:
                return true;
            case 4:
                return false;
            case 5:
                return new java.math.BigDecimal(r.pick("2.5", "1.0"));
            case 6:
                return 12L;
            default:
                return r.in(-3, 3);
        }
    }

    Map<String, Object> smallData() {
        final Map<String, Object> m = new LinkedHashMap<>();
        for (final String k : new String[] {"a", "b", "c", "name", "aa", "Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "Bb", "Ea", "FB", "null", "A", "AA", " a", "a ", "NAME", "Name", "B"}) {
            if (r.chance(75)) {
                m.put(k, simple());
            }
        }
        return m;
    }

    /** histories of a caching parser: every answer has to be that of a plain one */
    static void cache(final long seed, final int histories, final PrintWriter out) {
        final Rng top = new Rng(seed);
        Env.vary(top, 50);
        for (int h = 0; h < histories; h++) {
            final Histories me = new Histories(new Rng(top.next()));
            final Rng r = me.r;
            final Lib lib = Lib.cached(r.pick(0, 1, 2, 3, 8, 1000));
            final List<String[]> pool = me.pool();
            final List<Map<String, Object>> datas = new ArrayList<>();
            for (int i = r.in(1, 3); i > 0; i--) {
                datas.add(me.smallData());
            }
            final int calls = r.in(pool.size(), 4 * pool.size());
            for (int i = 0; i < calls; i++) {
                final String[] p = r.pick(pool);
                final char api = r.pick('P', 'P', 'B', 'B', 'A');
                final Case c = new Case(api, p[0], api == 'P' ? new LinkedHashMap<>() : r.pick(datas), api == 'A' ? null : p[1]);
                Env.vary(r, 5);
                out.println(lib.event(c));
            }
        }
    }

    // ------------------------------------------------------------------ purity

    /** the same contents in another map */
    Map<String, Object> rehoused(final Map<String, Object> m) {
        final List<String> keys = new ArrayList<>(m.keySet());
        Collections.shuffle(keys, new java.util.Random(r.next()));
        boolean nulls = false;
        final Map<String, Object> other = r.chance(50) ? new LinkedHashMap<>() : r.chance(50) ? new HashMap<>() : new TreeMap<>();
        for (final String k : keys) {
            other.put(k, m.get(k));
            nulls |= m.get(k) == null;
        }
        if (!nulls && r.chance(25)) {
            return r.chance(50) ? new java.util.concurrent.ConcurrentHashMap<>(other) : Map.copyOf(other);
        }
        return r.chance(30) ? Collections.unmodifiableMap(other) : other;
    }

    @SuppressWarnings("unchecked")
    private void mutate(final Map<String, Object> m) {
        final List<String> keys = new ArrayList<>(m.keySet());
        if (keys.isEmpty()) {
            return;
        }
        final String k = r.pick(keys);
        final Object v = m.get(k);
        if (v instanceof ArrayList && !((List<Object>) v).isEmpty() && r.chance(70)) {
            final List<Object> l = (List<Object>) v;
            switch (r.below(3)) {
                case 0:
                    l.remove(r.below(l.size()));
                    break;
                case 1:
                    l.add(l.get(r.below(l.size())));
                    break;
                default:
                    Collections.reverse(l);
            }
        } else if (v instanceof LinkedHashMap && r.chance(70)) {
            ((Map<String, Object>) v).put(r.pick("a", "b", "c", "x"), r.in(0, 3));
        } else if (v instanceof Object[] && ((Object[]) v).length > 1) {
            final Object[] a = (Object[]) v;
            a[r.below(a.length)] = a[r.below(a.length)];
        } else if (r.chance(20)) {
            m.remove(k);
        } else if (r.chance(30)) {
            m.put(k, m.get(r.pick(keys)));
        } else {
            m.put(k, new Gen(r).any());
        }
    }

    /** tree handed out earlier: it has to be the same at the end of its history */
    private static final class Handed {
        final Case c;
        final com.github.sidhant92.boolparser.domain.logical.Node tree;
        final String via;

        Handed(final Case c, final com.github.sidhant92.boolparser.domain.logical.Node tree, final String via) {
            this.c = c;
            this.tree = tree;
            this.via = via;
        }
    }

    /** few expressions over the insides of maps of all classes, with gaps in them */
    private void deep(final List<Case> cases, final List<Map<String, Object>> datas) {
        final String[] paths = {"a.y.z", "a.y", "a.x", "a.y.w", "b.y.z", "a.y.z.v", "a", "a.zz"};
        final String[] texts = {"$ = 1", "$ != null", "$ = null", "$ in (1, 2)", "$ contains_any (1)", "$ > 0 or a.y.z = 1", "not ($ = 2)", "sum($, 1)", "$ + 1", "len($)", "$", "$ 0 to 5"};
        for (int i = r.in(1, 3); i > 0; i--) {
            cases.add(new Case(r.chance(65) ? 'B' : 'A', r.pick(texts).replace("$", r.pick(paths)), new LinkedHashMap<>(), null));
        }
        for (int i = r.in(2, 4); i > 0; i--) {
            final Map<String, Object> d = new LinkedHashMap<>();
            for (final String k : new String[] {"a", "b"}) {
                final Map<String, Object> in = new LinkedHashMap<>();
                final Map<String, Object> y = new LinkedHashMap<>();
                for (final String leaf : new String[] {"w", "z", "v"}) {
                    if (r.chance(70)) {
                        y.put(leaf, r.pick(1, 1, 2, null, "1", true, new ArrayList<>(java.util.Arrays.asList(1, 2)), new ArrayList<>(java.util.Arrays.asList(3, null))));
                    }
                }
                if (r.chance(60)) {
                    in.put("x", r.pick(null, 1, ""));
                }
                in.put("y", r.chance(85) ? y : null);
                d.put(k, in);
            }
            datas.add(r.chance(75) ? House.dress(r, d) : d);
        }
        for (final Case c : cases) {
            c.data = r.pick(datas);
        }
    }

    /** few expressions over collections of all sizes, with gaps, repetitions and no order */
    private void lists(final List<Case> cases, final List<Map<String, Object>> datas) {
        final String[] texts = {"len($)", "sum($)", "avg($)", "mean($)", "min($)", "max($, 2)", "median($)", "mode($)", "int($)", "len($, b)", "min(1, $, c)", "$ + 1", "-$", "len(($))", "$",
                "$ CONTAINS_ANY (1, 9)", "$ CONTAINS_ALL (1, 3)", "$ CONTAINS_ANY (b)", "$ CONTAINS_ALL (c, 1)", "$ CONTAINS_ANY ('a', b)", "1 IN ($)", "c IN ($, 5)", "c NOT IN ($)", "$ IN (b, 2)", "$ = b", "$ != null",
                "$ = null", "$ 0 TO 5", "$ > 1", "NOT ($ CONTAINS_ANY (3))", "$ CONTAINS_ANY (1) AND $ CONTAINS_ALL (1)", "len($) > 2 OR $ CONTAINS_ANY (3)", "sum($) = sum(b)", "min($) < max(c)", "min($) 0 TO 3"};
        final Object[][] pools = {{3, 1, 2, 1}, {3, null, 1, 1, null}, {5, 1, null, 9, 3}, {"b", "a", null, "A", ""}, {2.5, 1, 3L, "1"}, {null}, {1, 2, 3, 4, 5, 6, 7, 8, 9}, {"10", "9", "1"}, {true, null, 1}};
        for (int i = r.in(1, 3); i > 0; i--) {
            cases.add(new Case(r.chance(55) ? 'B' : 'A', r.pick(texts).replace("$", r.pick("a", "a", "m.x", "b")), new LinkedHashMap<>(), null));
        }
        for (int i = r.in(2, 4); i > 0; i--) {
            final Map<String, Object> d = new LinkedHashMap<>();
            final Map<String, Object> in = new LinkedHashMap<>();
            in.put("x", list(r.pick(pools)));
            d.put("a", list(r.pick(pools)));
            d.put("m", in);
            d.put("b", r.chance(70) ? list(r.pick(pools)) : r.pick(1, "1", null));
            d.put("c", r.chance(40) ? list(r.pick(pools)) : r.pick(1, 3, "a", null));
            datas.add(d);
        }
        for (final Case c : cases) {
            c.data = r.pick(datas);
        }
    }

    private Object list(final Object[] pool) {
        final List<Object> items = new ArrayList<>();
        for (int i = r.in(0, 7); i > 0; i--) {
            items.add(r.pick(pool));
        }
        switch (r.below(6)) {
            case 0:
                return new java.util.LinkedList<>(items);
            case 1:
                return new java.util.LinkedHashSet<>(items);
            case 2:
                return items.toArray();
            case 3:
                return r.chance(50) ? new java.util.Vector<>(items) : java.util.Arrays.asList(items.toArray());
            default:
                return new ArrayList<>(items);
        }
    }

    /** few expressions over fields whose values are written alike and are of different kinds */
    private void alike(final List<Case> cases, final List<Map<String, Object>> datas) {
        final Object[][] families = {{"10", 10, 10L, new java.math.BigDecimal("10"), 10.0, "10.0", new java.math.BigDecimal("10.0"), java.math.BigInteger.TEN, "1e1"},
                {"true", true, "True", Boolean.TRUE, "yes", 1, "1"},
                {"2024-01-05", java.time.LocalDate.of(2024, 1, 5), "2024-1-5", java.time.LocalDateTime.of(2024, 1, 5, 0, 0), "2024-01-05 00:00:00"},
                {"1.2.3", new org.apache.maven.artifact.versioning.ComparableVersion("1.2.3"), "1.2.3.0", new org.apache.maven.artifact.versioning.ComparableVersion("1.2.3.0"), "1.2"},
                {"9", 9, 9L, "10", 10, 10L, new java.math.BigDecimal("9.0"), 9.5}, {"", " ", "null", null, "a", new StringBuilder("a")},
                {"[1, 2]", new ArrayList<>(java.util.Arrays.asList(1, 2)), new ArrayList<>(java.util.Arrays.asList("1", "2")), new Object[] {1, 2}, new ArrayList<>(java.util.Arrays.asList("1, 2"))},
                {"{x=1}", new LinkedHashMap<>(Map.of("x", 1)), new LinkedHashMap<>(Map.of("x", "1")), "1", 1}};
        if (r.chance(30)) {
            deep(cases, datas);
            return;
        }
        if (r.chance(45)) {
            lists(cases, datas);
            return;
        }
        final Object[] f = r.pick(families);
        final String[] texts = {"a = b", "a != b", "a < b", "a >= b", "a + b", "min(a, b)", "a IN (b, 7)", "a NOT IN (b)", "a contains_any (b)", "c contains_all (a)", "int(a)", "len(a)", "len(a, b)", "a", "a = 10", "a > 9", "a = '10'",
                "a 5 TO 20", "a * 2", "-a", "mode(a, b, a)", "NOT a", "a AND b", "a OR b = 10", "(a + 1) > b", "days_elapsed(a)", "a = true", "a = 1.2.3", "a = '2024-01-05'", "a = null", "a.x = 1", "a.x", "sum(a)", "a IN (1, 2, b)"};
        for (int i = r.in(1, 3); i > 0; i--) {
            final String t = r.pick(texts);
            cases.add(new Case(r.chance(65) ? 'B' : 'A', t, new LinkedHashMap<>(), null));
        }
        for (int i = r.in(2, 5); i > 0; i--) {
            final Map<String, Object> d = new LinkedHashMap<>();
            for (final String k : new String[] {"a", "b", "c"}) {
                if (r.chance(90)) {
                    d.put(k, r.pick(f));
                }
            }
            datas.add(r.chance(20) ? House.dress(r, d) : d);
        }
        for (final Case c : cases) {
            c.data = r.pick(datas);
        }
    }

    /** repetitions of few texts over few data maps that change between the calls */
    static void purity(final long seed, final int histories, final PrintWriter out) {
        final Rng top = new Rng(seed);
        Env.vary(top, 50);
        final Lib[] libs = {Lib.plain(), Lib.cached(100), Lib.plain(), Lib.cached(1)};
        for (int h = 0; h < histories; h++) {
            final Histories me = new Histories(new Rng(top.next()));
            final Rng r = me.r;
            if (r.chance(20)) {
                libs[r.below(2)] = r.chance(50) ? Lib.plain() : Lib.cached(r.pick(0, 1, 5, 100));
            }
            final List<Case> cases = new ArrayList<>();
            final List<Map<String, Object>> datas = new ArrayList<>();
            final boolean alike = r.chance(35);
            if (alike) {
                me.alike(cases, datas);
            }
            for (int i = alike ? 0 : r.in(1, 4); i > 0; i--) {
                final Case c = Profiles.make(r.pick("mixed", "mixed", "logic", "in", "contains", "aggregate", "convert", "embed", "nullcheck", "default", "arith", "field", "concat",
                                                    "compare", "range", "divide"), new Rng(r.next()));
                cases.add(c);
                datas.add(c.data);
                if (r.chance(30)) {
                    datas.add(me.rehoused(c.data));
                }
                if (r.chance(30)) {
                    datas.add(House.dress(r, c.data));
                }
            }
            final List<Handed> handed = new ArrayList<>();
            for (int i = r.in(4, 14); i > 0; i--) {
                final Case c = r.pick(cases);
                if (c.api == 'P' || r.chance(15)) {
                    final Lib lib = r.pick(libs);
                    final Case pc = new Case('P', c.text, new LinkedHashMap<>(), c.def);
                    final io.vavr.control.Try<com.github.sidhant92.boolparser.domain.logical.Node> t =
                            c.def == null ? lib.parser.parseExpression(c.text) : lib.parser.parseExpression(c.text, c.def);
                    if (t.isSuccess() && t.get() != null) {
                        handed.add(new Handed(pc, t.get(), lib.name));
                    }
                    continue;
                }
                final Map<String, Object> d = r.chance(60) ? c.data : r.pick(datas);
                if (r.chance(35) && d.getClass() == LinkedHashMap.class) {
                    me.mutate(d);
                }
                final Case now = new Case(c.api, c.text, d, c.def);
                now.open = c.open;
                Env.vary(r, 8);
                // the library sees the caller's own map, not a copy
                out.println(r.pick(libs).event(now, r.chance(70)));
            }
            for (final Handed t : handed) {
                out.println(Lib.event(t.c, "[]", "{\"o\":\"tree\",\"t\":" + Tree.json(t.tree) + "}", new ArrayList<>(), 0, 0, false, t.via));
            }
        }
    }
}
