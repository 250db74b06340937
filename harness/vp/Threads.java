package vp;

import java.io.PrintWriter;
import java.time.LocalDate;
import java.util.AbstractMap;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.TimeUnit;

/** Concurrent calls on shared parsers and evaluators, recorded as histories of begin, read and end events (C21). */
public final class Threads {
    /** one call of one thread */
    private static final class Call {
        final Case c;
        final int data;
        final int lib;

        Call(final Case c, final int data, final int lib) {
            this.c = c;
            this.data = data;
            this.lib = lib;
        }
    }

    /** a data map that notes who reads which of its keys; callers tell their data apart by it */
    private final class NotingMap extends AbstractMap<String, Object> {
        final Map<String, Object> delegate;
        final int owner;
        private String last;

        NotingMap(final Map<String, Object> delegate, final int owner) {
            this.delegate = delegate;
            this.owner = owner;
        }

        private void note(final Object key) {
            final Integer t = ME.get();
            final String e = "{\"k\":\"read\",\"t\":" + (t == null ? -1 : t) + ",\"m\":" + owner + ",\"key\":" + Json.codes(String.valueOf(key)) + "}";
            synchronized (log) {
                if (!e.equals(last)) {
                    log.add(e);
                    last = e;
                }
            }
            Sched.point();
        }

        @Override
        public Object get(final Object key) {
            note(key);
            return delegate.get(key);
        }

        @Override
        public Object getOrDefault(final Object key, final Object other) {
            note(key);
            return delegate.getOrDefault(key, other);
        }

        @Override
        public boolean containsKey(final Object key) {
            note(key);
            return delegate.containsKey(key);
        }

        @Override
        public Set<Entry<String, Object>> entrySet() {
            return new LinkedHashMap<>(delegate).entrySet();
        }
    }

    private static final ThreadLocal<Integer> ME = new ThreadLocal<>();

    private final Rng r;
    private final List<String> log = new ArrayList<>();
    private final List<Case> cases = new ArrayList<>();
    private final List<Map<String, Object>> datas = new ArrayList<>();
    private final List<String> entries = new ArrayList<>();

    private Threads(final Rng r) {
        this.r = r;
    }

    // ------------------------------------------------------------------ what is called

    private Object other(final Object v, final Gen g) {
        if (v instanceof Integer) {
            return r.chance(80) ? (Object) g.wholeInt() : g.any();
        }
        if (v instanceof String) {
            return g.value("str");
        }
        if (v instanceof Boolean) {
            return !(Boolean) v;
        }
        if (v instanceof List && !((List<?>) v).isEmpty()) {
            final List<Object> l = new ArrayList<>();
            for (final Object x : (List<?>) v) {
                l.add(r.chance(50) ? x : other(x, g));
            }
            return l;
        }
        if (v instanceof Map) {
            return varied(v, g);
        }
        if (v instanceof LocalDate) {
            return g.date();
        }
        return v == null || r.chance(20) ? g.any() : v instanceof Number ? g.number() : v;
    }

    private Map<String, Object> varied(final Object m, final Gen g) {
        final Map<String, Object> copy = new LinkedHashMap<>();
        for (final Map.Entry<?, ?> e : ((Map<?, ?>) m).entrySet()) {
            copy.put((String) e.getKey(), r.chance(75) ? other(e.getValue(), g) : e.getValue());
        }
        return copy;
    }

    private static final String[] PROFILES = {"mixed", "logic", "in", "contains", "aggregate", "convert", "embed", "nullcheck", "arith", "field", "concat", "compare", "cross", "range",
            "divide", "default", "literal", "malformed", "tree"};

    private void addData(final Map<String, Object> d) {
        datas.add(d);
        entries.add(Val.entries(d));
    }

    private void prepare() {
        final String profile = r.pick(PROFILES);
        for (int i = r.in(1, 3); i > 0; i--) {
            final Case c = Profiles.make(i == 1 || r.chance(50) ? profile : r.pick(PROFILES), new Rng(r.next()));
            cases.add(c);
            addData(c.data);
            if (c.def != null || r.chance(20)) {
                cases.add(new Case(c.api, c.text, c.data, r.pick("", "a", "b", null)));
            }
            for (int k = r.in(0, 2); k > 0; k--) {
                addData(varied(c.data, new Gen(r)));
            }
        }
        // every data map has every field, so that a map mixed up with another shows as a wrong answer
        for (int i = 0; i < datas.size(); i++) {
            final Map<String, Object> d = new LinkedHashMap<>();
            for (int k = 0; k < datas.size(); k++) {
                if (r.chance(70)) {
                    d.putAll(datas.get((i + k + 1) % datas.size()));
                }
            }
            d.putAll(datas.get(i));
            datas.set(i, d);
            entries.set(i, Val.entries(d));
        }
    }

    private List<List<Call>> deal(final int threads, final int most, final int libs) {
        final List<List<Call>> all = new ArrayList<>();
        for (int t = 0; t < threads; t++) {
            final List<Call> calls = new ArrayList<>();
            for (int i = r.in(1, most); i > 0; i--) {
                final Case c = r.pick(cases);
                calls.add(new Call(c, r.below(datas.size()), r.below(libs)));
            }
            all.add(calls);
        }
        return all;
    }

    // ------------------------------------------------------------------ running and recording

    private void perform(final int thread, final List<Call> calls, final Lib[] libs, final boolean[] construct) {
        ME.set(thread);
        Lib own = null;
        try {
            for (final Call call : calls) {
                final Map<String, Object> data = new NotingMap(datas.get(call.data), thread);
                final String begin = "{\"k\":\"begin\",\"t\":" + thread + ",\"api\":\"" + call.c.api + "\",\"x\":" + Json.codes(call.c.text) + ",\"def\":"
                        + Json.codes(call.c.def == null ? "" : call.c.def) + ",\"data\":" + entries.get(call.data) + ",\"td\":" + (LocalDate.now().toEpochDay() + Lib.DAY0) + ",\"open\":" + call.c.open
                        + "}";
                synchronized (log) {
                    log.add(begin);
                }
                Sched.point();
                final long td0 = LocalDate.now().toEpochDay() + Lib.DAY0;
                String out;
                try {
                    if (construct[thread] && (own == null || call.lib > 0)) {
                        own = call.lib % 2 == 0 ? Lib.plain() : Lib.cached(2);
                    }
                    out = (construct[thread] ? own : libs[call.lib]).call(call.c, data);
                } catch (final Throwable t) {
                    out = "{\"o\":\"throw\",\"why\":\"" + t.getClass().getSimpleName() + "\"}";
                }
                Sched.point();
                final long td1 = LocalDate.now().toEpochDay() + Lib.DAY0;
                synchronized (log) {
                    log.add("{\"k\":\"end\",\"t\":" + thread + ",\"td\":[" + td0 + (td0 == td1 ? "" : "," + td1) + "],\"out\":" + out + "}");
                }
                Sched.point();
            }
        } finally {
            ME.remove();
        }
    }

    private String history(final String how, final boolean stuck) {
        boolean mutated = false;
        for (int i = 0; i < datas.size(); i++) {
            mutated |= !entries.get(i).equals(Val.entries(datas.get(i)));
        }
        synchronized (log) {
            return "{\"how\":\"" + how + "\",\"mut\":" + mutated + ",\"stuck\":" + stuck + ",\"h\":[" + String.join(",", log) + "]}";
        }
    }

    private static Lib[] libs(final Rng r) {
        return new Lib[] {Lib.plain(), Lib.cached(r.pick(0, 1, 2, 100))};
    }

    /** counts of a run: schedules executed and scheduling points passed */
    private static long schedules;
    private static long points;

    private static void emit(final String line, final Set<String> seen, final PrintWriter out) {
        if (seen.add(line)) {
            out.println(line);
        }
    }

    private String scheduled(final List<List<Call>> calls, final Lib[] libs, final boolean[] construct, final Sched.Plan plan, final int first, final String how, final long[][] solo) {
        log.clear();
        final Runnable[] tasks = new Runnable[calls.size()];
        for (int t = 0; t < tasks.length; t++) {
            final int id = t;
            tasks[t] = () -> perform(id, calls.get(id), libs, construct);
        }
        final long[] p = Sched.run(tasks, plan, first);
        schedules++;
        if (p != null) {
            for (final long x : p) {
                points += x;
            }
            if (solo != null) {
                solo[0] = p;
            }
        }
        return history(how, p == null);
    }

    /** random schedules, and every single preemption of one thread by another */
    public static void interleave(final long seed, final int groups, final int most, final String path) throws Exception {
        final Rng top = new Rng(seed);
        final Set<String> seen = new HashSet<>();
        try (PrintWriter out = Main.appender(path)) {
            for (int g = 0; g < groups; g++) {
                final Threads me = new Threads(new Rng(top.next()));
                final Rng r = me.r;
                me.prepare();
                final int n = r.pick(2, 2, 2, 3, 4);
                final List<List<Call>> calls = me.deal(n, r.pick(1, 1, 2), 2);
                final boolean[] construct = new boolean[n];
                for (int i = 0; i < n; i++) {
                    construct[i] = r.chance(15);
                }
                Lib[] libs = libs(r);
                // alone, one after the other
                final long[][] solo = new long[1][];
                emit(me.scheduled(calls, libs, construct, (running, p, all, done) -> running, 0, "serial", solo), seen, out);
                if (solo[0] == null) {
                    return;
                }
                // one preemption of one thread
                final int victim = r.below(n);
                final List<Long> writes = Sched.writes(victim);
                final int other = (victim + 1 + r.below(n - 1)) % n;
                final long total = solo[0][victim];
                final long step = Math.max(1, total / most);
                for (long k = 1 + r.below((int) step); k <= total; k += step) {
                    final long at = k;
                    if (r.chance(20)) {
                        libs = libs(r);
                    }
                    final String line = me.scheduled(calls, libs, construct, (running, p, all, done) -> running == victim && p == at ? other : running, victim, "preempt", null);
                    emit(line, seen, out);
                    if (line.contains("\"stuck\":true")) {
                        return;
                    }
                }
                // one preemption right after a write
                java.util.Collections.shuffle(writes, new java.util.Random(r.next()));
                for (final long at : writes.subList(0, Math.min(writes.size(), most / 3))) {
                    final String line = me.scheduled(calls, libs, construct, (running, p, all, done) -> running == victim && p == at ? other : running, victim, "write", null);
                    emit(line, seen, out);
                    if (line.contains("\"stuck\":true")) {
                        return;
                    }
                }
                // random hand overs
                for (int i = 0; i < most / 3; i++) {
                    final Rng pr = new Rng(r.next());
                    final int often = pr.pick(2, 8, 40, 200);
                    if (r.chance(40)) {
                        libs = libs(r);
                    }
                    final String line = me.scheduled(calls, libs, construct, (running, p, all, done) -> pr.below(often) == 0 ? pr.below(n) : running, pr.below(n), "random", null);
                    emit(line, seen, out);
                    if (line.contains("\"stuck\":true")) {
                        return;
                    }
                }
            }
        }
    }

    /** a call of every operator, function and kind of value */
    private static final String[] TOUR = {"B a > 1 and b < 2.5 or not (c = 'x')", "B a >= 1", "B a <= 1.5", "B a != 2", "B a in (1, 2)", "B a not in (3)", "B l contains_any (1, 7)",
            "B l contains_all (1, 2)", "B a 1 to 5", "B v > 1.2.3", "B d >= 2020-01-01", "B e = null", "B f = true", "B f", "B d = '2024-02-03'", "B t < 2025-01-01 10:00:00", "A a + b", "A a - 5000000000", "A a * b",
            "A a / 3", "A 17 % a", "A a ^ 3", "A -b", "A c + v", "A min(l)", "A max(l, b)", "A avg(l)", "A sum(l, 1)", "A mean(l)", "A mode(l)", "A median(l)", "A int(b)", "A len(c)", "A days_elapsed(d)"};

    private void tour() {
        addData(new LinkedHashMap<>(Map.of("a", 2, "b", new java.math.BigDecimal("2.75"), "c", "x", "l", List.of(1, 2, 2), "v", new org.apache.maven.artifact.versioning.ComparableVersion("1.10.0"), "d",
                LocalDate.of(2024, 2, 3), "t", LocalDate.of(2024, 2, 3).atTime(4, 5, 6), "f", true)));
        for (final String s : TOUR) {
            cases.add(new Case(s.charAt(0), s.substring(2), datas.get(0), null));
        }
    }

    /** the very first uses of the library, from several threads */
    public static void firstUse(final long seed, final int which, final int of, final String path) throws Exception {
        final Threads me = new Threads(new Rng(seed));
        final Rng r = me.r;
        final int n;
        final List<List<Call>> calls;
        final Sched.Plan plan;
        if (which % 4 < 3) {
            // one thread is interrupted at some point of its construction, another one makes a call of every kind
            n = 2;
            me.tour();
            calls = me.deal(n, 1, 2);
            calls.set(1, new ArrayList<>());
            final int turn = r.below(TOUR.length);
            for (int i = 0; i < TOUR.length; i++) {
                calls.get(1).add(new Call(me.cases.get((turn + i) % TOUR.length), 0, 0));
            }
            final long at = 1 + (long) which * CONSTRUCTION / of + r.below(1 + CONSTRUCTION / of);
            plan = (running, p, all, done) -> running == 0 && p == at ? 1 : running;
        } else {
            me.prepare();
            n = r.pick(2, 3);
            calls = me.deal(n, 1, 2);
            final Rng pr = new Rng(r.next());
            plan = (running, p, all, done) -> pr.below(12) == 0 ? pr.below(n) : running;
        }
        final boolean[] construct = new boolean[n];
        java.util.Arrays.fill(construct, true);
        final String line = me.scheduled(calls, null, construct, plan, 0, "first", null);
        try (PrintWriter out = Main.appender(path)) {
            out.println(line);
        }
    }

    /** scheduling points of constructing a parser and evaluators for the first time, and a little more */
    private static final int CONSTRUCTION = 1050;

    /** threads running freely */
    static void free(final long seed, final int groups, final String path) throws Exception {
        final Rng top = new Rng(seed);
        try (PrintWriter out = Main.appender(path)) {
            for (int g = 0; g < groups; g++) {
                final Threads me = new Threads(new Rng(top.next()));
                final Rng r = me.r;
                me.prepare();
                final int n = r.in(2, 8);
                final List<List<Call>> calls = me.deal(n, 12, 2);
                final boolean[] construct = new boolean[n];
                construct[0] = r.chance(50);
                final Lib[] libs = libs(r);
                final CyclicBarrier start = new CyclicBarrier(n);
                final List<Thread> ts = new ArrayList<>();
                for (int t = 0; t < n; t++) {
                    final int id = t;
                    final Thread th = new Thread(() -> {
                        try {
                            start.await(20, TimeUnit.SECONDS);
                        } catch (final Exception ignored) {
                            // start anyway
                        }
                        me.perform(id, calls.get(id), libs, construct);
                    });
                    th.setDaemon(true);
                    th.start();
                    ts.add(th);
                }
                boolean stuck = false;
                for (final Thread th : ts) {
                    th.join(30_000);
                    stuck |= th.isAlive();
                }
                out.println(me.history("free", stuck));
                if (stuck) {
                    return;
                }
            }
        }
    }

    /**
     * Many threads repeat few calls as fast as they can; every answer any of them ever got is recorded once. Calls of one round share their texts, and
     * most of them the kind of their data, so that state they wrongly share is hit often.
     */
    static String storm(final long seed, final int rounds, final int millis, final String path) throws Exception {
        final Rng top = new Rng(seed);
        final java.util.concurrent.atomic.AtomicLong made = new java.util.concurrent.atomic.AtomicLong();
        long distinct = 0;
        try (PrintWriter out = Main.writer(path)) {
            for (int round = 0; round < rounds; round++) {
                final Threads me = new Threads(new Rng(top.next()));
                final Rng r = me.r;
                me.prepare();
                final Lib[] libs = {Lib.plain(), Lib.cached(r.pick(0, 1, 2, 3, 100))};
                final int n = r.pick(2, 4, 8, 8);
                final int pairs = me.cases.size() * me.datas.size();
                final List<List<Set<String>>> answers = new ArrayList<>();
                final long td0 = LocalDate.now().toEpochDay() + Lib.DAY0;
                final CyclicBarrier start = new CyclicBarrier(n);
                final List<Thread> ts = new ArrayList<>();
                // a tight round: every thread repeats one call of its own on parsed expressions, so that only evaluation is left to collide
                final boolean tight = round % 2 == 1;
                final Lib warm = Lib.cached(1000);
                for (int t = 0; t < n; t++) {
                    final List<Set<String>> mine = new ArrayList<>();
                    for (int i = 0; i < pairs; i++) {
                        mine.add(new HashSet<>());
                    }
                    answers.add(mine);
                    final Rng tr = new Rng(r.next());
                    final boolean own = r.chance(20);
                    final int myCase = r.chance(70) ? 0 : r.below(me.cases.size());
                    final int myData = t % me.datas.size();
                    final Thread th = new Thread(() -> {
                        try {
                            start.await(20, TimeUnit.SECONDS);
                        } catch (final Exception ignored) {
                            // start anyway
                        }
                        if (tight) {
                            made.addAndGet(repeat(warm, me.cases.get(myCase), me.datas.get(myData), millis, mine.get(myCase * me.datas.size() + myData)));
                            return;
                        }
                        final Lib mineOnly = own ? Lib.plain() : null;
                        final long end = System.nanoTime() + millis * 1_000_000L;
                        long calls = 0;
                        while (System.nanoTime() < end) {
                            final int c = tr.below(me.cases.size());
                            final int d = tr.below(me.datas.size());
                            final Lib lib = mineOnly != null ? mineOnly : libs[tr.below(libs.length)];
                            mine.get(c * me.datas.size() + d).add(lib.call(me.cases.get(c), me.datas.get(d)));
                            calls++;
                        }
                        made.addAndGet(calls);
                    });
                    th.setDaemon(true);
                    th.start();
                    ts.add(th);
                }
                boolean stuck = false;
                for (final Thread th : ts) {
                    th.join(30_000);
                    stuck |= th.isAlive();
                }
                final long td1 = LocalDate.now().toEpochDay() + Lib.DAY0;
                for (int c = 0; c < me.cases.size(); c++) {
                    for (int d = 0; d < me.datas.size(); d++) {
                        final Set<String> all = new java.util.TreeSet<>();
                        if (!stuck) {
                            for (final List<Set<String>> a : answers) {
                                all.addAll(a.get(c * me.datas.size() + d));
                            }
                        } else {
                            all.add("{\"o\":\"throw\",\"why\":\"a call never came back\"}");
                        }
                        final boolean mutated = !me.entries.get(d).equals(Val.entries(me.datas.get(d)));
                        for (final String o : all) {
                            out.println(Lib.event(me.cases.get(c), me.entries.get(d), o, new ArrayList<>(), td0 - Lib.DAY0, td1 - Lib.DAY0, mutated, "storm"));
                            distinct++;
                        }
                    }
                }
                if (stuck) {
                    break;
                }
            }
        }
        return "{\"storm_calls\":" + made.get() + ",\"storm_distinct_answers\":" + distinct + "}";
    }

    /** One call over and over; an answer is only looked at when it is not equal to the last. */
    private static long repeat(final Lib lib, final Case c, final Map<String, Object> data, final int millis, final Set<String> answers) {
        final long end = System.nanoTime() + millis * 1_000_000L;
        Object last = lib.bare(c, data);
        answers.add(Lib.shown(c, last));
        long calls = 1;
        while (System.nanoTime() < end) {
            for (int i = 0; i < 20; i++) {
                final Object now = lib.bare(c, data);
                if (now == null ? last != null : !now.equals(last)) {
                    last = now;
                    answers.add(Lib.shown(c, now));
                }
            }
            calls += 20;
        }
        return calls;
    }

    private int logged() {
        synchronized (log) {
            return log.size();
        }
    }

    /** The schedules TLC wrote out, carried out on the real code: events happen in the order of the schedule as long as the code has the same events. */
    static String replay(final String in, final String path) throws Exception {
        long done = 0;
        long exact = 0;
        final Set<String> seen = new HashSet<>();
        final Set<String> lines = new HashSet<>();
        try (PrintWriter out = Main.writer(path)) {
            for (final String line : java.nio.file.Files.readAllLines(java.nio.file.Paths.get(in))) {
                if (!lines.add(line)) {
                    continue;
                }
                final Map<?, ?> m = (Map<?, ?>) Json.read(line);
                final Threads me = new Threads(new Rng(done));
                final List<List<Call>> calls = new ArrayList<>();
                final Map<String, Integer> known = new LinkedHashMap<>();
                for (final Object list : (List<?>) m.get("calls")) {
                    final List<Call> mine = new ArrayList<>();
                    for (final Object o : (List<?>) list) {
                        final Map<?, ?> c = (Map<?, ?>) o;
                        final String def = Json.text(c.get("def"));
                        final Map<String, Object> d = Val.map(c.get("data"));
                        final Case k = new Case(((String) c.get("api")).charAt(0), Json.text(c.get("x")), d, def.isEmpty() ? null : def);
                        final String text = Val.entries(d);
                        if (!known.containsKey(text)) {
                            known.put(text, me.datas.size());
                            me.addData(d);
                        }
                        mine.add(new Call(k, known.get(text), 0));
                    }
                    calls.add(mine);
                }
                final List<?> order = (List<?>) m.get("sched");
                final int[] script = new int[order.size()];
                for (int i = 0; i < script.length; i++) {
                    script[i] = ((Number) order.get(i)).intValue();
                }
                final int cap = ((Number) m.get("cap")).intValue();
                final Lib[] libs = {cap < 0 ? Lib.plain() : Lib.cached(cap)};
                final boolean[] construct = new boolean[calls.size()];
                final String history;
                if (calls.size() == 1) {
                    me.perform(0, calls.get(0), libs, construct);
                    history = me.history("model", false);
                } else {
                    history = me.scheduled(calls, libs, construct, (running, p, all, over) -> {
                        final int k = me.logged();
                        return k < script.length ? script[k] : running;
                    }, script[0], "model", null);
                }
                done++;
                exact += me.logged() == script.length ? 1 : 0;
                emit(history, seen, out);
                if (history.contains("\"stuck\":true")) {
                    break;
                }
            }
        }
        return "{\"model_schedules\":" + done + ",\"with_the_events_of_the_model\":" + exact + "}";
    }

    public static String counts() {
        return schedules + "," + points;
    }
}
