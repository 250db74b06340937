package vp;

import java.io.BufferedWriter;
import java.io.PrintWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;

public final class Main {
    public static void main(final String[] args) throws Exception {
        switch (args[0]) {
            case "gen":
                gen(args[1].split(","), Long.parseLong(args[2]), Integer.parseInt(args[3]), args[4]);
                break;
            case "cache":
                try (PrintWriter w = writer(args[3])) {
                    Watch.start(w);
                    Histories.cache(Long.parseLong(args[1]), Integer.parseInt(args[2]), w);
                }
                break;
            case "purity":
                try (PrintWriter w = writer(args[3])) {
                    Watch.start(w);
                    Histories.purity(Long.parseLong(args[1]), Integer.parseInt(args[2]), w);
                }
                break;
            case "threads":
                Env.vary(new Rng(Long.parseLong(args[1])), 50);
                threads(Long.parseLong(args[1]), Integer.parseInt(args[2]), args[3]);
                break;
            case "replay":
                replay(args[1], Long.parseLong(args[2]), args[3]);
                break;
            case "sessions":
                Env.vary(new Rng(Files.size(Paths.get(args[1]))), 50);
                System.out.println(Threads.replay(args[1], args[2]));
                break;
            case "storm":
                Env.vary(new Rng(Long.parseLong(args[1])), 50);
                System.out.println(Threads.storm(Long.parseLong(args[1]), Integer.parseInt(args[2]), 40, args[3]));
                break;
            default:
                throw new IllegalArgumentException(args[0]);
        }
    }

    static PrintWriter appender(final String path) throws Exception {
        return new PrintWriter(Files.newBufferedWriter(Paths.get(path), StandardCharsets.US_ASCII, java.nio.file.StandardOpenOption.CREATE, java.nio.file.StandardOpenOption.APPEND));
    }

    /** concurrent histories: scheduled ones, first uses in fresh class loaders, and free running ones */
    static void threads(final long seed, final int size, final String out) throws Exception {
        final Class<?> inside = new Interleaving().loadClass("vp.Threads");
        final java.lang.reflect.Method run = inside.getMethod("interleave", long.class, int.class, int.class, String.class);
        run.setAccessible(true);
        run.invoke(null, seed, size, 150, out);
        final String[] counts = ((String) inside.getMethod("counts").invoke(null)).split(",");
        final int firsts = 90 + size * 2;
        for (int i = 0; i < firsts; i++) {
            new Interleaving().loadClass("vp.Threads").getMethod("firstUse", long.class, int.class, int.class, String.class).invoke(null, seed * 7919 + i, i, firsts, out);
        }
        Threads.free(seed + 1, size * 5, out);
        System.out.println("{\"schedules_executed\":" + counts[0] + ",\"scheduling_points_passed\":" + counts[1] + ",\"first_use_runs\":" + firsts + ",\"free_running_histories\":"
                + size * 5 + "}");
    }

    /** the calls TLC wrote out, made on the real code */
    static void replay(final String dir, final long seed, final String out) throws Exception {
        final Rng r = new Rng(seed);
        Env.vary(r, 50);
        final Lib[] libs = {Lib.plain(), Lib.cached(1000), Lib.cached(0), Lib.cached(2)};
        final java.io.File[] files = new java.io.File(dir).listFiles((d, n) -> n.endsWith(".ndjson"));
        java.util.Arrays.sort(files);
        try (BufferedWriter w = Files.newBufferedWriter(Paths.get(out), StandardCharsets.US_ASCII)) {
            Watch.start(w);
            for (final java.io.File f : files) {
                for (final String line : Files.readAllLines(f.toPath(), StandardCharsets.US_ASCII)) {
                    final java.util.Map<?, ?> m = (java.util.Map<?, ?>) Json.read(line);
                    if (m.containsKey("want")) {
                        final Case c = new Case(((String) m.get("api")).charAt(0), Val.pieces(m.get("parts")), Val.map(m.get("data")), null);
                        if (r.chance(25)) {
                            c.data = House.dress(r, c.data);
                        }
                        w.write(libs[r.chance(60) ? 0 : r.below(libs.length)].large(c, line));
                        w.newLine();
                        continue;
                    }
                    final String def = Json.text(m.get("def"));
                    final Case c = new Case(((String) m.get("api")).charAt(0), Json.text(m.get("x")), Val.map(m.get("data")), def.isEmpty() && r.chance(80) ? null : def);
                    if (c.api == 'A' && !def.isEmpty()) {
                        throw new IllegalArgumentException("an arithmetic evaluation has no default field: " + line);
                    }
                    Env.vary(r, 6);
                    if (r.chance(25)) {
                        c.data = House.dress(r, c.data);
                    }
                    w.write(libs[r.chance(60) ? 0 : r.below(libs.length)].event(c, !r.chance(15)));
                    w.newLine();
                }
            }
        }
    }

    static PrintWriter writer(final String path) throws Exception {
        return new PrintWriter(Files.newBufferedWriter(Paths.get(path), StandardCharsets.US_ASCII));
    }

    /** random cases of the profiles, run through shared instances, as a trace of events */
    static void gen(final String[] profiles, final long seed, final int count, final String out) throws Exception {
        final Rng r = new Rng(seed);
        Env.vary(r, 50);
        final Lib[] libs = {Lib.plain(), Lib.cached(1000), Lib.cached(0), Lib.cached(2)};
        try (BufferedWriter w = Files.newBufferedWriter(Paths.get(out), StandardCharsets.US_ASCII)) {
            Watch.start(w);
            for (int i = 0; i < count; i++) {
                final Rng cr = new Rng(r.next());
                final Case c = Profiles.make(profiles[i % profiles.length], cr);
                Env.vary(r, 8);
                if (r.chance(15)) {
                    c.data = House.dress(r, c.data);
                }
                w.write(libs[r.chance(60) ? 0 : r.below(libs.length)].event(c));
                w.newLine();
            }
        }
    }
}
