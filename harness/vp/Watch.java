package vp;

import java.io.Writer;
import java.util.ArrayList;

/** Calls that never come back: the trace gets the call as one that gave no answer, and ends there. */
final class Watch {
    private static final long LIMIT_MS = Long.getLong("vp.limit", 120000);
    private static volatile Case current;
    private static volatile String entries;
    private static volatile String via;
    private static volatile long since;

    private Watch() {
    }

    static void begin(final Case c, final String data, final String name) {
        entries = data;
        via = name;
        since = System.nanoTime();
        current = c;
    }

    static void end() {
        current = null;
    }

    static void start(final Writer out) {
        final Thread t = new Thread(() -> {
            while (true) {
                try {
                    Thread.sleep(1000);
                    final Case c = current;
                    if (c != null && System.nanoTime() - since > LIMIT_MS * 1000000 && c == current) {
                        out.write(Lib.event(c, entries, "{\"o\":\"throw\",\"why\":\"no answer\"}", new ArrayList<>(), 0, 0, false, via) + "\n");
                        out.flush();
                        Runtime.getRuntime().halt(0);
                    }
                } catch (final Exception e) {
                    e.printStackTrace();
                    Runtime.getRuntime().halt(4);
                }
            }
        });
        t.setDaemon(true);
        t.start();
    }
}
