package vp;

import java.util.concurrent.locks.LockSupport;

/**
 * Runs tasks on threads of which only one moves at a time; at every scheduling point the plan may hand over to another one. A thread that blocks in
 * the library (a lock held by another) is passed over until it comes back.
 */
public final class Sched {
    /** decides at a point of the running worker which worker goes on; the same one to go on */
    interface Plan {
        int next(int running, long pointsOfRunning, long pointsOfAll, boolean[] done);
    }

    static final class Worker extends Thread {
        final int id;
        private volatile Runnable task;
        private volatile Sched sched;
        private volatile long points;
        private volatile boolean blocked;
        private int initializing;
        private final java.util.Set<Long> writes = java.util.Collections.synchronizedSet(new java.util.LinkedHashSet<>());

        Worker(final int id) {
            super("worker" + id);
            this.id = id;
            setDaemon(true);
        }

        @Override
        public void run() {
            while (true) {
                final Runnable t = task;
                if (t == null) {
                    LockSupport.park();
                    continue;
                }
                final Sched s = sched;
                s.await(this);
                try {
                    t.run();
                } finally {
                    task = null;
                    s.finished(this);
                }
            }
        }
    }

    private static final java.lang.management.ThreadMXBean THREADS = java.lang.management.ManagementFactory.getThreadMXBean();
    private static final Worker[] POOL = new Worker[8];

    private final int n;
    private final Plan plan;
    private final Thread main = Thread.currentThread();
    private final boolean[] done;
    private volatile int holder = -1;
    private volatile int left;
    private volatile long steps;
    private volatile boolean over;

    private Sched(final int n, final Plan plan) {
        this.n = n;
        this.plan = plan;
        this.done = new boolean[n];
        this.left = n;
    }

    /** called by the instrumented code */
    public static void point() {
        final Thread t = Thread.currentThread();
        if (t instanceof Worker) {
            final Worker w = (Worker) t;
            final Sched s = w.sched;
            if (s != null && w.task != null && w.initializing == 0) {
                s.at(w);
            }
        }
    }

    /** called by the instrumented code after writing something other threads might see */
    public static void wrote() {
        final Thread t = Thread.currentThread();
        if (t instanceof Worker) {
            final Worker w = (Worker) t;
            if (w.sched != null && w.task != null && w.initializing == 0 && w.writes.size() < 4000) {
                w.writes.add(w.points + 1);
            }
        }
    }

    /** the points after a write which the worker came by in the last run */
    static java.util.List<Long> writes(final int worker) {
        return new java.util.ArrayList<>(POOL[worker].writes);
    }

    /** called by the instrumented code on entering and leaving the initializer of a class */
    public static void initializing() {
        initializing(1);
    }

    public static void initialized() {
        initializing(-1);
    }

    private static void initializing(final int step) {
        final Thread t = Thread.currentThread();
        if (t instanceof Worker) {
            ((Worker) t).initializing += step;
        }
    }

    private void at(final Worker w) {
        if (over) {
            return;
        }
        if (holder != w.id) {
            await(w);
        }
        w.points++;
        steps++;
        final int next = plan.next(w.id, w.points, steps, done);
        if (next != w.id && next >= 0 && next < n && !done[next] && !POOL[next].blocked) {
            give(next);
            await(w);
        }
    }

    private void give(final int next) {
        holder = next;
        LockSupport.unpark(POOL[next]);
    }

    private void await(final Worker w) {
        w.blocked = false;
        while (holder != w.id && !over) {
            LockSupport.park(this);
        }
    }

    private synchronized void finished(final Worker w) {
        done[w.id] = true;
        left--;
        steps++;
        if (left == 0) {
            LockSupport.unpark(main);
            return;
        }
        if (holder == w.id) {
            pass(w.id);
        }
    }

    private void pass(final int from) {
        for (int i = 1; i <= n; i++) {
            final int k = (from + i) % n;
            if (!done[k] && !POOL[k].blocked) {
                give(k);
                return;
            }
        }
        holder = -1;
    }

    /** runs the tasks to the end under the plan; gives the points of each, or null if they were still blocked after the time limit */
    static long[] run(final Runnable[] tasks, final Plan plan, final int first) {
        final Sched s = new Sched(tasks.length, plan);
        for (int i = 0; i < tasks.length; i++) {
            if (POOL[i] == null) {
                POOL[i] = new Worker(i);
                POOL[i].start();
            }
            POOL[i].points = 0;
            POOL[i].initializing = 0;
            POOL[i].writes.clear();
            POOL[i].blocked = false;
            POOL[i].sched = s;
            POOL[i].task = tasks[i];
            LockSupport.unpark(POOL[i]);
        }
        s.give(first);
        long seen = -1;
        int still = 0;
        int idle = 0;
        long used = -1;
        long quietSince = System.nanoTime();
        while (s.left > 0) {
            LockSupport.parkNanos(s, 300_000);
            if (s.steps != seen) {
                seen = s.steps;
                still = 0;
                idle = 0;
                quietSince = System.nanoTime();
                continue;
            }
            still++;
            idle++;
            synchronized (s) {
                final int h = s.holder;
                if (h < 0) {
                    for (int k = 0; k < s.n; k++) {
                        if (!s.done[k] && LockSupport.getBlocker(POOL[k]) == s) {
                            POOL[k].blocked = false;
                            s.give(k);
                            break;
                        }
                    }
                } else if (!s.done[h]) {
                    final long cpu = THREADS.getThreadCpuTime(POOL[h].getId());
                    if (cpu != used) {
                        // it computes, or loads and initializes classes
                        used = cpu;
                        idle = 0;
                    }
                    if (still > 2 && waiting(POOL[h], s) || idle > 700) {
                        POOL[h].blocked = true;
                        s.pass(h);
                        still = 0;
                        idle = 0;
                    }
                }
            }
            if (System.nanoTime() - quietSince > 30_000_000_000L) {
                s.over = true;
                for (int i = 0; i < tasks.length; i++) {
                    POOL[i] = null;
                }
                return null;
            }
        }
        final long[] points = new long[tasks.length];
        for (int i = 0; i < tasks.length; i++) {
            points[i] = POOL[i].points;
        }
        return points;
    }

    private static boolean waiting(final Worker w, final Sched s) {
        final Thread.State st = w.getState();
        return (st == Thread.State.BLOCKED || st == Thread.State.WAITING || st == Thread.State.TIMED_WAITING) && LockSupport.getBlocker(w) != s;
    }
}
