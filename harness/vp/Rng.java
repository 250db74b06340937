package vp;

import java.util.List;

/** Seeded generator (SplitMix64); the same seed gives the same run. */
final class Rng {
    private long s;

    Rng(final long seed) {
        s = seed * 0x9E3779B97F4A7C15L + 0x1234567L;
    }

    long next() {
        s += 0x9E3779B97F4A7C15L;
        long z = s;
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        return z ^ (z >>> 31);
    }

    int below(final int n) {
        return (int) Long.remainderUnsigned(next(), n);
    }

    int in(final int lo, final int hi) {
        return lo + below(hi - lo + 1);
    }

    boolean chance(final int percent) {
        return below(100) < percent;
    }

    @SafeVarargs
    final <T> T pick(final T... xs) {
        return xs[below(xs.length)];
    }

    <T> T pick(final List<T> xs) {
        return xs.get(below(xs.size()));
    }
}
