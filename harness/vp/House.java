package vp;

import java.util.AbstractCollection;
import java.util.AbstractMap;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.Collections;
import java.util.HashMap;
import java.util.HashSet;
import java.util.Hashtable;
import java.util.Iterator;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.Vector;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ConcurrentSkipListMap;
import java.util.concurrent.CopyOnWriteArrayList;

/** The same data in maps, collections and arrays of other classes. */
final class House {
    private House() {
    }

    /** the data map of a case, at every depth in other classes now and then */
    static Map<String, Object> dress(final Rng r, final Map<String, Object> m) {
        return m == null || m.getClass() != LinkedHashMap.class ? m : map(r, m, 0);
    }

    private static Object value(final Rng r, final Object v, final int depth) {
        if (v == null) {
            return null;
        }
        if (v.getClass() == LinkedHashMap.class) {
            final Map<String, Object> m = new LinkedHashMap<>();
            for (final Map.Entry<?, ?> e : ((Map<?, ?>) v).entrySet()) {
                if (!(e.getKey() instanceof String)) {
                    return v;
                }
                m.put((String) e.getKey(), e.getValue());
            }
            return map(r, m, depth);
        }
        if (v.getClass() == ArrayList.class) {
            final List<Object> l = new ArrayList<>();
            for (final Object o : (List<?>) v) {
                l.add(value(r, o, depth + 1));
            }
            return list(r, l);
        }
        if (v.getClass() == Object[].class) {
            return array(r, (Object[]) v);
        }
        return v;
    }

    private static Map<String, Object> map(final Rng r, final Map<String, Object> m, final int depth) {
        final Map<String, Object> l = new LinkedHashMap<>();
        boolean nulls = false;
        for (final Map.Entry<String, Object> e : m.entrySet()) {
            final Object v = value(r, e.getValue(), depth + 1);
            nulls |= v == null;
            l.put(e.getKey(), v);
        }
        if (r.chance(depth > 0 ? 45 : 25)) { // a name that means nothing to the expression
            l.putIfAbsent(r.pick("zz", "_0", "ZZ9"), null);
            nulls = true;
        }
        switch (r.below(nulls ? 6 : 11)) {
            case 0:
                return l;
            case 1:
                return new HashMap<>(l);
            case 2:
                return new TreeMap<>(l);
            case 3:
                return Collections.unmodifiableMap(l);
            case 4:
                return new ReadOnly(l);
            case 5:
                return new TreeMap<String, Object>(l).descendingMap();
            case 6:
                return new ConcurrentHashMap<>(l);
            case 7:
                return new Hashtable<>(l);
            case 8:
                return Map.copyOf(l);
            case 9:
                return new ConcurrentSkipListMap<>(l);
            default:
                return l.size() == 1 ? Collections.singletonMap(l.keySet().iterator().next(), l.values().iterator().next()) : l.isEmpty() ? Collections.emptyMap() : new HashMap<>(l);
        }
    }

    private static Object list(final Rng r, final List<Object> l) {
        final boolean nulls = l.contains(null);
        final Set<Object> distinct = new LinkedHashSet<>(l);
        if (distinct.size() == l.size() && r.chance(30)) {
            return r.chance(50) ? distinct : nulls || r.chance(50) ? new HashSet<>(l) : Set.copyOf(l);
        }
        switch (r.below(nulls ? 8 : 11)) {
            case 0:
                return l;
            case 1:
                return new LinkedList<>(l);
            case 2:
                return Arrays.asList(l.toArray());
            case 3:
                return Collections.unmodifiableList(l);
            case 4:
                return new Bag(l);
            case 5:
                return new Vector<>(l);
            case 6:
                return new CopyOnWriteArrayList<>(l);
            case 7:
                return l.size() == 1 ? Collections.singletonList(l.get(0)) : l.isEmpty() ? Collections.emptySet() : Collections.unmodifiableCollection(l);
            case 8:
                return new ArrayDeque<>(l);
            case 9:
                return List.copyOf(l);
            default:
                final Map<Integer, Object> m = new TreeMap<>();
                for (final Object o : l) {
                    m.put(m.size(), o);
                }
                return m.values();
        }
    }

    /** an array of the elements' own class, where they have one */
    private static Object[] array(final Rng r, final Object[] a) {
        if (a.length == 0) {
            return r.chance(50) ? a : new String[0];
        }
        for (final Object o : a) {
            if (o == null || o.getClass() != a[0].getClass() || o.getClass().isArray()) {
                return a;
            }
        }
        if (r.chance(50)) {
            return a;
        }
        final Object[] typed = (Object[]) java.lang.reflect.Array.newInstance(a[0].getClass(), a.length);
        System.arraycopy(a, 0, typed, 0, a.length);
        return typed;
    }

    /** a collection that is neither a list nor a set */
    private static final class Bag extends AbstractCollection<Object> {
        private final List<Object> items;

        Bag(final Collection<Object> items) {
            this.items = new ArrayList<>(items);
        }

        @Override
        public Iterator<Object> iterator() {
            return Collections.unmodifiableList(items).iterator();
        }

        @Override
        public int size() {
            return items.size();
        }
    }

    /** a map of its own class, that cannot be written to */
    private static final class ReadOnly extends AbstractMap<String, Object> {
        private final Map<String, Object> entries;

        ReadOnly(final Map<String, Object> entries) {
            this.entries = entries;
        }

        @Override
        public Set<Entry<String, Object>> entrySet() {
            return Collections.unmodifiableMap(entries).entrySet();
        }
    }
}
