package vp;

import java.util.AbstractMap;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;

/** A data map that notes which keys are asked for and whether anything is written to it. */
final class RecordingMap extends AbstractMap<String, Object> {
    final Map<String, Object> delegate;
    final List<String> reads = new ArrayList<>();
    boolean written;

    RecordingMap(final Map<String, Object> delegate) {
        this.delegate = delegate;
    }

    @Override
    public Object get(final Object key) {
        reads.add(String.valueOf(key));
        return delegate.get(key);
    }

    @Override
    public Object getOrDefault(final Object key, final Object other) {
        reads.add(String.valueOf(key));
        return delegate.getOrDefault(key, other);
    }

    @Override
    public boolean containsKey(final Object key) {
        reads.add(String.valueOf(key));
        return delegate.containsKey(key);
    }

    @Override
    public Object put(final String key, final Object value) {
        written = true;
        return delegate.put(key, value);
    }

    @Override
    public Object remove(final Object key) {
        written = true;
        return delegate.remove(key);
    }

    @Override
    public void clear() {
        written = true;
        delegate.clear();
    }

    @Override
    public Set<Entry<String, Object>> entrySet() {
        return new LinkedHashMap<>(delegate).entrySet();
    }
}
