package vp;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Minimal JSON reader and writer (objects, arrays, strings, whole numbers, booleans). */
final class Json {
    private final String t;
    private int i;

    private Json(final String text) {
        t = text;
    }

    static Object read(final String text) {
        final Json j = new Json(text);
        return j.value();
    }

    private void ws() {
        while (i < t.length() && Character.isWhitespace(t.charAt(i))) {
            i++;
        }
    }

    private Object value() {
        ws();
        final char c = t.charAt(i);
        if (c == '{') {
            final Map<String, Object> m = new LinkedHashMap<>();
            i++;
            ws();
            while (t.charAt(i) != '}') {
                ws();
                final String k = string();
                ws();
                i++;
                m.put(k, value());
                ws();
                if (t.charAt(i) == ',') {
                    i++;
                }
                ws();
            }
            i++;
            return m;
        }
        if (c == '[') {
            final List<Object> l = new ArrayList<>();
            i++;
            ws();
            while (t.charAt(i) != ']') {
                l.add(value());
                ws();
                if (t.charAt(i) == ',') {
                    i++;
                }
                ws();
            }
            i++;
            return l;
        }
        if (c == '"') {
            return string();
        }
        if (t.startsWith("true", i)) {
            i += 4;
            return true;
        }
        if (t.startsWith("false", i)) {
            i += 5;
            return false;
        }
        final int s = i;
        while (i < t.length() && (Character.isDigit(t.charAt(i)) || t.charAt(i) == '-')) {
            i++;
        }
        return Long.parseLong(t.substring(s, i));
    }

    private String string() {
        final StringBuilder b = new StringBuilder();
        i++;
        while (t.charAt(i) != '"') {
            char c = t.charAt(i++);
            if (c == '\\') {
                c = t.charAt(i++);
                if (c == 'u') {
                    c = (char) Integer.parseInt(t.substring(i, i + 4), 16);
                    i += 4;
                } else if (c == 'n') {
                    c = '\n';
                } else if (c == 't') {
                    c = '\t';
                }
            }
            b.append(c);
        }
        i++;
        return b.toString();
    }

    /** Code units of a text, the form texts have in the specification. */
    static String codes(final String s) {
        final StringBuilder b = new StringBuilder("[");
        for (int k = 0; k < s.length(); k++) {
            if (k > 0) {
                b.append(',');
            }
            b.append((int) s.charAt(k));
        }
        return b.append(']').toString();
    }

    static String text(final Object codes) {
        final StringBuilder b = new StringBuilder();
        for (final Object c : (List<?>) codes) {
            b.append((char) (long) (Long) c);
        }
        return b.toString();
    }
}
