package vp;

import java.util.LinkedHashMap;
import java.util.Map;

/** One call of the library: api B (boolean), A (arithmetic) or P (parse tree). */
final class Case {
    char api = 'B';
    String text;
    String def;
    Map<String, Object> data = new LinkedHashMap<>();
    /** the case is only run for containment: its outcome is not compared */
    boolean open;

    Case(final char api, final String text, final Map<String, Object> data, final String def) {
        this.api = api;
        this.text = text;
        this.data = data;
        this.def = def;
    }
}
