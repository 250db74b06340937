package vp;

import io.vavr.control.Try;
import java.time.LocalDate;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.exception.DataNotFoundException;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;

/** Calls the library and projects what it did onto the outcomes of the specification. */
final class Lib {
    final String name;
    final BoolExpressionParser parser;
    final BooleanExpressionEvaluator bool;
    final ArithmeticExpressionEvaluator arith;

    Lib(final String name, final BoolExpressionParser parser) {
        this.name = name;
        this.parser = parser;
        this.bool = new BooleanExpressionEvaluator(parser);
        this.arith = new ArithmeticExpressionEvaluator(parser);
    }

    static Lib plain() {
        return new Lib("plain", new BoolParser());
    }

    static Lib cached(final int size) {
        return new Lib("cached" + size, new CachedBoolParser(size));
    }

    /** The call's bare outcome: the value, or the class of what it failed with. */
    Object bare(final Case c, final Map<String, Object> data) {
        try {
            final Try<?> r = c.api == 'B' ? (c.def == null ? bool.evaluate(c.text, data) : bool.evaluate(c.text, data, c.def)) : c.api == 'A' ? arith.evaluate(c.text, data)
                    : c.def == null ? parser.parseExpression(c.text) : parser.parseExpression(c.text, c.def);
            return r == null ? "no Try" : r.isFailure() ? r.getCause().getClass() : r.get();
        } catch (final Throwable t) {
            return t.getClass().getName();
        }
    }

    /** The same as JSON, given what bare() gave. */
    static String shown(final Case c, final Object bare) {
        if (bare == null) {
            return "{\"o\":\"odd\",\"why\":\"null value\"}";
        }
        if (bare instanceof Class) {
            return bare == DataNotFoundException.class ? "{\"o\":\"notfound\"}" : "{\"o\":\"fail\",\"why\":\"" + ((Class<?>) bare).getSimpleName() + "\"}";
        }
        return project(Try.success(bare), c.api);
    }

    /** outcome as JSON: {"o":"T"|"F"|"val"|"tree"|"fail"|"notfound"|"throw"|"odd"} */
    String call(final Case c, final Map<String, Object> data) {
        try {
            switch (c.api) {
                case 'B':
                    return project(c.def == null ? bool.evaluate(c.text, data) : bool.evaluate(c.text, data, c.def), 'B');
                case 'A':
                    return project(arith.evaluate(c.text, data), 'A');
                default:
                    return project(c.def == null ? parser.parseExpression(c.text) : parser.parseExpression(c.text, c.def), 'P');
            }
        } catch (final Throwable t) {
            return "{\"o\":\"throw\",\"why\":\"" + t.getClass().getSimpleName() + "\"}";
        }
    }

    private static String project(final Try<?> r, final char api) {
        if (r == null) {
            return "{\"o\":\"odd\",\"why\":\"null Try\"}";
        }
        if (r.isFailure()) {
            return r.getCause() instanceof DataNotFoundException ? "{\"o\":\"notfound\"}" : "{\"o\":\"fail\",\"why\":\"" + r.getCause().getClass().getSimpleName() + "\"}";
        }
        final Object v = r.get();
        if (v == null) {
            return "{\"o\":\"odd\",\"why\":\"null value\"}";
        }
        if (api == 'P') {
            return "{\"o\":\"tree\",\"t\":" + Tree.json((Node) v) + "}";
        }
        if (api == 'B') {
            return v instanceof Boolean ? ((Boolean) v ? "{\"o\":\"T\"}" : "{\"o\":\"F\"}") : "{\"o\":\"odd\",\"why\":\"not a boolean\"}";
        }
        return "{\"o\":\"val\",\"v\":" + Val.json(v) + "}";
    }

    String event(final Case c) {
        return event(c, true);
    }

    /** Runs the case on its data, behind a map that notes the reads or directly, and returns the event for the trace. */
    String event(final Case c, final boolean recording) {
        final RecordingMap data = c.data == null ? null : new RecordingMap(c.data);
        final String before = Val.json(c.data);
        final String entries = c.data == null ? "[]" : Val.entries(c.data);
        final long td0 = LocalDate.now().toEpochDay();
        Watch.begin(c, entries, name);
        final String out = call(c, recording ? data : c.data);
        Watch.end();
        final long td1 = LocalDate.now().toEpochDay();
        final boolean mutated = data != null && (data.written || !before.equals(Val.json(c.data)));
        return event(c, entries, out, data == null ? new ArrayList<>() : data.reads, td0, td1, mutated, name);
    }

    /** Runs a large case that carries its answer; the event has the case as it was given, in short. */
    String large(final Case c, final String given) {
        final String before = Val.json(c.data);
        Watch.begin(new Case(c.api, c.text.length() > 200 ? c.text.substring(0, 200) : c.text, c.data, null), "[]", name);
        final String out = call(c, c.data);
        Watch.end();
        return "{\"via\":\"" + name + "\",\"open\":false,\"mut\":" + !before.equals(Val.json(c.data)) + ",\"rd\":[],\"td\":[0],\"out\":" + out + "," + given.trim().substring(1);
    }

    /** days from 0000-03-01, the day number of the specification, to 1970-01-01 */
    static final long DAY0 = 719468;

    static String event(final Case c, final String entries, final String out, final List<String> reads, final long td0, final long td1, final boolean mutated, final String via) {
        final StringBuilder b = new StringBuilder();
        b.append("{\"api\":\"").append(c.api).append("\",\"via\":\"").append(via).append("\",\"open\":").append(c.open).append(",\"x\":").append(Json.codes(c.text))
         .append(",\"def\":").append(Json.codes(c.def == null ? "" : c.def)).append(",\"data\":").append(entries).append(",\"td\":[")
         .append(td0 + DAY0).append(td0 == td1 ? "" : "," + (td1 + DAY0)).append("],\"mut\":").append(mutated).append(",\"rd\":[");
        final List<String> seen = new ArrayList<>();
        for (final String r : reads) {
            if (!seen.contains(r)) {
                b.append(seen.isEmpty() ? "" : ",").append(Json.codes(r));
                seen.add(r);
            }
        }
        return b.append("],\"out\":").append(out).append('}').toString();
    }
}
