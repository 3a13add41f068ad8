import java.io.BufferedReader;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.List;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC module override for spec/TraceIO.tla: reads a file of JSON lines into a
 * sequence.  Arrays become tuples, numbers integers, true/false booleans and
 * strings strings, except that a string "#..." of hexadecimal digits becomes
 * the tuple of the bytes it spells.
 */
public class TraceIO {
    private final String s;
    private int p = 0;
    private TraceIO(String s) { this.s = s; }

    public static Value LoadTrace(Value file) {
        String name = ((StringValue) file).val.toString();
        List<Value> out = new ArrayList<>();
        try (BufferedReader r = Files.newBufferedReader(Paths.get(name), StandardCharsets.UTF_8)) {
            for (String line; (line = r.readLine()) != null;) {
                if (!line.isEmpty()) out.add(new TraceIO(line).value());
            }
        } catch (java.io.IOException e) {
            throw new RuntimeException("LoadTrace: " + e);
        }
        return new TupleValue(out.toArray(new Value[0]));
    }

    /** The lines of the file, split into events on demand. */
    private static String loaded = null;
    private static String[][] store;
    private static synchronized String[][] store(Value file) {
        String name = ((StringValue) file).val.toString();
        if (!name.equals(loaded)) {
            List<String[]> out = new ArrayList<>();
            try (BufferedReader r = Files.newBufferedReader(Paths.get(name), StandardCharsets.UTF_8)) {
                for (String line; (line = r.readLine()) != null;) {
                    if (!line.isEmpty()) out.add(split(line));
                }
            } catch (java.io.IOException e) {
                throw new RuntimeException("LoadTrace: " + e);
            }
            store = out.toArray(new String[0][]);
            loaded = name;
        }
        return store;
    }

    /** The elements of a one-line JSON array of arrays (no brackets occur in strings). */
    private static String[] split(String line) {
        List<String> l = new ArrayList<>();
        int depth = 0, start = -1;
        for (int k = 0; k < line.length(); k++) {
            char c = line.charAt(k);
            if (c == '[') { if (++depth == 2) start = k; }
            else if (c == ']') { if (depth-- == 2) l.add(line.substring(start, k + 1)); }
        }
        return l.toArray(new String[0]);
    }

    public static Value NumSessions(Value file) { return IntValue.gen(store(file).length); }
    public static Value SessionLen(Value file, Value s) { return IntValue.gen(store(file)[BigNum.i(s) - 1].length); }
    public static Value EventAt(Value file, Value s, Value p) {
        return new TraceIO(store(file)[BigNum.i(s) - 1][BigNum.i(p) - 1]).value();
    }

    private void ws() { while (p < s.length() && s.charAt(p) <= ' ') p++; }

    private Value value() {
        ws();
        char c = s.charAt(p);
        if (c == '[') {
            p++;
            List<Value> l = new ArrayList<>();
            ws();
            if (s.charAt(p) == ']') { p++; return TupleValue.EmptyTuple; }
            while (true) {
                l.add(value());
                ws();
                char d = s.charAt(p++);
                if (d == ']') break;
                if (d != ',') throw new RuntimeException("LoadTrace: bad array at " + p);
            }
            return new TupleValue(l.toArray(new Value[0]));
        }
        if (c == '"') {
            int q = s.indexOf('"', p + 1);
            int a = p + 1;
            p = q + 1;
            if (a < q && s.charAt(a) == '#') {
                int n = (q - a - 1) / 2;
                Value[] e = new Value[n];
                for (int k = 0; k < n; k++) {
                    int at = a + 1 + 2 * k;
                    e[k] = BigNum.BYTE[Character.digit(s.charAt(at), 16) * 16 + Character.digit(s.charAt(at + 1), 16)];
                }
                return new TupleValue(e);
            }
            return new StringValue(s.substring(a, q));
        }
        if (s.startsWith("true", p)) { p += 4; return BoolValue.ValTrue; }
        if (s.startsWith("false", p)) { p += 5; return BoolValue.ValFalse; }
        int q = p;
        if (s.charAt(q) == '-') q++;
        while (q < s.length() && Character.isDigit(s.charAt(q))) q++;
        if (q == p) throw new RuntimeException("LoadTrace: bad value at " + p + " in " + s);
        Value v = IntValue.gen(Integer.parseInt(s.substring(p, q)));
        p = q;
        return v;
    }
}
