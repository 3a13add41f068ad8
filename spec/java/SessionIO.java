import java.io.BufferedWriter;
import java.io.IOException;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** TLC module override for spec/SessionIO.tla: sessions as JSON lines. */
public class SessionIO {
    private static BufferedWriter out = null;

    public static Value Emit(Value file, Value session) {
        StringBuilder sb = new StringBuilder("[");
        Value[] evs = BigNum.elems(session);
        for (int k = 0; k < evs.length; k++) {
            if (k > 0) sb.append(',');
            Value[] e = BigNum.elems(evs[k]);
            sb.append('[').append(str(e[0])).append(',').append(str(e[1])).append(',').append(BigNum.i(e[2])).append(",[");
            Value[] r = BigNum.elems(e[3]);
            for (int j = 0; j < r.length; j++) { if (j > 0) sb.append(','); sb.append(BigNum.i(r[j])); }
            sb.append("],[");
            Value[] c = BigNum.elems(e[4]);
            for (int j = 0; j < c.length; j++) { if (j > 0) sb.append(','); lit(sb, c[j]); }
            sb.append("],").append(BigNum.i(e[5])).append(",[\"?\"]]");
        }
        sb.append("]\n");
        synchronized (SessionIO.class) {
            try {
                if (out == null) {
                    out = Files.newBufferedWriter(Paths.get(((StringValue) file).val.toString()), StandardCharsets.UTF_8);
                    Runtime.getRuntime().addShutdownHook(new Thread(() -> {
                        synchronized (SessionIO.class) { try { out.close(); } catch (IOException x) { throw new RuntimeException(x); } }
                    }));
                }
                out.write(sb.toString());
            } catch (IOException x) {
                throw new RuntimeException("Emit: " + x);
            }
        }
        return BoolValue.ValTrue;
    }

    private static String str(Value v) { return '"' + ((StringValue) v).val.toString() + '"'; }
    private static int neg(BigInteger b) { return b.signum() < 0 ? 1 : 0; }

    /** |b| as little-endian bytes, at least min of them and a multiple of unit. */
    private static void hex(StringBuilder sb, BigInteger b, int min, int unit) {
        byte[] m = b.abs().toByteArray();
        int off = 0;
        while (off < m.length && m[off] == 0) off++;
        int n = m.length - off;
        int t = Math.max(n, min);
        t = (t + unit - 1) / unit * unit;
        sb.append("\"#");
        for (int k = 0; k < t; k++) sb.append(String.format("%02x", k < n ? m[m.length - 1 - k] & 255 : 0));
        sb.append('"');
    }
    private static void list(StringBuilder sb, Value v) {
        Value[] e = BigNum.elems(v);
        sb.append('[');
        for (int k = 0; k < e.length; k++) { if (k > 0) sb.append(','); lit(sb, e[k]); }
        sb.append(']');
    }
    private static void lit(StringBuilder sb, Value v) {
        Value[] e = BigNum.elems(v);
        String t = ((StringValue) e[0]).val.toString();
        sb.append("[\"").append(t).append('"');
        switch (t) {
            case "u": sb.append(','); hex(sb, BigNum.big(e[1]), 4, 4); break;
            case "i": { BigInteger b = BigNum.big(e[1]); sb.append(',').append(neg(b)).append(','); hex(sb, b, 4, 4); break; }
            case "r": {
                BigInteger p = BigNum.big(e[1]);
                sb.append(',').append(neg(p)).append(','); hex(sb, p, 4, 4);
                sb.append(",0,"); hex(sb, BigNum.big(e[2]), 4, 4);
                break;
            }
            case "n": { BigInteger b = BigNum.big(e[1]); sb.append(',').append(neg(b)).append(','); hex(sb, b, 0, 1); break; }
            case "f": {
                BigInteger m = BigNum.big(e[1]), x = BigNum.big(e[2]), half = BigInteger.ONE.shiftLeft(127), d, f;
                if (m.signum() == 0) { d = BigInteger.ZERO; f = BigInteger.ZERO; }
                else { d = m.signum() < 0 ? m.negate() : m.subtract(half); f = x.add(BigInteger.ONE.shiftLeft(48)); }
                sb.append(','); hex(sb, d, 16, 16); sb.append(','); hex(sb, f, 8, 8);
                break;
            }
            case "c": sb.append(','); lit(sb, e[1]); sb.append(','); lit(sb, e[2]); break;
            case "s": {
                sb.append(",\"#");
                for (Value x : BigNum.elems(e[1])) sb.append(String.format("%02x", BigNum.i(x)));
                sb.append('"');
                break;
            }
            case "b": sb.append(',').append(((BoolValue) e[1]).val); break;
            case "o": sb.append(',').append(BigNum.i(e[1])); break;
            case "p": case "l": sb.append(','); list(sb, e[1]); break;
            case "m": {
                sb.append(',').append(BigNum.i(e[1])).append(',').append(BigNum.i(e[2])).append(",true,[");
                Value[] rows = BigNum.elems(e[3]);
                for (int k = 0; k < rows.length; k++) { if (k > 0) sb.append(','); list(sb, rows[k]); }
                sb.append(']');
                break;
            }
            default: throw new RuntimeException("Emit: unknown value " + v);
        }
        sb.append(']');
    }
}
