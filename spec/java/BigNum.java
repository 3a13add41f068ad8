import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC module override for spec/BigNum.tla: the same integers, the same tuple
 * representation <<sgn, d1, .., dn>> (base 256, little endian), computed with
 * BigInteger.  BigNumCheck.tla compares every operator with its TLA+ definition.
 */
public class BigNum {
    /** A Z tuple which remembers the BigInteger it was made from. */
    static final class ZTuple extends TupleValue {
        final BigInteger big;
        ZTuple(Value[] elems, BigInteger big) { super(elems); this.big = big; }
    }

    static final IntValue[] BYTE = new IntValue[256];
    static {
        for (int i = 0; i < 256; i++) BYTE[i] = IntValue.gen(i);
    }
    static final IntValue NEG = IntValue.gen(-1), ZER = IntValue.gen(0), POS = IntValue.gen(1);

    static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("BigNum: not a tuple: " + v);
        return ((TupleValue) t).elems;
    }

    static int i(Value v) { return ((IntValue) v).val; }

    public static BigInteger big(Value v) {
        if (v instanceof ZTuple) return ((ZTuple) v).big;
        Value[] e = elems(v);
        int s = i(e[0]);
        int n = e.length - 1;
        if (s == 0) {
            if (n != 0) throw new RuntimeException("BigNum: malformed " + v);
            return BigInteger.ZERO;
        }
        byte[] m = new byte[n];
        for (int k = 0; k < n; k++) m[n - 1 - k] = (byte) i(e[k + 1]);
        return new BigInteger(s, m);
    }

    public static TupleValue z(BigInteger b) {
        int s = b.signum();
        if (s == 0) return new ZTuple(new Value[] { ZER }, BigInteger.ZERO);
        byte[] m = b.abs().toByteArray();
        int off = m[0] == 0 ? 1 : 0;
        int n = m.length - off;
        Value[] e = new Value[n + 1];
        e[0] = s < 0 ? NEG : POS;
        for (int k = 0; k < n; k++) e[k + 1] = BYTE[m[m.length - 1 - k] & 255];
        return new ZTuple(e, b);
    }

    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value Z(Value n) { return z(BigInteger.valueOf(i(n))); }
    public static Value ToInt(Value x) { return IntValue.gen(big(x).intValueExact()); }
    public static Value ZNeg(Value x) { return z(big(x).negate()); }
    public static Value ZAbs(Value x) { return z(big(x).abs()); }
    public static Value ZCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    public static Value ZLt(Value a, Value b) { return b(big(a).compareTo(big(b)) < 0); }
    public static Value ZLe(Value a, Value b) { return b(big(a).compareTo(big(b)) <= 0); }
    public static Value ZAdd(Value a, Value b) { return z(big(a).add(big(b))); }
    public static Value ZSub(Value a, Value b) { return z(big(a).subtract(big(b))); }
    public static Value ZMul(Value a, Value b) { return z(big(a).multiply(big(b))); }
    public static Value ZQuo(Value a, Value b) { return z(big(a).divide(big(b))); }
    public static Value ZRem(Value a, Value b) { return z(big(a).remainder(big(b))); }

    static BigInteger floor(BigInteger a, BigInteger b) {
        BigInteger[] qr = a.divideAndRemainder(b);
        return qr[1].signum() != 0 && qr[1].signum() != b.signum() ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    public static Value ZFloor(Value a, Value b) { return z(floor(big(a), big(b))); }
    public static Value ZMod(Value a, Value b) {
        BigInteger x = big(a), y = big(b);
        return z(x.subtract(y.multiply(floor(x, y))));
    }
    public static Value ZPow(Value x, Value n) { return z(big(x).pow(i(n))); }
    public static Value ZPow2(Value n) { return z(BigInteger.ONE.shiftLeft(i(n))); }
    public static Value ZShift(Value x, Value n) {
        int k = i(n);
        BigInteger v = big(x);
        if (k >= 0) return z(v.shiftLeft(k));
        return z(v.signum() < 0 ? v.negate().shiftRight(-k).negate() : v.shiftRight(-k));
    }
    public static Value ZGcd(Value a, Value b) { return z(big(a).gcd(big(b))); }
    public static Value ZBits(Value x) { return IntValue.gen(big(x).abs().bitLength()); }
    public static Value ZSqrt(Value x) { return z(big(x).sqrt()); }
    public static Value ZFact(Value n) { return z(prod(1, i(n))); }
    static BigInteger prod(int lo, int hi) {
        if (lo > hi) return BigInteger.ONE;
        if (lo == hi) return BigInteger.valueOf(lo);
        int m = (lo + hi) >>> 1;
        return prod(lo, m).multiply(prod(m + 1, hi));
    }
    public static Value ZOfDigits(Value ds, Value radix) {
        Value[] e = elems(ds);
        int r = i(radix);
        if (e.length == 0) return z(BigInteger.ZERO);
        if (r > 36) {
            BigInteger v = BigInteger.ZERO, b = BigInteger.valueOf(r);
            for (Value d : e) v = v.multiply(b).add(BigInteger.valueOf(i(d)));
            return z(v);
        }
        StringBuilder sb = new StringBuilder(e.length);
        for (Value d : e) sb.append(Character.forDigit(i(d), r));
        return z(new BigInteger(sb.toString(), r));
    }
    public static Value ZDigits(Value x, Value radix) {
        int r = i(radix);
        String s = big(x).toString(r);
        Value[] e = new Value[s.length()];
        for (int k = 0; k < e.length; k++) e[k] = BYTE[Character.digit(s.charAt(k), r)];
        return new TupleValue(e);
    }
    public static Value ZOfBytes(Value bs) {
        Value[] e = elems(bs);
        int n = e.length;
        byte[] m = new byte[n];
        for (int k = 0; k < n; k++) m[n - 1 - k] = (byte) i(e[k]);
        return z(new BigInteger(1, m));
    }
    public static Value ZIsPrime(Value x) { return b(big(x).isProbablePrime(100)); }
    public static Value IsZ(Value x) {
        if (x instanceof ZTuple) return BoolValue.ValTrue;
        Value[] e = elems(x);
        if (e.length < 1) return BoolValue.ValFalse;
        int s = i(e[0]);
        if (s < -1 || s > 1 || (s == 0) != (e.length == 1)) return BoolValue.ValFalse;
        for (int k = 1; k < e.length; k++) if (i(e[k]) < 0 || i(e[k]) > 255) return BoolValue.ValFalse;
        return b(e.length == 1 || i(e[e.length - 1]) != 0);
    }
}
