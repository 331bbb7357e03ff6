import java.math.BigInteger;
import tlc2.value.impl.*;

// module override for Big.tla: the same functions over java.math.BigInteger
public final class Big {
    static BigInteger v(Value a) { return new BigInteger(((StringValue) a).getVal().toString()); }
    static Value s(BigInteger a) { return new StringValue(a.toString()); }
    static int n(Value a) { return ((IntValue) a).val; }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value B(Value a) { return new StringValue(Integer.toString(n(a))); }
    public static Value BAdd(Value a, Value c) { return s(v(a).add(v(c))); }
    public static Value BSub(Value a, Value c) { return s(v(a).subtract(v(c))); }
    public static Value BMul(Value a, Value c) { return s(v(a).multiply(v(c))); }
    static BigInteger fdiv(BigInteger a, BigInteger c) {
        BigInteger[] q = a.divideAndRemainder(c);
        return q[1].signum() != 0 && (q[1].signum() != c.signum()) ? q[0].subtract(BigInteger.ONE) : q[0];
    }
    public static Value BDiv(Value a, Value c) { return s(fdiv(v(a), v(c))); }
    public static Value BMod(Value a, Value c) { BigInteger x = v(a), y = v(c); return s(x.subtract(fdiv(x, y).multiply(y))); }
    public static Value BQuo(Value a, Value c) { return s(v(a).divide(v(c))); }
    public static Value BNeg(Value a) { return s(v(a).negate()); }
    public static Value BLt(Value a, Value c) { return b(v(a).compareTo(v(c)) < 0); }
    public static Value BLe(Value a, Value c) { return b(v(a).compareTo(v(c)) <= 0); }
    public static Value BSgn(Value a) { return IntValue.gen(v(a).signum()); }
    public static Value BPow2(Value k) { return s(BigInteger.ONE.shiftLeft(n(k))); }
    public static Value BInt(Value a) { return IntValue.gen(v(a).intValueExact()); }
    public static Value BXor(Value a, Value c) { return s(v(a).xor(v(c))); }
    public static Value BAnd(Value a, Value c) { return s(v(a).and(v(c))); }
    public static Value BOr(Value a, Value c) { return s(v(a).or(v(c))); }
    public static Value BShl(Value a, Value k) { return s(v(a).shiftLeft(n(k))); }
    public static Value BShr(Value a, Value k) { return s(v(a).shiftRight(n(k))); }
    static BigInteger trunc(BigInteger a, int k) { return a.and(BigInteger.ONE.shiftLeft(k).subtract(BigInteger.ONE)); }
    public static Value BTrunc(Value a, Value k) { return s(trunc(v(a), n(k))); }
    public static Value BSigned(Value a, Value k) {
        BigInteger m = trunc(v(a), n(k));
        return s(m.testBit(n(k) - 1) ? m.subtract(BigInteger.ONE.shiftLeft(n(k))) : m);
    }
    public static Value BLE(Value q) {
        TupleValue t = (TupleValue) q.toTuple();
        byte[] m = new byte[t.size() + 1];
        for (int i = 0; i < t.size(); i++) m[t.size() - i] = (byte) n(t.elems[i]);
        return s(new BigInteger(m));
    }
    public static Value BBytes(Value a, Value k) {
        BigInteger x = v(a);
        Value[] r = new Value[n(k)];
        for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(x.shiftRight(8 * i).intValue() & 255);
        return new TupleValue(r);
    }
}
