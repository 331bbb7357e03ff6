import java.math.BigInteger;
import tlc2.value.impl.*;

// module override for Tri.tla: exact signs of small determinants over integer pairs
public final class Tri {
    static long x(Value p) { return ((IntValue) ((TupleValue) p.toTuple()).elems[0]).val; }
    static long y(Value p) { return ((IntValue) ((TupleValue) p.toTuple()).elems[1]).val; }
    static BigInteger m(long a, long b) { return BigInteger.valueOf(a).multiply(BigInteger.valueOf(b)); }
    static int cross(long ax, long ay, long bx, long by) { return m(ax, by).compareTo(m(ay, bx)); }
    public static Value Orient(Value a, Value b, Value c) {
        return IntValue.gen(cross(x(b) - x(a), y(b) - y(a), x(c) - x(a), y(c) - y(a)));
    }
    public static Value InCircle(Value a, Value b, Value c, Value d) {
        long ax = x(a) - x(d), ay = y(a) - y(d), bx = x(b) - x(d), by = y(b) - y(d), cx = x(c) - x(d), cy = y(c) - y(d);
        BigInteger aa = m(ax, ax).add(m(ay, ay)), bb = m(bx, bx).add(m(by, by)), cc = m(cx, cx).add(m(cy, cy));
        BigInteger s = aa.multiply(m(bx, cy).subtract(m(by, cx))).add(bb.multiply(m(cx, ay).subtract(m(cy, ax)))).add(cc.multiply(m(ax, by).subtract(m(ay, bx))));
        return IntValue.gen(s.signum());
    }
    static int sos(long ax, long ay, long bx, long by) {
        int s = cross(ax, ay, bx, by);
        if (s == 0) s = Long.compare(by, ay);
        if (s == 0) s = Long.compare(ax, bx);
        return s;
    }
    public static Value InFace(Value k, Value a, Value b, Value c, Value p) {
        long q = 1L << ((IntValue) k).val, px = x(p), py = y(p);
        long ax = x(a) * q - px, ay = y(a) * q - py, bx = x(b) * q - px, by = y(b) * q - py, cx = x(c) * q - px, cy = y(c) * q - py;
        return sos(ax, ay, bx, by) < 0 && sos(bx, by, cx, cy) < 0 && sos(cx, cy, ax, ay) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value Between(Value a, Value b, Value p) {
        if (cross(x(b) - x(a), y(b) - y(a), x(p) - x(a), y(p) - y(a)) != 0) return BoolValue.ValFalse;
        return m(x(a) - x(p), x(b) - x(p)).add(m(y(a) - y(p), y(b) - y(p))).signum() <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    // squared distance of p from the segment a b is at most r * r
    public static Value Near(Value a, Value b, Value p, Value r) {
        long dx = x(b) - x(a), dy = y(b) - y(a), ux = x(p) - x(a), uy = y(p) - y(a), vx = x(p) - x(b), vy = y(p) - y(b);
        BigInteger rr = m(((IntValue) r).val, ((IntValue) r).val), dd = m(dx, dx).add(m(dy, dy));
        BigInteger al = m(dx, ux).add(m(dy, uy));
        boolean k;
        if (al.signum() <= 0) k = m(ux, ux).add(m(uy, uy)).compareTo(rr) <= 0;
        else if (al.compareTo(dd) >= 0) k = m(vx, vx).add(m(vy, vy)).compareTo(rr) <= 0;
        else { BigInteger c = m(dx, uy).subtract(m(dy, ux)); k = c.multiply(c).compareTo(rr.multiply(dd)) <= 0; }
        return k ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
