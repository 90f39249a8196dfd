import java.math.BigInteger;
import tlc2.value.impl.*;

/**
 * TLC module override for spec/Rational.tla: the same operators on unbounded
 * integers. A rational whose numerator and denominator fit in 32 bits is the
 * TLA+ pair <<n, d>>, exactly the value the TLA+ definitions give; any other
 * one is the triple <<sign, limbs of |n|, limbs of d>> (limbs base 2^30).
 */
public class Rational {

    /** A TupleValue that remembers the number it stands for. */
    static final class Q extends TupleValue {
        final BigInteger n, d;
        Q(Value[] elems, BigInteger n, BigInteger d) { super(elems); this.n = n; this.d = d; }
    }

    private static final BigInteger MASK = BigInteger.valueOf((1L << 30) - 1);

    private static Value limbs(BigInteger x) {
        int k = (x.bitLength() + 29) / 30;
        Value[] v = new Value[k];
        for (int i = 0; i < k; i++) { v[i] = IntValue.gen(x.and(MASK).intValue()); x = x.shiftRight(30); }
        return new TupleValue(v);
    }

    private static BigInteger unlimbs(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        BigInteger r = BigInteger.ZERO;
        for (int i = e.length - 1; i >= 0; i--) r = r.shiftLeft(30).or(BigInteger.valueOf(((IntValue) e[i]).val));
        return r;
    }

    /** n/d already in lowest terms, d > 0. */
    static Q canon(BigInteger n, BigInteger d) {
        if (n.bitLength() < 32 && d.bitLength() < 32)
            return new Q(new Value[] { IntValue.gen(n.intValue()), IntValue.gen(d.intValue()) }, n, d);
        return new Q(new Value[] { IntValue.gen(n.signum()), limbs(n.abs()), limbs(d) }, n, d);
    }

    static Q make(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new ArithmeticException("Rational: division by zero");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (d.bitLength() != 1) {
            BigInteger g;
            if (d.bitCount() == 1) {           // dyadic: gcd is a power of two
                int s = n.signum() == 0 ? d.bitLength() - 1 : Math.min(n.getLowestSetBit(), d.bitLength() - 1);
                if (s > 0) { n = n.shiftRight(s); d = d.shiftRight(s); }
            } else {
                g = n.gcd(d);
                if (g.bitLength() != 1) { n = n.divide(g); d = d.divide(g); }
            }
        }
        return canon(n, d);
    }

    static Q of(Value v) {
        if (v instanceof Q) return (Q) v;
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("Rational: not a rational: " + v);
        if (t.elems.length == 2)
            return new Q(t.elems, BigInteger.valueOf(((IntValue) t.elems[0]).val), BigInteger.valueOf(((IntValue) t.elems[1]).val));
        BigInteger n = unlimbs(t.elems[1]), d = unlimbs(t.elems[2]);
        if (((IntValue) t.elems[0]).val < 0) n = n.negate();
        return new Q(t.elems, n, d);
    }

    static final Q ZERO = canon(BigInteger.ZERO, BigInteger.ONE);
    static final Q ONE = canon(BigInteger.ONE, BigInteger.ONE);

    static Q add(Q x, Q y) {
        if (x.n.signum() == 0) return y;
        if (y.n.signum() == 0) return x;
        if (x.d.equals(y.d)) return make(x.n.add(y.n), x.d);
        return make(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    static Q neg(Q x) { return canon(x.n.negate(), x.d); }
    static Q sub(Q x, Q y) { return y.n.signum() == 0 ? x : add(x, neg(y)); }
    static Q mul(Q x, Q y) {
        if (x.n.signum() == 0 || y.n.signum() == 0) return ZERO;
        return make(x.n.multiply(y.n), x.d.multiply(y.d));
    }
    static Q div(Q x, Q y) {
        if (x.n.signum() == 0 && y.n.signum() != 0) return ZERO;
        return make(x.n.multiply(y.d), x.d.multiply(y.n));
    }
    static Q abs(Q x) { return x.n.signum() < 0 ? neg(x) : x; }
    static int cmp(Q x, Q y) {
        int a = x.n.signum(), b = y.n.signum();
        if (a != b) return a < b ? -1 : 1;
        return x.n.multiply(y.d).compareTo(y.n.multiply(x.d));
    }

    static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

    // ---- the operators of Rational.tla ----
    public static Value Rat(Value n, Value d) {
        return make(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val));
    }
    public static Value RInt(Value i) { return canon(BigInteger.valueOf(((IntValue) i).val), BigInteger.ONE); }
    public static Value RNeg(Value a) { return neg(of(a)); }
    public static Value RAbs(Value a) { return abs(of(a)); }
    public static Value RAdd(Value a, Value b) { return add(of(a), of(b)); }
    public static Value RSub(Value a, Value b) { return sub(of(a), of(b)); }
    public static Value RMul(Value a, Value b) { return mul(of(a), of(b)); }
    public static Value RDiv(Value a, Value b) { return div(of(a), of(b)); }
    public static Value RLt(Value a, Value b) { return cmp(of(a), of(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RLe(Value a, Value b) { return cmp(of(a), of(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RMin(Value a, Value b) { Q x = of(a), y = of(b); return cmp(x, y) <= 0 ? x : y; }
    public static Value RMax(Value a, Value b) { Q x = of(a), y = of(b); return cmp(x, y) <= 0 ? y : x; }
    public static Value RFloor(Value a) {
        Q x = of(a);
        BigInteger[] qr = x.n.divideAndRemainder(x.d);
        BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return IntValue.gen(f.intValueExact());
    }
    public static Value RPow(Value a, Value k) { Q x = of(a); int e = ((IntValue) k).val; return canon(x.n.pow(e), x.d.pow(e)); }

    public static Value RSum(Value s) { Q r = ZERO; for (Value v : seq(s)) r = add(r, of(v)); return r; }
    public static Value RDot(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        Q r = ZERO;
        for (int i = 0; i < a.length; i++) r = add(r, mul(of(a[i]), of(b[i])));
        return r;
    }
    public static Value RMaxAbs(Value s) {
        Q r = ZERO;
        for (Value v : seq(s)) { Q x = abs(of(v)); if (cmp(x, r) > 0) r = x; }
        return r;
    }
    public static Value VZero(Value n) {
        Value[] r = new Value[((IntValue) n).val];
        java.util.Arrays.fill(r, ZERO);
        return new TupleValue(r);
    }
    public static Value VAdd(Value s, Value t) {
        Value[] a = seq(s), b = seq(t), r = new Value[a.length];
        for (int i = 0; i < r.length; i++) r[i] = add(of(a[i]), of(b[i]));
        return new TupleValue(r);
    }
    public static Value VSub(Value s, Value t) {
        Value[] a = seq(s), b = seq(t), r = new Value[a.length];
        for (int i = 0; i < r.length; i++) r[i] = sub(of(a[i]), of(b[i]));
        return new TupleValue(r);
    }
    public static Value VScale(Value c, Value s) {
        Q q = of(c);
        Value[] a = seq(s), r = new Value[a.length];
        for (int i = 0; i < r.length; i++) r[i] = mul(q, of(a[i]));
        return new TupleValue(r);
    }
    public static Value VAxpy(Value c, Value s, Value t) {
        Q q = of(c);
        Value[] a = seq(s), b = seq(t), r = new Value[a.length];
        for (int i = 0; i < r.length; i++) r[i] = add(mul(q, of(a[i])), of(b[i]));
        return new TupleValue(r);
    }
    public static Value VAbs(Value s) {
        Value[] a = seq(s), r = new Value[a.length];
        for (int i = 0; i < r.length; i++) r[i] = abs(of(a[i]));
        return new TupleValue(r);
    }
    public static Value VComb(Value w, Value vs, Value n) {
        Value[] ws = seq(w), v = seq(vs);
        Q[] r = new Q[((IntValue) n).val];
        java.util.Arrays.fill(r, ZERO);
        for (int i = 0; i < ws.length; i++) {
            Q q = of(ws[i]);
            if (q.n.signum() == 0) continue;
            Value[] x = seq(v[i]);
            for (int j = 0; j < r.length; j++) r[j] = add(r[j], mul(q, of(x[j])));
        }
        return new TupleValue(java.util.Arrays.copyOf(r, r.length, Value[].class));
    }
    public static Value VMax(Value s, Value t) {
        Value[] a = seq(s), b = seq(t), r = new Value[a.length];
        for (int i = 0; i < r.length; i++) { Q x = of(a[i]), y = of(b[i]); r[i] = cmp(x, y) <= 0 ? y : x; }
        return new TupleValue(r);
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value VLe(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        for (int i = 0; i < a.length; i++) if (cmp(of(a[i]), of(b[i])) > 0) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value RClose(Value a, Value b, Value tol) { return bool(cmp(abs(sub(of(a), of(b))), of(tol)) <= 0); }
    public static Value VClose(Value s, Value t, Value tol) {
        Value[] a = seq(s), b = seq(t), c = seq(tol);
        if (a.length != b.length) return BoolValue.ValFalse;
        for (int i = 0; i < a.length; i++) if (cmp(abs(sub(of(a[i]), of(b[i]))), of(c[i])) > 0) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    static boolean finite(Value v) {
        if (v instanceof Q) return ((Q) v).d.signum() != 0;
        Value[] e = seq(v);
        return e.length != 2 || !(e[1] instanceof IntValue) || ((IntValue) e[1]).val != 0;
    }
    public static Value Finite(Value a) { return bool(finite(a)); }
    public static Value VFinite(Value s) {
        for (Value v : seq(s)) if (!finite(v)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
}
