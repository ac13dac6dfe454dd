// The operators of BigNat.tla on java.math.BigInteger: TLC uses these methods
// instead of the definitions in the module, which stay the reference (the
// setup compares both, see spec/BigNatTest.tla).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class BigNat {
    private static final BigInteger B = BigInteger.valueOf(4096);
    private static final BigInteger TEN = BigInteger.TEN;

    private static BigInteger big(final Value v) {
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        final int n = e.length;
        // two limbs are three bytes
        final byte[] m = new byte[(n * 12 + 7) / 8 + 1];
        final int last = m.length - 1;
        for (int i = 0; i < n; i++) {
            final int d = ((IntValue) e[i]).val;
            final int bit = i * 12;
            final int k = last - bit / 8;
            if (bit % 8 == 0) {
                m[k] |= (byte) d;
                m[k - 1] |= (byte) (d >> 8);
            } else {
                m[k] |= (byte) ((d & 15) << 4);
                m[k - 1] |= (byte) (d >> 4);
            }
        }
        return new BigInteger(1, m);
    }

    private static Value val(final BigInteger b) {
        final int n = (b.bitLength() + 11) / 12;
        final Value[] e = new Value[n];
        final byte[] m = b.toByteArray();
        final int last = m.length - 1;
        for (int i = 0; i < n; i++) {
            final int bit = i * 12;
            final int k = last - bit / 8;
            final int lo = m[k] & 255;
            final int hi = k > 0 ? m[k - 1] & 255 : 0;
            e[i] = IntValue.gen(bit % 8 == 0 ? lo | (hi & 15) << 8 : lo >> 4 | hi << 4);
        }
        return new TupleValue(e);
    }

    private static int in(final Value v) {
        return ((IntValue) v).val;
    }

    private static Value nat(final long n) {
        return IntValue.gen((int) n);
    }

    private static Value bool(final boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value BFromNat(final Value n) {
        return val(BigInteger.valueOf(in(n)));
    }

    public static Value BToNat(final Value a) {
        return IntValue.gen(big(a).intValueExact());
    }

    public static Value BAdd(final Value a, final Value b) {
        return val(big(a).add(big(b)));
    }

    public static Value BSub(final Value a, final Value b) {
        return val(big(a).subtract(big(b)));
    }

    public static Value BCmp(final Value a, final Value b) {
        return IntValue.gen(big(a).compareTo(big(b)));
    }

    public static Value BMulAddSmall(final Value a, final Value n, final Value c) {
        return val(big(a).multiply(BigInteger.valueOf(in(n))).add(BigInteger.valueOf(in(c))));
    }

    public static Value BMulSmall(final Value a, final Value n) {
        return val(big(a).multiply(BigInteger.valueOf(in(n))));
    }

    public static Value BMul(final Value a, final Value b) {
        return val(big(a).multiply(big(b)));
    }

    public static Value BDivSmall(final Value a, final Value n) {
        final BigInteger[] q = big(a).divideAndRemainder(BigInteger.valueOf(in(n)));
        return new TupleValue(new Value[] { val(q[0]), IntValue.gen(q[1].intValue()) });
    }

    public static Value BLen(final Value a) {
        return IntValue.gen(big(a).bitLength());
    }

    public static Value BShl(final Value a, final Value n) {
        return val(big(a).shiftLeft(in(n)));
    }

    public static Value BShr(final Value a, final Value n) {
        return val(big(a).shiftRight(in(n)));
    }

    public static Value BBit(final Value a, final Value n) {
        return IntValue.gen(big(a).testBit(in(n)) ? 1 : 0);
    }

    public static Value BLowZero(final Value a, final Value n) {
        final BigInteger b = big(a);
        return bool(b.signum() == 0 || b.getLowestSetBit() >= in(n));
    }

    public static Value BDiv(final Value a, final Value b) {
        final BigInteger[] q = big(a).divideAndRemainder(big(b));
        return new TupleValue(new Value[] { val(q[0]), bool(q[1].signum() != 0) });
    }

    public static Value BMul10(final Value a, final Value k) {
        return val(big(a).multiply(TEN.pow(in(k))));
    }

    public static Value BDiv10(final Value a, final Value k, final Value st) {
        final BigInteger[] q = big(a).divideAndRemainder(TEN.pow(in(k)));
        return new TupleValue(new Value[] { val(q[0]), bool(((BoolValue) st).val || q[1].signum() != 0) });
    }

    public static Value BDigits(final Value a) {
        final BigInteger b = big(a);
        if (b.signum() == 0)
            return new TupleValue(new Value[0]);
        final String s = b.toString();
        final Value[] e = new Value[s.length()];
        for (int i = 0; i < e.length; i++)
            e[i] = IntValue.gen(s.charAt(i) - '0');
        return new TupleValue(e);
    }

    public static Value BFromDigits(final Value d) {
        final Value[] e = ((TupleValue) d.toTuple()).elems;
        if (e.length == 0)
            return new TupleValue(new Value[0]);
        final StringBuilder s = new StringBuilder();
        for (final Value x : e)
            s.append((char) ('0' + in(x)));
        return val(new BigInteger(s.toString()));
    }
}
