package vf;

import java.security.MessageDigest;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/**
 * Fast evaluation of the three hash operators of spec/Hash.tla.  MCHash.tla
 * compares them with the TLA+ definitions.
 */
public class HashOverrides {
    interface Sink { void put(byte[] b, int off, int len); }

    /** Feeds the bytes a hex string (with "(ab*1000)" groups) denotes to a sink. */
    static void feed(String x, Sink s) {
        int i = 0;
        while (i < x.length()) {
            if (x.charAt(i) == '(') {
                int m = x.indexOf('*', i), e = x.indexOf(')', i);
                byte[] unit = Hex.dec(x, i + 1, m);
                long count = Long.parseLong(x.substring(m + 1, e));
                int per = Math.max(1, 65536 / unit.length);
                byte[] big = new byte[per * unit.length];
                for (int k = 0; k < big.length; k++) big[k] = unit[k % unit.length];
                while (count > 0) {
                    long now = Math.min(count, per);
                    s.put(big, 0, (int) now * unit.length);
                    count -= now;
                }
                i = e + 1;
            } else {
                int e = x.indexOf('(', i);
                if (e < 0) e = x.length();
                byte[] b = Hex.dec(x, i, e);
                s.put(b, 0, b.length);
                i = e;
            }
        }
    }

    static String md(String alg, String x) {
        try {
            MessageDigest d = MessageDigest.getInstance(alg);
            feed(x, d::update);
            return Hex.enc(d.digest());
        } catch (java.security.NoSuchAlgorithmException e) {
            throw new RuntimeException(e);
        }
    }

    static String shake256(String x, int n) {
        Keccak k = new Keccak();
        feed(x, k::absorb);
        return Hex.enc(k.squeeze(n));
    }

    static String str(Value v) { return ((StringValue) v).val.toString(); }

    @TLAPlusOperator(identifier = "Sha256", module = "Hash", warn = false)
    public static Value sha256(final StringValue x) { return new StringValue(md("SHA-256", str(x))); }

    @TLAPlusOperator(identifier = "Sha512", module = "Hash", warn = false)
    public static Value sha512(final StringValue x) { return new StringValue(md("SHA-512", str(x))); }

    @TLAPlusOperator(identifier = "Shake256", module = "Hash", warn = false)
    public static Value shake(final StringValue x, final IntValue n) {
        return new StringValue(shake256(str(x), n.val));
    }
}
