package vf;

import java.security.MessageDigest;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.AtomicLong;
import java.util.stream.IntStream;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * Fast evaluation of the operators of spec/Sphincs.tla that hash a whole chain
 * or a whole tree: Chain, WotsPk, XmssNode and ForsNode.  Trees are remembered.
 * MCSphincs.tla compares them with the TLA+ definitions.
 */
public class SphincsOverrides {
    private static final int WOTS = 0, WOTSPK = 1, TREE = 2, FORSTREE = 3, WOTSPRF = 5, FORSPRF = 6;

    /** Parameters and public seed: everything a tweakable hash needs. */
    static final class Env {
        final boolean sha2, spike; final int n, t, mh; final byte[] seed; final String id;
        Env(Value p, Value seed) {
            RecordValue r = (RecordValue) p.toRcd();
            sha2 = ((StringValue) sel(r, "fam")).val.toString().equals("sha2");
            spike = ((tlc2.value.impl.BoolValue) sel(r, "spike")).val;
            n = num(sel(r, "n")); t = num(sel(r, "t")); mh = num(sel(r, "h")) / num(sel(r, "d"));
            this.seed = Hex.dec(str(seed));
            id = sha2 + "/" + spike + "/" + n + "/" + t + "/" + mh + "/" + str(seed);
        }
    }
    static Value sel(RecordValue r, String f) { return r.select(new StringValue(UniqueString.uniqueStringOf(f))); }
    static int num(Value v) { return ((IntValue) v).val; }
    static String str(Value v) { return ((StringValue) v).val.toString(); }

    private static final ThreadLocal<MessageDigest[]> MD = ThreadLocal.withInitial(() -> {
        try {
            return new MessageDigest[] { MessageDigest.getInstance("SHA-256"), MessageDigest.getInstance("SHA-512") };
        } catch (java.security.NoSuchAlgorithmException e) { throw new RuntimeException(e); }
    });

    static byte[] adrs(Env e, int layer, byte[] tree, int type, int w1, int w2, int w3) {
        byte[] a = new byte[e.sha2 ? 22 : 32];
        int o;
        if (e.sha2) {
            a[0] = (byte) layer; System.arraycopy(tree, 0, a, 1, 8); a[9] = (byte) type; o = 10;
        } else {
            put(a, 0, layer); System.arraycopy(tree, 0, a, 8, 8); put(a, 16, type); o = 20;
        }
        put(a, o, w1); put(a, o + 4, w2); put(a, o + 8, w3);
        return a;
    }
    static void put(byte[] a, int o, int v) {
        a[o] = (byte) (v >>> 24); a[o + 1] = (byte) (v >>> 16); a[o + 2] = (byte) (v >>> 8); a[o + 3] = (byte) v;
    }
    /** Tweakable hash; many = more than one node of input (SHA-512 for the larger SHA-2 sets). */
    static byte[] hash(Env e, byte[] a, byte[] x, boolean many) {
        byte[] r = hash1(e, a, x, many);
        int b = r[0] & 255;
        if (e.spike && many && b < 80) Arrays.fill(r, (byte) (b < 32 ? 0 : b < 64 ? 255 : 15));
        return r;
    }
    static byte[] hash1(Env e, byte[] a, byte[] x, boolean many) {
        if (!e.sha2) {
            Keccak k = new Keccak();
            k.absorb(e.seed, 0, e.n); k.absorb(a, 0, a.length); k.absorb(x, 0, x.length);
            return k.squeeze(e.n);
        }
        boolean big = many && e.n > 16;
        MessageDigest d = MD.get()[big ? 1 : 0];
        d.update(e.seed); d.update(new byte[(big ? 128 : 64) - e.n]); d.update(a); d.update(x);
        return Arrays.copyOf(d.digest(), e.n);
    }
    static byte[] chain(Env e, int layer, byte[] tree, int leaf, int chain, byte[] x, int from, int to) {
        for (int i = from; i < to; i++) x = hash(e, adrs(e, layer, tree, WOTS, leaf, chain, i), x, false);
        return x;
    }
    static byte[] wotsPk(Env e, byte[] sk, int layer, byte[] tree, int leaf) {
        int len = 2 * e.n + 3;
        byte[] all = new byte[len * e.n];
        for (int c = 0; c < len; c++) {
            byte[] x = hash(e, adrs(e, layer, tree, WOTSPRF, leaf, c, 0), sk, false);
            System.arraycopy(chain(e, layer, tree, leaf, c, x, 0, 15), 0, all, c * e.n, e.n);
        }
        return hash(e, adrs(e, layer, tree, WOTSPK, leaf, 0, 0), all, true);
    }
    interface Leaf { byte[] at(int i); }
    interface Adr { byte[] at(int z, int i); }
    /** All nodes of a tree: level z at offset of (2^(h+1) - 2^(h+1-z)). */
    static byte[][] build(Env e, int h, Leaf leaf, Adr adr) {
        byte[][] lv = new byte[h + 1][];
        byte[] low = new byte[e.n << h];
        IntStream is = IntStream.range(0, 1 << h);
        if (h > 2) is = is.parallel();
        is.forEach(i -> System.arraycopy(leaf.at(i), 0, low, i * e.n, e.n));
        lv[0] = low;
        for (int z = 1; z <= h; z++) {
            byte[] cur = new byte[e.n << (h - z)];
            for (int i = 0; i < 1 << (h - z); i++)
                System.arraycopy(hash(e, adr.at(z, i), Arrays.copyOfRange(lv[z - 1], 2 * i * e.n, (2 * i + 2) * e.n), true),
                                 0, cur, i * e.n, e.n);
            lv[z] = cur;
        }
        return lv;
    }
    private static final ConcurrentHashMap<String, byte[][]> TREES = new ConcurrentHashMap<>();
    private static final AtomicLong SIZE = new AtomicLong();
    static byte[][] remember(String key, java.util.function.Supplier<byte[][]> s) {
        byte[][] t = TREES.get(key);
        if (t == null) {
            t = s.get();
            if (SIZE.addAndGet(2L * t[0].length + 200) > 400_000_000L) { TREES.clear(); SIZE.set(0); }
            TREES.put(key, t);
        }
        return t;
    }

    @TLAPlusOperator(identifier = "Chain", module = "Sphincs", warn = false)
    public static Value chainOp(Value p, Value seed, Value layer, Value tree, Value leaf, Value chain, Value x, Value from, Value to) {
        Env e = new Env(p, seed);
        return new StringValue(Hex.enc(chain(e, num(layer), Hex.dec(str(tree)), num(leaf), num(chain), Hex.dec(str(x)), num(from), num(to))));
    }
    @TLAPlusOperator(identifier = "WotsPk", module = "Sphincs", warn = false)
    public static Value wotsPkOp(Value p, Value seed, Value sk, Value layer, Value tree, Value leaf) {
        Env e = new Env(p, seed);
        return new StringValue(Hex.enc(wotsPk(e, Hex.dec(str(sk)), num(layer), Hex.dec(str(tree)), num(leaf))));
    }
    @TLAPlusOperator(identifier = "XmssNode", module = "Sphincs", warn = false)
    public static Value xmssNodeOp(Value p, Value seed, Value sk, Value layer, Value tree, Value z, Value i) {
        Env e = new Env(p, seed);
        byte[] s = Hex.dec(str(sk)), tr = Hex.dec(str(tree));
        int l = num(layer);
        byte[][] t = remember("X" + e.id + "/" + str(sk) + "/" + l + "/" + str(tree), () -> build(e, e.mh,
            j -> wotsPk(e, s, l, tr, j), (zz, j) -> adrs(e, l, tr, TREE, 0, zz, j)));
        return new StringValue(Hex.enc(t[num(z)], num(i) * e.n, e.n));
    }
    @TLAPlusOperator(identifier = "ForsNode", module = "Sphincs", warn = false)
    public static Value forsNodeOp(Value p, Value seed, Value sk, Value tree, Value kp, Value z, Value i) {
        Env e = new Env(p, seed);
        byte[] s = Hex.dec(str(sk)), tr = Hex.dec(str(tree));
        int k = num(kp), zz = num(z), which = num(i) >> (e.t - zz);
        byte[][] t = remember("F" + e.id + "/" + str(sk) + "/" + str(tree) + "/" + k + "/" + which, () -> build(e, e.t,
            j -> { int ix = (which << e.t) + j;
                   return hash(e, adrs(e, 0, tr, FORSTREE, k, 0, ix), hash(e, adrs(e, 0, tr, FORSPRF, k, 0, ix), s, false), false); },
            (y, j) -> adrs(e, 0, tr, FORSTREE, k, y, (which << (e.t - y)) + j)));
        return new StringValue(Hex.enc(t[zz], (num(i) - (which << (e.t - zz))) * e.n, e.n));
    }
}
