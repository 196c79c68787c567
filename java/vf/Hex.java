package vf;

final class Hex {
    private static final char[] D = "0123456789abcdef".toCharArray();
    static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
    static byte[] dec(String s) { return dec(s, 0, s.length()); }
    static byte[] dec(String s, int from, int to) {
        byte[] r = new byte[(to - from) / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte) (nib(s.charAt(from + 2 * i)) << 4 | nib(s.charAt(from + 2 * i + 1)));
        return r;
    }
    static String enc(byte[] b) { return enc(b, 0, b.length); }
    static String enc(byte[] b, int off, int len) {
        char[] r = new char[2 * len];
        for (int i = 0; i < len; i++) { r[2 * i] = D[(b[off + i] >> 4) & 15]; r[2 * i + 1] = D[b[off + i] & 15]; }
        return new String(r);
    }
}
