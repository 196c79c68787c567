package vf;

/** SHAKE-256 (FIPS 202), incremental. */
final class Keccak {
    private static final int RATE = 136;
    private static final java.lang.invoke.VarHandle LE =
        java.lang.invoke.MethodHandles.byteArrayViewVarHandle(long[].class, java.nio.ByteOrder.LITTLE_ENDIAN);
    private static final long[] RC = new long[24];
    static {
        int r = 1;
        for (int i = 0; i < 24; i++)
            for (int j = 0; j < 7; j++) {
                if ((r & 1) != 0) RC[i] |= 1L << ((1 << j) - 1);
                r <<= 1;
                if ((r & 0x100) != 0) r ^= 0x171;
            }
    }
    private final long[] a = new long[25];
    private final byte[] buf = new byte[RATE];
    private int n = 0;

    private void perm() {
        final long[] a = this.a;
        long a0 = a[0], a1 = a[1], a2 = a[2], a3 = a[3], a4 = a[4];
        long a5 = a[5], a6 = a[6], a7 = a[7], a8 = a[8], a9 = a[9];
        long a10 = a[10], a11 = a[11], a12 = a[12], a13 = a[13], a14 = a[14];
        long a15 = a[15], a16 = a[16], a17 = a[17], a18 = a[18], a19 = a[19];
        long a20 = a[20], a21 = a[21], a22 = a[22], a23 = a[23], a24 = a[24];
        for (int r = 0; r < 24; r++) {
            long c0 = a0 ^ a5 ^ a10 ^ a15 ^ a20;
            long c1 = a1 ^ a6 ^ a11 ^ a16 ^ a21;
            long c2 = a2 ^ a7 ^ a12 ^ a17 ^ a22;
            long c3 = a3 ^ a8 ^ a13 ^ a18 ^ a23;
            long c4 = a4 ^ a9 ^ a14 ^ a19 ^ a24;
            long d0 = c4 ^ Long.rotateLeft(c1, 1);
            long d1 = c0 ^ Long.rotateLeft(c2, 1);
            long d2 = c1 ^ Long.rotateLeft(c3, 1);
            long d3 = c2 ^ Long.rotateLeft(c4, 1);
            long d4 = c3 ^ Long.rotateLeft(c0, 1);
            long b0 = a0 ^ d0,
                 b10 = Long.rotateLeft(a1 ^ d1, 1),
                 b20 = Long.rotateLeft(a2 ^ d2, 62),
                 b5 = Long.rotateLeft(a3 ^ d3, 28),
                 b15 = Long.rotateLeft(a4 ^ d4, 27);
            long b16 = Long.rotateLeft(a5 ^ d0, 36),
                 b1 = Long.rotateLeft(a6 ^ d1, 44),
                 b11 = Long.rotateLeft(a7 ^ d2, 6),
                 b21 = Long.rotateLeft(a8 ^ d3, 55),
                 b6 = Long.rotateLeft(a9 ^ d4, 20);
            long b7 = Long.rotateLeft(a10 ^ d0, 3),
                 b17 = Long.rotateLeft(a11 ^ d1, 10),
                 b2 = Long.rotateLeft(a12 ^ d2, 43),
                 b12 = Long.rotateLeft(a13 ^ d3, 25),
                 b22 = Long.rotateLeft(a14 ^ d4, 39);
            long b23 = Long.rotateLeft(a15 ^ d0, 41),
                 b8 = Long.rotateLeft(a16 ^ d1, 45),
                 b18 = Long.rotateLeft(a17 ^ d2, 15),
                 b3 = Long.rotateLeft(a18 ^ d3, 21),
                 b13 = Long.rotateLeft(a19 ^ d4, 8);
            long b14 = Long.rotateLeft(a20 ^ d0, 18),
                 b24 = Long.rotateLeft(a21 ^ d1, 2),
                 b9 = Long.rotateLeft(a22 ^ d2, 61),
                 b19 = Long.rotateLeft(a23 ^ d3, 56),
                 b4 = Long.rotateLeft(a24 ^ d4, 14);
            a0 = b0 ^ (~b1 & b2) ^ RC[r];
            a1 = b1 ^ (~b2 & b3);
            a2 = b2 ^ (~b3 & b4);
            a3 = b3 ^ (~b4 & b0);
            a4 = b4 ^ (~b0 & b1);
            a5 = b5 ^ (~b6 & b7);
            a6 = b6 ^ (~b7 & b8);
            a7 = b7 ^ (~b8 & b9);
            a8 = b8 ^ (~b9 & b5);
            a9 = b9 ^ (~b5 & b6);
            a10 = b10 ^ (~b11 & b12);
            a11 = b11 ^ (~b12 & b13);
            a12 = b12 ^ (~b13 & b14);
            a13 = b13 ^ (~b14 & b10);
            a14 = b14 ^ (~b10 & b11);
            a15 = b15 ^ (~b16 & b17);
            a16 = b16 ^ (~b17 & b18);
            a17 = b17 ^ (~b18 & b19);
            a18 = b18 ^ (~b19 & b15);
            a19 = b19 ^ (~b15 & b16);
            a20 = b20 ^ (~b21 & b22);
            a21 = b21 ^ (~b22 & b23);
            a22 = b22 ^ (~b23 & b24);
            a23 = b23 ^ (~b24 & b20);
            a24 = b24 ^ (~b20 & b21);
        }
        a[0] = a0; a[1] = a1; a[2] = a2; a[3] = a3; a[4] = a4;
        a[5] = a5; a[6] = a6; a[7] = a7; a[8] = a8; a[9] = a9;
        a[10] = a10; a[11] = a11; a[12] = a12; a[13] = a13; a[14] = a14;
        a[15] = a15; a[16] = a16; a[17] = a17; a[18] = a18; a[19] = a19;
        a[20] = a20; a[21] = a21; a[22] = a22; a[23] = a23; a[24] = a24;
    }
    private void block() {
        for (int i = 0; i < RATE / 8; i++) a[i] ^= (long) LE.get(buf, 8 * i);
        perm();
        n = 0;
    }
    void absorb(byte[] m, int off, int len) {
        while (len > 0) {
            int k = Math.min(len, RATE - n);
            System.arraycopy(m, off, buf, n, k);
            n += k; off += k; len -= k;
            if (n == RATE) block();
        }
    }
    byte[] squeeze(int len) {
        java.util.Arrays.fill(buf, n, RATE, (byte) 0);
        buf[n] ^= 0x1f;
        buf[RATE - 1] ^= (byte) 0x80;
        block();
        byte[] r = new byte[len];
        for (int i = 0; i < len; i++) {
            if (i > 0 && i % RATE == 0) perm();
            int p = i % RATE;
            r[i] = (byte) (a[p / 8] >>> (8 * (p % 8)));
        }
        return r;
    }
    static byte[] shake(byte[] m, int len) {
        Keccak k = new Keccak();
        k.absorb(m, 0, m.length);
        return k.squeeze(len);
    }
}
