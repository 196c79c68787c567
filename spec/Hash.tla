-------------------------------- MODULE Hash --------------------------------
(***************************************************************************)
(* SHA-256, SHA-512 and SHAKE-256 as functions on byte strings, written    *)
(* out in full (FIPS 180-4 and FIPS 202).  A byte string is a TLA+ string  *)
(* of lower-case hexadecimal digits, two per byte; a run of equal bytes    *)
(* may be abbreviated as "(ab*1000)", so that inputs of gigabytes can be   *)
(* written down (Expand gives the plain form).                             *)
(*                                                                         *)
(* The definitions below are complete and TLC can evaluate them (some      *)
(* milliseconds per block).  Where thousands of hashes are needed, TLC is  *)
(* started with the Java operator overrides of java/vf/HashOverrides.java, *)
(* which replace the evaluation of Sha256, Sha512 and Shake256 only;       *)
(* MCHash.tla checks that both agree.                                      *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt

---------------------------------------------------------------------------
(* Hexadecimal strings and bytes                                           *)
HexDigits == "0123456789abcdef"
HexChars  == {SubSeq(HexDigits, i, i) : i \in 1..16}
Nibble    == TLCEval([c \in HexChars |-> CHOOSE i \in 0..15 : SubSeq(HexDigits, i+1, i+1) = c])
NibbleHex == TLCEval([v \in 0..15 |-> SubSeq(HexDigits, v+1, v+1)])
ByteHex   == TLCEval([v \in 0..255 |-> NibbleHex[v \div 16] \o NibbleHex[v % 16]])

NBytes(x)   == Len(x) \div 2
ByteAt(x,i) == 16 * Nibble[SubSeq(x, 2*i-1, 2*i-1)] + Nibble[SubSeq(x, 2*i, 2*i)]
Bytes(x)    == TLCEval([i \in 1..NBytes(x) |-> ByteAt(x, i)])
SubBytes(x, from, len) == SubSeq(x, 2*from+1, 2*(from+len))    \* from is 0-based

RECURSIVE ToHex(_)
ToHex(b) == IF Len(b) = 0 THEN "" ELSE
            IF Len(b) = 1 THEN ByteHex[b[1]] ELSE
            LET m == Len(b) \div 2 IN ToHex(SubSeq(b,1,m)) \o ToHex(SubSeq(b,m+1,Len(b)))

(* v as n big-endian bytes (v below 2^31)                                  *)
RECURSIVE HexInt(_,_)
HexInt(v, n) == IF n = 0 THEN "" ELSE HexInt(v \div 256, n-1) \o ByteHex[v % 256]

RECURSIVE Rep(_,_)
Rep(x, n) == IF n = 0 THEN "" ELSE
             IF n % 2 = 1 THEN x \o Rep(x, n-1)
             ELSE LET y == Rep(x, n \div 2) IN y \o y
Zeros(n) == Rep("00", n)

(* Expansion of the "(ab*1000)" notation                                   *)
Digit == TLCEval([c \in {"0","1","2","3","4","5","6","7","8","9"} |-> Nibble[c]])
RECURSIVE FindFrom(_,_,_)
FindFrom(x, c, i) == IF i > Len(x) THEN 0 ELSE IF SubSeq(x,i,i) = c THEN i ELSE FindFrom(x, c, i+1)
RECURSIVE Dec(_)
Dec(s) == IF s = "" THEN 0 ELSE 10 * Dec(SubSeq(s,1,Len(s)-1)) + Digit[SubSeq(s,Len(s),Len(s))]
RECURSIVE Expand(_)
Expand(x) ==
  LET o == FindFrom(x, "(", 1) IN
  IF o = 0 THEN x ELSE
  LET s == FindFrom(x, "*", o)
      c == FindFrom(x, ")", o)
  IN SubSeq(x, 1, o-1) \o Rep(SubSeq(x, o+1, s-1), Dec(SubSeq(x, s+1, c-1)))
       \o Expand(SubSeq(x, c+1, Len(x)))

---------------------------------------------------------------------------
(* Machine words: sequences of 16-bit limbs, most significant first        *)
WXor(a,b) == TLCEval([i \in DOMAIN a |-> a[i] ^^ b[i]])
WAnd(a,b) == TLCEval([i \in DOMAIN a |-> a[i] & b[i]])
WNot(a)   == TLCEval([i \in DOMAIN a |-> 65535 - a[i]])
RECURSIVE AddFrom(_,_,_,_,_)
AddFrom(a,b,i,carry,acc) ==
  IF i = 0 THEN acc
  ELSE LET s == TLCEval(a[i] + b[i] + carry)
       IN AddFrom(a, b, i-1, s \div 65536, <<s % 65536>> \o acc)
WAdd(a,b) == TLCEval(AddFrom(a, b, Len(a), 0, <<>>))
WRotR(a,r) ==
  LET n == Len(a)  q == r \div 16  s == r % 16
      src(i) == a[((i - 1 + 2*n - q) % n) + 1]
  IN TLCEval([i \in 1..n |->
       IF s = 0 THEN src(i)
       ELSE (src(i) \div 2^s) + ((src(i-1) % 2^s) * 2^(16-s))])
WShr(a,r) ==
  LET n == Len(a)  q == r \div 16  s == r % 16
      src(i) == IF i - q >= 1 THEN a[i-q] ELSE 0
  IN TLCEval([i \in 1..n |-> (src(i) \div 2^s) + ((src(i-1) % 2^s) * 2^(16-s))])
WRotL(a,r) == WRotR(a, (16*Len(a) - r) % (16*Len(a)))

(* A word from / to bytes, big-endian                                      *)
WordAt(b, off, limbs) == TLCEval([i \in 1..limbs |-> 256*b[off+2*i-1] + b[off+2*i]])
WordOfHex(x) == TLCEval([i \in 1..(Len(x) \div 4) |-> 256*ByteAt(x,2*i-1) + ByteAt(x,2*i)])
WordHex(w) == ToHex([i \in 1..(2*Len(w)) |-> IF i % 2 = 1 THEN w[(i+1) \div 2] \div 256 ELSE w[i \div 2] % 256])

---------------------------------------------------------------------------
(* SHA-2                                                                   *)
K256Hex == <<
    "428a2f98", "71374491", "b5c0fbcf", "e9b5dba5", "3956c25b", "59f111f1",
    "923f82a4", "ab1c5ed5", "d807aa98", "12835b01", "243185be", "550c7dc3",
    "72be5d74", "80deb1fe", "9bdc06a7", "c19bf174", "e49b69c1", "efbe4786",
    "0fc19dc6", "240ca1cc", "2de92c6f", "4a7484aa", "5cb0a9dc", "76f988da",
    "983e5152", "a831c66d", "b00327c8", "bf597fc7", "c6e00bf3", "d5a79147",
    "06ca6351", "14292967", "27b70a85", "2e1b2138", "4d2c6dfc", "53380d13",
    "650a7354", "766a0abb", "81c2c92e", "92722c85", "a2bfe8a1", "a81a664b",
    "c24b8b70", "c76c51a3", "d192e819", "d6990624", "f40e3585", "106aa070",
    "19a4c116", "1e376c08", "2748774c", "34b0bcb5", "391c0cb3", "4ed8aa4a",
    "5b9cca4f", "682e6ff3", "748f82ee", "78a5636f", "84c87814", "8cc70208",
    "90befffa", "a4506ceb", "bef9a3f7", "c67178f2" >>
K512Hex == <<
    "428a2f98d728ae22", "7137449123ef65cd", "b5c0fbcfec4d3b2f", "e9b5dba58189dbbc",
    "3956c25bf348b538", "59f111f1b605d019", "923f82a4af194f9b", "ab1c5ed5da6d8118",
    "d807aa98a3030242", "12835b0145706fbe", "243185be4ee4b28c", "550c7dc3d5ffb4e2",
    "72be5d74f27b896f", "80deb1fe3b1696b1", "9bdc06a725c71235", "c19bf174cf692694",
    "e49b69c19ef14ad2", "efbe4786384f25e3", "0fc19dc68b8cd5b5", "240ca1cc77ac9c65",
    "2de92c6f592b0275", "4a7484aa6ea6e483", "5cb0a9dcbd41fbd4", "76f988da831153b5",
    "983e5152ee66dfab", "a831c66d2db43210", "b00327c898fb213f", "bf597fc7beef0ee4",
    "c6e00bf33da88fc2", "d5a79147930aa725", "06ca6351e003826f", "142929670a0e6e70",
    "27b70a8546d22ffc", "2e1b21385c26c926", "4d2c6dfc5ac42aed", "53380d139d95b3df",
    "650a73548baf63de", "766a0abb3c77b2a8", "81c2c92e47edaee6", "92722c851482353b",
    "a2bfe8a14cf10364", "a81a664bbc423001", "c24b8b70d0f89791", "c76c51a30654be30",
    "d192e819d6ef5218", "d69906245565a910", "f40e35855771202a", "106aa07032bbd1b8",
    "19a4c116b8d2d0c8", "1e376c085141ab53", "2748774cdf8eeb99", "34b0bcb5e19b48a8",
    "391c0cb3c5c95a63", "4ed8aa4ae3418acb", "5b9cca4f7763e373", "682e6ff3d6b2b8a3",
    "748f82ee5defb2fc", "78a5636f43172f60", "84c87814a1f0ab72", "8cc702081a6439ec",
    "90befffa23631e28", "a4506cebde82bde9", "bef9a3f7b2c67915", "c67178f2e372532b",
    "ca273eceea26619c", "d186b8c721c0c207", "eada7dd6cde0eb1e", "f57d4f7fee6ed178",
    "06f067aa72176fba", "0a637dc5a2c898a6", "113f9804bef90dae", "1b710b35131c471b",
    "28db77f523047d84", "32caab7b40c72493", "3c9ebe0a15c9bebc", "431d67c49c100d4c",
    "4cc5d4becb3e42b6", "597f299cfc657e2a", "5fcb6fab3ad6faec", "6c44198c4a475817" >>
H256Hex == <<
    "6a09e667", "bb67ae85", "3c6ef372", "a54ff53a",
    "510e527f", "9b05688c", "1f83d9ab", "5be0cd19" >>
H512Hex == <<
    "6a09e667f3bcc908", "bb67ae8584caa73b", "3c6ef372fe94f82b", "a54ff53a5f1d36f1",
    "510e527fade682d1", "9b05688c2b3e6c1f", "1f83d9abfb41bd6b", "5be0cd19137e2179" >>

Sha256Params ==
  TLCEval([ limbs |-> 2, block |-> 64, lenbytes |-> 8, rounds |-> 64,
    K |-> [i \in 1..64 |-> WordOfHex(K256Hex[i])],
    H |-> [i \in 1..8 |-> WordOfHex(H256Hex[i])],
    S0 |-> <<2,13,22>>, S1 |-> <<6,11,25>>, g0 |-> <<7,18,3>>, g1 |-> <<17,19,10>> ])
Sha512Params ==
  TLCEval([ limbs |-> 4, block |-> 128, lenbytes |-> 16, rounds |-> 80,
    K |-> [i \in 1..80 |-> WordOfHex(K512Hex[i])],
    H |-> [i \in 1..8 |-> WordOfHex(H512Hex[i])],
    S0 |-> <<28,34,39>>, S1 |-> <<14,18,41>>, g0 |-> <<1,8,7>>, g1 |-> <<19,61,6>> ])

BigSigma(x, r)   == WXor(WRotR(x,r[1]), WXor(WRotR(x,r[2]), WRotR(x,r[3])))
SmallSigma(x, r) == WXor(WRotR(x,r[1]), WXor(WRotR(x,r[2]), WShr(x,r[3])))
Ch(x,y,z)  == WXor(WAnd(x,y), WAnd(WNot(x),z))
Maj(x,y,z) == WXor(WAnd(x,y), WXor(WAnd(x,z), WAnd(y,z)))

(* TLC evaluates LET definitions by name; Bind evaluates e once and passes  *)
(* the value.  (FoldLeft also passes values.)                              *)
Bind(e, Op(_)) == CHOOSE y \in {Op(x) : x \in {e}} : TRUE
UpTo(a, b) == [i \in 1..(b-a+1) |-> a+i-1]

Schedule(p, w0) ==
  FoldLeft(LAMBDA w, t : Append(w,
             WAdd(WAdd(SmallSigma(w[t-2], p.g1), w[t-7]), WAdd(SmallSigma(w[t-15], p.g0), w[t-16]))),
           w0, UpTo(17, p.rounds))

Step(s, t1, t2) == <<WAdd(t1,t2), s[1], s[2], s[3], WAdd(s[4],t1), s[5], s[6], s[7]>>
Rounds(p, w, s0) ==
  FoldLeft(LAMBDA s, t :
             Step(s, WAdd(WAdd(WAdd(s[8], BigSigma(s[5], p.S1)), WAdd(Ch(s[5],s[6],s[7]), p.K[t])), w[t]),
                     WAdd(BigSigma(s[1], p.S0), Maj(s[1],s[2],s[3]))),
           s0, UpTo(1, p.rounds))

(* The compression function: chaining value s, block of bytes b            *)
Compress(p, s, b) ==
  Bind(Schedule(p, [i \in 1..16 |-> WordAt(b, (i-1)*2*p.limbs, p.limbs)]), LAMBDA w :
  Bind(Rounds(p, w, s), LAMBDA r :
  TLCEval([i \in 1..8 |-> WAdd(s[i], r[i])])))

(* Padding: 0x80, zeros, bit length                                        *)
ShaPad(p, b) ==
  LET n == Len(b)
      z == (2*p.block - 1 - p.lenbytes - (n % p.block)) % p.block
      lenf == [i \in 1..p.lenbytes |->
                 IF i <= p.lenbytes - 4 THEN 0
                 ELSE IF i = p.lenbytes THEN (8*n) % 256
                 ELSE ((n \div 32) \div 256^(p.lenbytes-1-i)) % 256]
  IN TLCEval(b \o <<128>> \o [i \in 1..z |-> 0] \o lenf)

ShaBlocks(p, s0, b) ==
  FoldLeft(LAMBDA s, j : Compress(p, s, SubSeq(b, p.block*(j-1)+1, p.block*j)),
           s0, UpTo(1, Len(b) \div p.block))

Concat8(s, F(_)) == F(s[1]) \o F(s[2]) \o F(s[3]) \o F(s[4]) \o F(s[5]) \o F(s[6]) \o F(s[7]) \o F(s[8])
PureSha(p, x) == Bind(ShaPad(p, Bytes(Expand(x))), LAMBDA b :
                 Bind(ShaBlocks(p, p.H, b), LAMBDA s : Concat8(s, WordHex)))

PureSha256(x) == PureSha(Sha256Params, x)
PureSha512(x) == PureSha(Sha512Params, x)

---------------------------------------------------------------------------
(* Keccak-f[1600] and SHAKE-256.  The state is a function of 0..24, lane   *)
(* x+5y, each lane four limbs.                                             *)
KeccakRC == <<
    "0000000000000001", "0000000000008082", "800000000000808a", "8000000080008000",
    "000000000000808b", "0000000080000001", "8000000080008081", "8000000000008009",
    "000000000000008a", "0000000000000088", "0000000080008009", "000000008000000a",
    "000000008000808b", "800000000000008b", "8000000000008089", "8000000000008003",
    "8000000000008002", "8000000000000080", "000000000000800a", "800000008000000a",
    "8000000080008081", "8000000000008080", "0000000080000001", "8000000080008008" >>
RCWord == TLCEval([i \in 1..24 |-> WordOfHex(KeccakRC[i])])
(* rotation offsets, lane x+5y, and the pi permutation                     *)
Rho == TLCEval([i \in 0..24 |-> <<0,1,62,28,27, 36,44,6,55,20, 3,10,43,25,39, 41,45,15,21,8, 18,2,61,56,14>>[i+1]])
Theta(a) ==
  Bind([x \in 0..4 |-> WXor(a[x], WXor(a[x+5], WXor(a[x+10], WXor(a[x+15], a[x+20]))))], LAMBDA c :
  Bind([x \in 0..4 |-> WXor(c[(x+4)%5], WRotL(c[(x+1)%5], 1))], LAMBDA d :
  TLCEval([i \in 0..24 |-> WXor(a[i], d[i % 5])])))
(* lane (X,Y) of the result comes from (x,y) with X = y, Y = 2x+3y         *)
PiSource(i) == LET X == i % 5  Y == i \div 5 IN ((3 * (Y + 20 - 3*X)) % 5) + 5*X
RhoPi(a) == TLCEval([i \in 0..24 |-> WRotL(a[PiSource(i)], Rho[PiSource(i)])])
Chi(b) == TLCEval([i \in 0..24 |->
             LET y == 5 * (i \div 5)
                 x == i % 5
             IN WXor(b[i], WAnd(WNot(b[y + ((x+1)%5)]), b[y + ((x+2)%5)]))])
KeccakRound(a, rc) ==
  Bind(Theta(a), LAMBDA t : Bind(RhoPi(t), LAMBDA b : Bind(Chi(b), LAMBDA e :
  TLCEval([e EXCEPT ![0] = WXor(e[0], rc)]))))
KeccakF(a0) == FoldLeft(LAMBDA a, r : KeccakRound(a, RCWord[r]), a0, UpTo(1, 24))

Rate == 136
LaneOf(b, off) == TLCEval([i \in 1..4 |-> 256*b[off + 10 - 2*i] + b[off + 9 - 2*i]])   \* little-endian
ShakePad(b) ==
  LET z == Rate - 1 - (Len(b) % Rate)
  IN TLCEval(IF z = 0 THEN Append(b, 159)                                  \* 0x1f xor 0x80
             ELSE b \o <<31>> \o [i \in 1..(z-1) |-> 0] \o <<128>>)
XorBlock(a, b, off) == TLCEval([i \in 0..24 |-> IF i < 17 THEN WXor(a[i], LaneOf(b, off + 8*i)) ELSE a[i]])
Absorb(a0, b) == FoldLeft(LAMBDA a, j : KeccakF(XorBlock(a, b, Rate*(j-1))), a0, UpTo(1, Len(b) \div Rate))
LaneHex(w) == LET h == WordHex(w) IN
  SubSeq(h,15,16) \o SubSeq(h,13,14) \o SubSeq(h,11,12) \o SubSeq(h,9,10) \o
  SubSeq(h,7,8) \o SubSeq(h,5,6) \o SubSeq(h,3,4) \o SubSeq(h,1,2)
RECURSIVE RateHex(_,_)
RateHex(a, i) == IF i = 17 THEN "" ELSE LaneHex(a[i]) \o RateHex(a, i+1)
Squeeze(a0, n) ==
  LET full == FoldLeft(LAMBDA st, j : Bind(KeccakF(st[1]), LAMBDA a : <<a, st[2] \o RateHex(a, 0)>>),
                       <<a0, RateHex(a0, 0)>>, UpTo(2, (n + Rate - 1) \div Rate))
  IN SubSeq(full[2], 1, 2*n)
ZeroState == [i \in 0..24 |-> <<0,0,0,0>>]
PureShake256(x, n) ==
  IF n = 0 THEN ""
  ELSE Bind(ShakePad(Bytes(Expand(x))), LAMBDA b : Bind(Absorb(ZeroState, b), LAMBDA a : Squeeze(a, n)))

---------------------------------------------------------------------------
(* The names the rest of the specification uses; these three are what the  *)
(* Java overrides replace.                                                 *)
Sha256(x)      == PureSha256(x)
Sha512(x)      == PureSha512(x)
Shake256(x, n) == PureShake256(x, n)

(* XOR of a byte string with a repeated byte, and HMAC                     *)
XorByte(x, v) == ToHex([i \in 1..NBytes(x) |-> ByteAt(x,i) ^^ v])
Hmac256(key, x) ==
  LET k == key \o Zeros(64 - NBytes(key))
  IN Sha256(XorByte(k, 92) \o Sha256(XorByte(k, 54) \o x))
Hmac512(key, x) ==
  LET k == key \o Zeros(128 - NBytes(key))
  IN Sha512(XorByte(k, 92) \o Sha512(XorByte(k, 54) \o x))
=============================================================================
