------------------------------ MODULE Sphincs ------------------------------
(***************************************************************************)
(* The SPHINCS+ signature scheme (round 3.1, "simple" tweaked hashes) as   *)
(* functions: key generation, signing, verification.  All values are byte  *)
(* strings (see Hash.tla).  This is the oracle the implementation is       *)
(* compared with; it is written from the SPHINCS+ specification and shares *)
(* nothing with the C code.                                                *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Hash
LOCAL INSTANCE ParamSets

---------------------------------------------------------------------------
(* Bit sequences (most significant bit first)                              *)
BitsOf(x) == TLCEval([i \in 1..(8*NBytes(x)) |->
                (ByteAt(x, ((i-1) \div 8) + 1) \div 2^(7 - ((i-1) % 8))) % 2])
IntOf(b)  == FoldLeft(LAMBDA v, c : 2*v + c, 0, b)
ZeroExt(b, n) == TLCEval([i \in 1..n |-> IF i <= n - Len(b) THEN 0 ELSE b[i - (n - Len(b))]])
HexOfBits(b, n) ==                      \* as n big-endian bytes
  LET z == ZeroExt(b, 8*n)
  IN FoldLeft(LAMBDA s, j : s \o ByteHex[IntOf(SubSeq(z, 8*j-7, 8*j))], "", UpTo(1, n))
LastBits(b, n) == SubSeq(b, Len(b)-n+1, Len(b))

---------------------------------------------------------------------------
(* Addresses.  A tree address is eight bytes; the words w1..w3 are: key    *)
(* pair; chain or tree height; hash or tree index.                         *)
WOTS == 0  WOTSPK == 1  TREE == 2  FORSTREE == 3  FORSPK == 4  WOTSPRF == 5  FORSPRF == 6

Adrs(P, layer, tree, type, w1, w2, w3) ==
  IF P.fam = "sha2"
  THEN HexInt(layer, 1) \o tree \o HexInt(type, 1) \o HexInt(w1, 4) \o HexInt(w2, 4) \o HexInt(w3, 4)
  ELSE HexInt(layer, 4) \o "00000000" \o tree \o HexInt(type, 4) \o HexInt(w1, 4) \o HexInt(w2, 4) \o HexInt(w3, 4)

---------------------------------------------------------------------------
(* The tweakable hash functions                                            *)
Trunc(x, n) == SubSeq(x, 1, 2*n)
Sha256T(P, seed, a, x) == Trunc(Sha256(seed \o Zeros( 64 - P.n) \o a \o x), P.n)
Sha512T(P, seed, a, x) == Trunc(Sha512(seed \o Zeros(128 - P.n) \o a \o x), P.n)
ShakeT(P, seed, a, x)  == Shake256(seed \o a \o x, P.n)

F(P, seed, a, x)  == IF P.fam = "sha2" THEN Sha256T(P, seed, a, x) ELSE ShakeT(P, seed, a, x)
(* With P.spike, nodes of trees and digests are often all zeros, all ones   *)
(* and the like, so that every layer's WOTS+ digits and checksums, and the  *)
(* position in the hypertree, take extreme values no message would find.    *)
SpikeNode(P, x) ==
  IF ~ P.spike THEN x
  ELSE LET b == ByteAt(x, 1) IN
       IF b < 32 THEN Rep("00", P.n) ELSE IF b < 64 THEN Rep("ff", P.n) ELSE IF b < 80 THEN Rep("0f", P.n) ELSE x
Th(P, seed, a, x) == SpikeNode(P,        \* two or more nodes
  IF P.fam = "shake" THEN ShakeT(P, seed, a, x)
  ELSE IF P.n = 16 THEN Sha256T(P, seed, a, x) ELSE Sha512T(P, seed, a, x))
Prf(P, seed, a, skseed) == IF P.fam = "sha2" THEN Sha256T(P, seed, a, skseed) ELSE ShakeT(P, seed, a, skseed)

PrfMsg(P, skprf, opt, m) ==
  IF P.fam = "shake" THEN Shake256(skprf \o opt \o m, P.n)
  ELSE Trunc(IF P.n = 16 THEN Hmac256(skprf, opt \o m) ELSE Hmac512(skprf, opt \o m), P.n)

Sha2(P, x) == IF P.n = 16 THEN Sha256(x) ELSE Sha512(x)
Mgf1(P, x, len) ==
  LET hl == IF P.n = 16 THEN 32 ELSE 64
  IN Trunc(FoldLeft(LAMBDA s, i : s \o Sha2(P, x \o HexInt(i-1, 4)), "", UpTo(1, (len + hl - 1) \div hl)), len)
HMsg(P, r, seed, root, m, len) ==
  IF P.fam = "shake" THEN Shake256(r \o seed \o root \o m, len)
  ELSE Mgf1(P, r \o seed \o Sha2(P, r \o seed \o root \o m), len)

---------------------------------------------------------------------------
(* Where a message digest points: FORS leaves (0-based) and the position   *)
(* idx in the hypertree, h bits, top layer first.                          *)
CeilDiv8(x) == (x + 7) \div 8
DigestLen(P) == CeilDiv8(P.k*P.t) + CeilDiv8(P.h - MerkleH(P)) + CeilDiv8(MerkleH(P))
ForsBits(P, dig) == BitsOf(SubBytes(dig, 0, CeilDiv8(P.k*P.t)))
ForsLeaves(P, dig) == Bind(ForsBits(P, dig), LAMBDA b :
  TLCEval([i \in 1..P.k |-> IntOf(SubSeq(b, (i-1)*P.t + 1, i*P.t))]))
IdxBits(P, dig) ==
  LET o1 == CeilDiv8(P.k*P.t)  l1 == CeilDiv8(P.h - MerkleH(P))  l2 == CeilDiv8(MerkleH(P))
  IN LastBits(BitsOf(SubBytes(dig, o1, l1)), P.h - MerkleH(P))
       \o LastBits(BitsOf(SubBytes(dig, o1 + l1, l2)), MerkleH(P))
(* At layer j (0 is the lowest): which tree, and which leaf of it          *)
TreeAt(P, idx, j) == HexOfBits(SubSeq(idx, 1, P.h - (j+1)*MerkleH(P)), 8)
LeafAt(P, idx, j) == IntOf(SubSeq(idx, P.h - (j+1)*MerkleH(P) + 1, P.h - j*MerkleH(P)))

---------------------------------------------------------------------------
(* WOTS+                                                                   *)
Digits(P, x) ==                         \* base-16 digits and checksum
  Bind([i \in 1..(2*P.n) |-> Nibble[SubSeq(x, i, i)]], LAMBDA d :
  LET c == FoldLeft(LAMBDA s, v : s + 15 - v, 0, d)
  IN TLCEval(d \o <<c \div 256, (c \div 16) % 16, c % 16>>))

(* (Chain, WotsPk, XmssNode and ForsNode have Java overrides for speed; the Pure operators are their definitions, and     *)
(* MCSphincs.tla compares the two.)                                                                                       *)
PureChain(P, seed, layer, tree, leaf, chain, x, from, to) ==   \* apply F at hash addresses from..to-1
  FoldLeft(LAMBDA y, i : F(P, seed, Adrs(P, layer, tree, WOTS, leaf, chain, i), y), x, UpTo(from, to-1))
Chain(P, seed, layer, tree, leaf, chain, x, from, to) == PureChain(P, seed, layer, tree, leaf, chain, x, from, to)
WotsSecret(P, seed, skseed, layer, tree, leaf, chain) ==
  Prf(P, seed, Adrs(P, layer, tree, WOTSPRF, leaf, chain, 0), skseed)
WotsCompress(P, seed, layer, tree, leaf, tops) ==
  Th(P, seed, Adrs(P, layer, tree, WOTSPK, leaf, 0, 0), tops)

WotsSign(P, seed, skseed, layer, tree, leaf, x) ==
  Bind(Digits(P, x), LAMBDA d :
  FoldLeft(LAMBDA s, i : s \o Chain(P, seed, layer, tree, leaf, i-1,
                                    WotsSecret(P, seed, skseed, layer, tree, leaf, i-1), 0, d[i]),
           "", UpTo(1, WotsLen(P))))
PureWotsPk(P, seed, skseed, layer, tree, leaf) ==
  WotsCompress(P, seed, layer, tree, leaf,
    FoldLeft(LAMBDA s, i : s \o PureChain(P, seed, layer, tree, leaf, i-1,
                                      WotsSecret(P, seed, skseed, layer, tree, leaf, i-1), 0, 15),
             "", UpTo(1, WotsLen(P))))
WotsPk(P, seed, skseed, layer, tree, leaf) == PureWotsPk(P, seed, skseed, layer, tree, leaf)
WotsPkFromSig(P, seed, layer, tree, leaf, x, sig) ==
  Bind(Digits(P, x), LAMBDA d :
  WotsCompress(P, seed, layer, tree, leaf,
    FoldLeft(LAMBDA s, i : s \o Chain(P, seed, layer, tree, leaf, i-1, SubBytes(sig, (i-1)*P.n, P.n), d[i], 15),
             "", UpTo(1, WotsLen(P)))))

---------------------------------------------------------------------------
(* Merkle trees: node i (0-based) at height z, and authentication paths    *)
RECURSIVE PureXmssNode(_,_,_,_,_,_,_)
PureXmssNode(P, seed, skseed, layer, tree, z, i) ==
  IF z = 0 THEN PureWotsPk(P, seed, skseed, layer, tree, i)
  ELSE Th(P, seed, Adrs(P, layer, tree, TREE, 0, z, i),
          PureXmssNode(P, seed, skseed, layer, tree, z-1, 2*i) \o PureXmssNode(P, seed, skseed, layer, tree, z-1, 2*i + 1))
XmssNode(P, seed, skseed, layer, tree, z, i) == PureXmssNode(P, seed, skseed, layer, tree, z, i)

Sibling(i) == IF i % 2 = 0 THEN i + 1 ELSE i - 1
AuthPath(Node(_,_), leaf, height) ==    \* Node(z, i)
  FoldLeft(LAMBDA s, j : s \o Node(j-1, Sibling(leaf \div 2^(j-1))), "", UpTo(1, height))
(* From a leaf value and its path to the root; Combine(z, i, left, right)  *)
ClimbPath(P, Combine(_,_,_), leaf, height, x, path) ==
  FoldLeft(LAMBDA y, j :
             LET s == SubBytes(path, (j-1)*P.n, P.n)
             IN Combine(j, leaf \div 2^j, IF (leaf \div 2^(j-1)) % 2 = 0 THEN y \o s ELSE s \o y),
           x, UpTo(1, height))

---------------------------------------------------------------------------
(* FORS.  Leaf l of tree i (0-based) has index i*2^t + l.                   *)
ForsSecret(P, seed, skseed, tree, kp, index) == Prf(P, seed, Adrs(P, 0, tree, FORSPRF, kp, 0, index), skseed)
ForsLeaf(P, seed, tree, kp, index, x) == F(P, seed, Adrs(P, 0, tree, FORSTREE, kp, 0, index), x)
RECURSIVE PureForsNode(_,_,_,_,_,_,_)
PureForsNode(P, seed, skseed, tree, kp, z, i) ==       \* i counts over all trees
  IF z = 0 THEN ForsLeaf(P, seed, tree, kp, i, ForsSecret(P, seed, skseed, tree, kp, i))
  ELSE Th(P, seed, Adrs(P, 0, tree, FORSTREE, kp, z, i),
          PureForsNode(P, seed, skseed, tree, kp, z-1, 2*i) \o PureForsNode(P, seed, skseed, tree, kp, z-1, 2*i + 1))
ForsNode(P, seed, skseed, tree, kp, z, i) == PureForsNode(P, seed, skseed, tree, kp, z, i)
ForsSign(P, seed, skseed, tree, kp, leaves) ==
  FoldLeft(LAMBDA s, j :
     LET ix == (j-1) * 2^P.t + leaves[j]
     IN s \o ForsSecret(P, seed, skseed, tree, kp, ix)
          \o AuthPath(LAMBDA z, i : ForsNode(P, seed, skseed, tree, kp, z, i), ix, P.t),
     "", UpTo(1, P.k))
ForsPk(P, seed, tree, kp, roots) == Th(P, seed, Adrs(P, 0, tree, FORSPK, kp, 0, 0), roots)
ForsPkOfKey(P, seed, skseed, tree, kp) ==
  ForsPk(P, seed, tree, kp,
    FoldLeft(LAMBDA s, j : s \o ForsNode(P, seed, skseed, tree, kp, P.t, j-1), "", UpTo(1, P.k)))
ForsPkFromSig(P, seed, tree, kp, leaves, sig) ==
  ForsPk(P, seed, tree, kp,
    FoldLeft(LAMBDA s, j :
       LET ix == (j-1) * 2^P.t + leaves[j]
           o  == (j-1) * (P.t + 1) * P.n
       IN s \o ClimbPath(P, LAMBDA z, i, x : Th(P, seed, Adrs(P, 0, tree, FORSTREE, kp, z, i), x),
                         ix, P.t, ForsLeaf(P, seed, tree, kp, ix, SubBytes(sig, o, P.n)),
                         SubBytes(sig, o + P.n, P.t * P.n)),
       "", UpTo(1, P.k)))

---------------------------------------------------------------------------
(* Keys: sk = SK.seed || SK.prf || PK.seed || PK.root, pk = PK.seed || PK.root *)
SkSeed(P, sk) == SubBytes(sk, 0, P.n)
SkPrf(P, sk)  == SubBytes(sk, P.n, P.n)
PkOf(P, sk)   == SubBytes(sk, 2*P.n, 2*P.n)
PkSeed(P, pk) == SubBytes(pk, 0, P.n)
PkRoot(P, pk) == SubBytes(pk, P.n, P.n)

HtRoot(P, skseed, seed) == XmssNode(P, seed, skseed, P.d - 1, "0000000000000000", MerkleH(P), 0)
(* random: the 3n random bytes *)
KeyGen(P, random) == random \o HtRoot(P, SubBytes(random, 0, P.n), SubBytes(random, 2*P.n, P.n))

---------------------------------------------------------------------------
(* Signing.  The signature at a position, for given R and leaves:          *)
XmssSign(P, seed, skseed, layer, tree, leaf, x) ==
  WotsSign(P, seed, skseed, layer, tree, leaf, x)
    \o AuthPath(LAMBDA z, i : XmssNode(P, seed, skseed, layer, tree, z, i), leaf, MerkleH(P))
XmssRoot(P, seed, skseed, layer, tree) == XmssNode(P, seed, skseed, layer, tree, MerkleH(P), 0)

HtSign(P, seed, skseed, idx, x) ==
  FoldLeft(LAMBDA st, j :               \* <<signature so far, value to sign next>>
     <<st[1] \o XmssSign(P, seed, skseed, j-1, TreeAt(P, idx, j-1), LeafAt(P, idx, j-1), st[2]),
       XmssRoot(P, seed, skseed, j-1, TreeAt(P, idx, j-1))>>,
     <<"", x>>, UpTo(1, P.d))[1]

SignAt(P, sk, r, leaves, idx) ==
  LET seed == PkSeed(P, PkOf(P, sk))
      skseed == SkSeed(P, sk)
      tree == TreeAt(P, idx, 0)
      kp == LeafAt(P, idx, 0)
  IN r \o ForsSign(P, seed, skseed, tree, kp, leaves)
       \o HtSign(P, seed, skseed, idx, ForsPkOfKey(P, seed, skseed, tree, kp))

MsgR(P, sk, m, opt) == PrfMsg(P, SkPrf(P, sk), opt, m)
(* spiked: each of the three parts of the digest as it is, zeros or ones     *)
SpikePart(x, how) == IF how = 0 THEN x ELSE Rep(IF how = 1 THEN "00" ELSE "ff", NBytes(x))
SpikeDigest(P, x) ==
  IF ~ P.spike THEN x
  ELSE LET b == ByteAt(x, 1)
           o1 == CeilDiv8(P.k*P.t)  l1 == CeilDiv8(P.h - MerkleH(P))  l2 == CeilDiv8(MerkleH(P))
       IN SpikePart(SubBytes(x, 0, o1), b % 3) \o SpikePart(SubBytes(x, o1, l1), (b \div 3) % 3)
            \o SpikePart(SubBytes(x, o1 + l1, l2), (b \div 9) % 3)
Digest(P, pk, r, m) == SpikeDigest(P, HMsg(P, r, PkSeed(P, pk), PkRoot(P, pk), m, DigestLen(P)))

Sign(P, sk, m, opt) ==
  Bind(MsgR(P, sk, m, opt), LAMBDA r :
  Bind(Digest(P, PkOf(P, sk), r, m), LAMBDA dig :
  SignAt(P, sk, r, ForsLeaves(P, dig), IdxBits(P, dig))))

(* The deterministic variant uses PK.seed as OptRand                       *)
DetOpt(P, sk) == PkSeed(P, PkOf(P, sk))

---------------------------------------------------------------------------
(* Verification: the root a signature leads to                             *)
SigRootAt(P, pk, leaves, idx, sig) ==
  LET seed == PkSeed(P, pk)
      forsl == P.k * (P.t + 1) * P.n
      layerl == (WotsLen(P) + MerkleH(P)) * P.n
  IN FoldLeft(LAMBDA x, j :
        LET o == P.n + forsl + (j-1) * layerl
            tree == TreeAt(P, idx, j-1)
            leaf == LeafAt(P, idx, j-1)
        IN ClimbPath(P, LAMBDA z, i, y : Th(P, seed, Adrs(P, j-1, tree, TREE, 0, z, i), y),
                     leaf, MerkleH(P),
                     WotsPkFromSig(P, seed, j-1, tree, leaf, x, SubBytes(sig, o, WotsLen(P) * P.n)),
                     SubBytes(sig, o + WotsLen(P) * P.n, MerkleH(P) * P.n)),
        ForsPkFromSig(P, seed, TreeAt(P, idx, 0), LeafAt(P, idx, 0), leaves, SubBytes(sig, P.n, forsl)),
        UpTo(1, P.d))
SigRoot(P, pk, m, sig) ==
  Bind(Digest(P, pk, SubBytes(sig, 0, P.n), m), LAMBDA dig :
  Bind(IdxBits(P, dig), LAMBDA idx :
  SigRootAt(P, pk, ForsLeaves(P, dig), idx, sig)))
Verify(P, pk, m, sig) == NBytes(sig) = SigLen(P) /\ SigRoot(P, pk, m, sig) = PkRoot(P, pk)
=============================================================================
