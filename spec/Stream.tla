------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The streaming machine inside the library: how a signature is produced   *)
(* and consumed a few bytes at a time with one node buffer, one path node, *)
(* one running hash and a stack of one node per level.  Shaped like        *)
(* tiny_sphincs.c, verify.c and key_gen.c: a context is a record, every    *)
(* operator here is one function of the C code on such records.  Contents  *)
(* of a context survive between operations exactly as in C (nothing is     *)
(* cleared that the code does not clear).                                  *)
(*                                                                         *)
(* Node values are real: hexadecimal strings hashed with the tweakable     *)
(* hashes of Sphincs.tla.  MCStream checks that this machine implements    *)
(* Api.tla, i.e. that its output is Sphincs.tla's signature and its verdict*)
(* Sphincs.tla's verdict, whatever the sequence of calls.                  *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Hash
LOCAL INSTANCE ParamSets
LOCAL INSTANCE Sphincs

(* States, in the order of the enumeration: ts_sign and ts_update_verify    *)
(* tell by comparing                                                       *)
S0 == 0  SForsLeaf == 1  SFors == 2  SWots == 3  SMerkle == 4  SDone == 5
V0 == 6  VInit == 7  VForsLeaf == 8  VFors == 9  VWots == 10  VMerkle == 11  VSuccess == 12  VFail == 13

ZeroTree == "0000000000000000"
ZeroCtx == [P |-> <<>>, key |-> "", st |-> S0, buf |-> "", off |-> 0, hl |-> 0, ft |-> 0, ml |-> 0,
            node |-> 0, kp |-> 0, tree |-> ZeroTree, apb |-> "", bigadr |-> "", big |-> "",
            fors |-> <<>>, digit |-> 0, digits |-> <<>>, msg |-> ""]

Pk(c) == SubBytes(c.key, NBytes(c.key) - 2*c.P.n, 2*c.P.n)   \* the key pointer points at the public part
Seed(c) == SubBytes(Pk(c), 0, c.P.n)
Root(c) == SubBytes(Pk(c), c.P.n, c.P.n)
Sec(c) == SubBytes(c.key, 0, c.P.n)

(* The running hash: address and input so far                              *)
BigInit(c, adr) == [c EXCEPT !.bigadr = adr, !.big = ""]
BigNext(c, x) == [c EXCEPT !.big = @ \o x]
BigFinal(c) == Th(c.P, Seed(c), c.bigadr, c.big)

(* A right shift of the tree address by a layer, and its low bits          *)
TreeBits(tree, hp) == IntOf(LastBits(BitsOf(tree), hp))
TreeShift(tree, hp) == Bind(BitsOf(tree), LAMBDA b : HexOfBits(SubSeq(b, 1, 64 - hp), 8))

ForsAdr(c, type, leaf) == Adrs(c.P, 0, c.tree, type, c.kp, 0, c.ft * 2^c.P.t + leaf)
(* inner nodes of both kinds of tree: ft and kp are 0 in the hypertree     *)
MerkleAdr(c, type, node, level) ==
  Adrs(c.P, c.hl, c.tree, type, c.kp, level + 1, (c.ft * 2^c.P.t + node) \div 2^(level+1))
WotsHeadAdr(c, leaf) == Adrs(c.P, c.hl, c.tree, WOTSPK, leaf, 0, 0)

ForsPrf(c, leaf) == Prf(c.P, Seed(c), ForsAdr(c, FORSPRF, leaf), Sec(c))
GenForsLeaf(c, leaf) == Bind(ForsPrf(c, leaf), LAMBDA x : F(c.P, Seed(c), ForsAdr(c, FORSTREE, leaf), x))
GenWotsLeaf(c, leaf) ==                  \* ts_wots_leaf
  Bind(FoldLeft(LAMBDA s, i : s \o Chain(c.P, Seed(c), c.hl, c.tree, leaf, i-1,
                                         WotsSecret(c.P, Seed(c), Sec(c), c.hl, c.tree, leaf, i-1), 0, 15),
                "", UpTo(1, WotsLen(c.P))), LAMBDA tops :
       Th(c.P, Seed(c), WotsHeadAdr(c, leaf), tops))
GenLeaf(c, type, leaf) == IF type = FORSTREE THEN GenForsLeaf(c, leaf) ELSE GenWotsLeaf(c, leaf)

---------------------------------------------------------------------------
(* ts_merkle_path: the sibling subtree, leaf by leaf with a stack of one    *)
(* node per level; then the path node moves up                             *)
Bit(x, i) == (x \div 2^i) % 2
Flip(x, i) == IF Bit(x, i) = 1 THEN x - 2^i ELSE x + 2^i
Trail(i) == CHOOSE k \in 0..16 : i % 2^(k+1) # 2^(k+1) - 1 /\ i % 2^k = 2^k - 1      \* trailing ones
Join(c, type, node, level, l, r) == Th(c.P, Seed(c), MerkleAdr(c, type, node, level), l \o r)
MerklePath(c, type) ==
  LET h == c.ml
      node == (Flip(c.node, h) \div 2^h) * 2^h
      add(acc, i) ==                     \* acc: stack (level -> node) and the current node
        Bind(FoldLeft(LAMBDA x, k : Join(c, type, node + i, k, acc[1][k+1], x),
                      GenLeaf(c, type, node + i), UpTo(0, Trail(i) - 1)), LAMBDA x :
             <<IF Trail(i) < h THEN [acc[1] EXCEPT ![Trail(i)+1] = x] ELSE acc[1], x>>)
  IN Bind(FoldLeft(add, <<[k \in 1..h |-> "--"], "">>, UpTo(0, 2^h - 1))[2], LAMBDA b :
     [c EXCEPT !.ml = h + 1, !.buf = b, !.off = 0,
               !.apb = IF Bit(c.node, h) = 1 THEN Join(c, type, node, h, b, c.apb)
                                             ELSE Join(c, type, node, h, c.apb, b)])

---------------------------------------------------------------------------
SetPosition(c, dig) ==                   \* ts_convert_message_hash_to_hypertree_position
  Bind(IdxBits(c.P, dig), LAMBDA idx :
  [c EXCEPT !.fors = ForsLeaves(c.P, dig), !.tree = TreeAt(c.P, idx, 0), !.kp = LeafAt(c.P, idx, 0)])
ForsRootAdr(c) == Adrs(c.P, 0, c.tree, FORSPK, c.kp, 0, 0)

InitSignC(c, P, sk, msg, opt) ==         \* opt: OptRand, or "" without a (working) random function
  Bind([c EXCEPT !.P = P, !.key = sk], LAMBDA c1 :
  Bind(PrfMsg(P, SubBytes(sk, P.n, P.n), IF opt = "" THEN Seed(c1) ELSE opt, msg), LAMBDA r :
  Bind(SetPosition(c1, Digest(P, Pk(c1), r, msg)), LAMBDA c2 :
  BigInit([c2 EXCEPT !.buf = r, !.off = 0, !.st = SForsLeaf, !.ft = 0, !.ml = 0, !.hl = 0], ForsRootAdr(c2)))))

SetUpWots(c, leaf) == [c EXCEPT !.st = SWots, !.digit = 0, !.digits = Digits(c.P, c.apb), !.node = leaf, !.kp = 0]

(* The next node into the buffer                                           *)
StepForsLeaf(c) ==
  LET leaf == c.fors[c.ft + 1] IN
  [c EXCEPT !.node = leaf, !.buf = ForsPrf(c, leaf), !.off = 0, !.ml = 0, !.st = SFors, !.apb = GenForsLeaf(c, leaf)]
StepFors(c) ==
  Bind(MerklePath(c, FORSTREE), LAMBDA m :
  IF m.ml # c.P.t THEN m
  ELSE Bind([BigNext(m, m.apb) EXCEPT !.st = SForsLeaf, !.ft = c.ft + 1], LAMBDA m2 :
       IF m2.ft # c.P.k THEN m2
       ELSE Bind([m2 EXCEPT !.apb = BigFinal(m2), !.ft = 0], LAMBDA m3 : SetUpWots(m3, m3.kp))))
StepWots(c) ==
  Bind([c EXCEPT !.digit = c.digit + 1, !.off = 0,
          !.buf = Chain(c.P, Seed(c), c.hl, c.tree, c.node, c.digit,
                        WotsSecret(c.P, Seed(c), Sec(c), c.hl, c.tree, c.node, c.digit), 0, c.digits[c.digit + 1])], LAMBDA m :
  IF m.digit # WotsLen(c.P) THEN m
  ELSE [m EXCEPT !.st = SMerkle, !.ml = 0, !.apb = GenWotsLeaf(m, m.node)])
StepMerkle(c) ==
  Bind(MerklePath(c, TREE), LAMBDA m :
  IF m.ml # MerkleH(c.P) THEN m
  ELSE IF c.hl + 1 = c.P.d THEN [m EXCEPT !.hl = c.hl + 1, !.st = SDone]
  ELSE SetUpWots([m EXCEPT !.hl = c.hl + 1, !.tree = TreeShift(c.tree, MerkleH(c.P))], TreeBits(c.tree, MerkleH(c.P))))
StepSign(c) ==
  IF c.st = SForsLeaf THEN StepForsLeaf(c) ELSE IF c.st = SFors THEN StepFors(c)
  ELSE IF c.st = SWots THEN StepWots(c) ELSE StepMerkle(c)

(* ts_sign: <<context, bytes>>                                             *)
SLeast(a, b) == IF a < b THEN a ELSE b
RECURSIVE SignLoop(_,_,_)
SignLoop(c, k, out) ==
  IF k = 0 THEN <<c, out>>
  ELSE IF c.off < c.P.n
  THEN LET r == SLeast(c.P.n - c.off, k)
       IN SignLoop([c EXCEPT !.off = @ + r], k - r, out \o SubBytes(c.buf, c.off, r))
  ELSE IF c.st = SDone THEN <<c, out>>
  ELSE Bind(StepSign(c), LAMBDA m : SignLoop(m, k, out))
SignC(c, k) == IF c.st <= S0 \/ c.st >= V0 THEN <<c, "">> ELSE SignLoop(c, k, "")

---------------------------------------------------------------------------
(* Verification                                                            *)
InitVerifyC(c, P, pk, msg) == [c EXCEPT !.P = P, !.key = pk, !.st = VInit, !.off = 0, !.msg = msg]
NextAuth(c, type) ==                     \* next_auth_path
  [c EXCEPT !.ml = c.ml + 1,
            !.apb = IF Bit(c.node, c.ml) = 1 THEN Join(c, type, c.node, c.ml, c.buf, c.apb)
                                             ELSE Join(c, type, c.node, c.ml, c.apb, c.buf)]
SetUpWotsV(c, leaf) ==
  Bind([SetUpWots(c, leaf) EXCEPT !.st = VWots], LAMBDA m : [BigInit(m, WotsHeadAdr(m, leaf)) EXCEPT !.ml = 0])
StepVInit(c) ==
  Bind(SetPosition(c, Digest(c.P, Pk(c), c.buf, c.msg)), LAMBDA m :
  BigInit([m EXCEPT !.st = VForsLeaf, !.ft = 0, !.ml = 0, !.hl = 0], ForsRootAdr(m)))
StepVForsLeaf(c) ==
  LET leaf == c.fors[c.ft + 1] IN
  [c EXCEPT !.node = leaf, !.ml = 0, !.apb = F(c.P, Seed(c), ForsAdr(c, FORSTREE, leaf), c.buf), !.st = VFors]
StepVFors(c) ==
  Bind(NextAuth(c, FORSTREE), LAMBDA m :
  IF m.ml # c.P.t THEN m
  ELSE Bind([BigNext(m, m.apb) EXCEPT !.st = VForsLeaf, !.ft = c.ft + 1], LAMBDA m2 :
       IF m2.ft # c.P.k THEN m2
       ELSE Bind([m2 EXCEPT !.apb = BigFinal(m2), !.ft = 0], LAMBDA m3 : SetUpWotsV(m3, m3.kp))))
StepVWots(c) ==
  Bind(Chain(c.P, Seed(c), c.hl, c.tree, c.node, c.digit, c.buf, c.digits[c.digit + 1], 15), LAMBDA top :
  Bind([BigNext(c, top) EXCEPT !.buf = top, !.digit = c.digit + 1], LAMBDA m :
  IF m.digit # WotsLen(c.P) THEN m ELSE [m EXCEPT !.apb = BigFinal(m), !.st = VMerkle]))
StepVMerkle(c, left) ==                  \* left: bytes of this call beyond this node
  Bind(NextAuth(c, TREE), LAMBDA m :
  IF m.ml # MerkleH(c.P) THEN m
  ELSE IF c.hl + 1 < c.P.d
  THEN SetUpWotsV([m EXCEPT !.hl = c.hl + 1, !.tree = TreeShift(c.tree, MerkleH(c.P))], TreeBits(c.tree, MerkleH(c.P)))
  ELSE [m EXCEPT !.hl = c.hl + 1, !.st = IF left = 0 /\ m.apb = Root(c) THEN VSuccess ELSE VFail])
StepVerify(c, left) ==
  IF c.st = VInit THEN StepVInit(c) ELSE IF c.st = VForsLeaf THEN StepVForsLeaf(c)
  ELSE IF c.st = VFors THEN StepVFors(c) ELSE IF c.st = VWots THEN StepVWots(c)
  ELSE IF c.st = VMerkle THEN StepVMerkle(c, left) ELSE [c EXCEPT !.st = VFail]

(* ts_update_verify: <<context, return value>>                             *)
RECURSIVE FeedLoop(_,_)
FeedLoop(c, d) ==
  LET r == SLeast(c.P.n - c.off, NBytes(d))
      left == NBytes(d) - r
      b == SubBytes(c.buf, 0, c.off) \o SubBytes(d, 0, r) \o
             (IF NBytes(c.buf) > c.off + r THEN SubBytes(c.buf, c.off + r, NBytes(c.buf) - c.off - r) ELSE "")
  IN IF c.off + r < c.P.n THEN <<[c EXCEPT !.buf = b, !.off = @ + r], 1>>
     ELSE Bind(StepVerify([c EXCEPT !.buf = SubBytes(b, 0, c.P.n), !.off = 0], left), LAMBDA m :
          IF m.st = VSuccess THEN <<m, 1>> ELSE IF m.st = VFail THEN <<m, 0>>
          ELSE FeedLoop(m, SubBytes(d, r, left)))
FeedC(c, d) == IF c.st <= V0 \/ c.st >= VFail THEN <<c, 0>> ELSE FeedLoop(c, d)
VerdictC(c) == IF c.st = VSuccess /\ c.off = 0 THEN 1 ELSE 0

---------------------------------------------------------------------------
(* Key generation: the top tree, path by path from leaf 0                  *)
GenKeyC(P, random) ==
  Bind([ZeroCtx EXCEPT !.P = P, !.key = random \o Zeros(P.n), !.off = P.n, !.hl = P.d - 1], LAMBDA c :
  Bind([c EXCEPT !.apb = GenWotsLeaf(c, 0)], LAMBDA c1 :
  random \o FoldLeft(LAMBDA m, i : MerklePath(m, TREE), c1, UpTo(1, MerkleH(P))).apb))
=============================================================================
