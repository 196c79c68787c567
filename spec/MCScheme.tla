------------------------------ MODULE MCScheme ------------------------------
(***************************************************************************)
(* The scheme itself (Sphincs.tla), for shapes small enough to be gone     *)
(* through completely: one private key signs at every position of its      *)
(* hypertree with every set of FORS leaves, one signature per step.        *)
(*   Consistent  one value per place, one place per secret (OneTime.tla)   *)
(*   Everything  every place there is gets used                            *)
(*   Accepts     the signature verifies                                    *)
(*   Rejects     with any one node (other than R) changed, it does not     *)
(*   NewSums     two values signed by one WOTS+ key never are ordered      *)
(*               digit by digit: none can be derived from the other        *)
(*   Addresses   the encoding of hash addresses is one to one, and no two  *)
(*               hash calls of the scheme share an address                 *)
(* Verification goes by R, so positions are set through HMsg: SigRoot is   *)
(* evaluated with the position given instead (SigRootAt).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, FiniteSets, SequencesExt, Hash, ParamSets, Sphincs, OneTime
CONSTANTS Fam, NN, K, T, H, D, Changes
P == Par(Fam, NN, K, T, H, D)
n == P.n
SK == TLCEval(KeyGen(P, ToHex([j \in 1..(3*n) |-> (j * j * 5 + 29 * j + n) % 256])))
PK == PkOf(P, SK)
Owner == "key"
VARIABLES at, sig, shown, told

Positions == 2^H * 2^(K*T)
Bits(v, w) == [j \in 1..w |-> (v \div 2^(w-j)) % 2]
Idx(i) == Bits(i % 2^H, H)
Leaves(i) == [j \in 1..K |-> ((i \div 2^H) \div 2^(T*(K-j))) % 2^T]
RFor(i) == HexInt(i, n)
SigFor(i) == SignAt(P, SK, RFor(i), Leaves(i), Idx(i))

Init == at = 0 /\ sig = SigFor(0) /\ shown = {} /\ told = {}
Publish == \E rev \in {RevealsAt(P, sig, Leaves(at), Idx(at))} :
             shown' = shown \cup Pieces(Owner, rev) /\ told' = told \cup Secrets(Owner, rev)
Next == at < Positions /\ Publish /\ at' = at + 1 /\ sig' = IF at + 1 < Positions THEN SigFor(at + 1) ELSE ""
Spec == Init /\ [][Next]_<<at, sig, shown, told>>
View == at

Consistent == OneValue(shown) /\ OneValue(told) /\ OnePlace(told)
(* in the end every place there is has been used                            *)
Everything == at = Positions => Cardinality({x[2] : x \in shown}) =
   2^H * K * 2^T + FoldLeft(LAMBDA v, j : v + 2^(H - (j-1) * MerkleH(P)), 0, [j \in 1..D |-> j])
Accepts == at < Positions => NBytes(sig) = SigLen(P) /\ SigRootAt(P, PK, Leaves(at), Idx(at), sig) = PkRoot(P, PK)
(* change one node: the at-th, and others further on                       *)
ChangeNode(s, j, v) == SubBytes(s, 0, j*n) \o XorByte(SubBytes(s, j*n, n), v) \o SubBytes(s, (j+1)*n, NBytes(s) - (j+1)*n)
Rejects == at < Positions => \A q \in 0..(Changes-1) :
             SigRootAt(P, PK, Leaves(at), Idx(at), ChangeNode(sig, 1 + ((at * Changes + q) % (SigNodes(P) - 1)), 2^(at % 8))) # PkRoot(P, PK)
(* one message per WOTS+ key pair follows from OneValue; the checksum is what makes digits incomparable *)
SomeValues == {SubBytes(sig, j*n, n) : j \in {1, 2}} \cup {Zeros(n), Rep("ff", n), Rep("0f", n)}
NewSums == at < Positions => \A x, y \in SomeValues : x # y =>
             LET dx == Digits(P, x)  dy == Digits(P, y) IN \E i \in DOMAIN dx : dx[i] < dy[i]
DigitsRight == at < Positions => \A x \in SomeValues :
   LET d == Digits(P, x) IN
     /\ Len(d) = WotsLen(P) /\ \A i \in DOMAIN d : d[i] \in 0..15
     /\ 256 * d[2*n+1] + 16 * d[2*n+2] + d[2*n+3] = FoldLeft(LAMBDA s, i : s + 15 - d[i], 0, [i \in 1..(2*n) |-> i])
     /\ \A i \in 1..n : 16 * d[2*i-1] + d[2*i] = ByteAt(x, i)

(* All (layer, tree, type, w1, w2, w3) the scheme ever uses                *)
TreeName(v, j) == HexOfBits(Bits(v, H - (j+1) * MerkleH(P)), 8)
TreesOf(j) == {TreeName(v, j) : v \in 0..(2^(H - (j+1) * MerkleH(P)) - 1)}
KPs == 0..(2^MerkleH(P) - 1)
Uses ==
  UNION {
    {<<j, t, WOTS, p, c, i>> : t \in TreesOf(j), p \in KPs, c \in 0..(WotsLen(P)-1), i \in 0..14}
    \cup {<<j, t, WOTSPRF, p, c, 0>> : t \in TreesOf(j), p \in KPs, c \in 0..(WotsLen(P)-1)}
    \cup {<<j, t, WOTSPK, p, 0, 0>> : t \in TreesOf(j), p \in KPs}
    \cup {<<j, t, TREE, 0, z[1], z[2]>> : t \in TreesOf(j), z \in {<<a, b>> \in (1..MerkleH(P)) \X (0..2^MerkleH(P)) : b < 2^(MerkleH(P) - a)}}
    : j \in 0..(D-1)}
  \cup {<<0, t, FORSPRF, p, 0, i>> : t \in TreesOf(0), p \in KPs, i \in 0..(K * 2^T - 1)}
  \cup {<<0, t, FORSTREE, p, z[1], z[2]>> : t \in TreesOf(0), p \in KPs,
          z \in {<<a, b>> \in (0..T) \X (0..(K * 2^T)) : b < K * 2^(T - a)}}
  \cup {<<0, t, FORSPK, p, 0, 0>> : t \in TreesOf(0), p \in KPs}
Enc(u) == Adrs(P, u[1], u[2], u[3], u[4], u[5], u[6])
Addresses == at = 0 => /\ Cardinality({Enc(u) : u \in Uses}) = Cardinality(Uses)
                       /\ \A u \in Uses : NBytes(Enc(u)) = IF Fam = "sha2" THEN 22 ELSE 32
(* ... and so for the sets that are used: no field of their addresses overflows                            *)
ASSUME \A s \in DOMAIN StdSets : LET Q == StdSets[s] IN
         /\ Q.d <= 256 /\ Q.h - MerkleH(Q) <= 64 /\ Q.h = Q.d * MerkleH(Q) /\ MerkleH(Q) < 31
         /\ Q.k * 2^Q.t < 2^30 /\ 15 * 2 * Q.n < 16^3
         /\ DigestLen(Q) \in 30..49
(* Where digests lead: leaves and positions use disjoint bits, all of them                                 *)
ASSUME \A s \in DOMAIN StdSets : LET Q == StdSets[s] IN
         8 * DigestLen(Q) >= Q.k * Q.t + Q.h
=============================================================================
