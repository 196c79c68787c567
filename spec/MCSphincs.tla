----------------------------- MODULE MCSphincs -----------------------------
(***************************************************************************)
(* The operators of Sphincs.tla that have Java overrides for speed (Chain, *)
(* WotsPk, XmssNode, ForsNode) against their TLA+ definitions, at places   *)
(* all over the trees of several shapes, both families, every node size.   *)
(* One behaviour per shape and place.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, SequencesExt, Hash, ParamSets, Sphincs
VARIABLES fam, n, place, spike

P == Spiky(Par(fam, n, 3, 2, 66, 22), spike)
X(i) == TLCEval(ToHex([j \in 1..n |-> (i * 37 + j * 11 + n) % 256]))
Seed == X(1)
SkSeed_ == X(2)
(* layer, tree, leaf / key pair                                            *)
Places == << <<0, "0000000000000000", 0>>, <<0, "8000000000000001", 7>>, <<1, "00000000ffffffff", 3>>, <<21, "0000000000000000", 5>>,
             <<0, "7fffffffffffffff", 6>>, <<5, "0000000100000000", 1>> >>
Init == fam \in {"sha2", "shake"} /\ n \in {16, 24, 32} /\ place = 1 /\ spike \in {0, 1}
Next == place < Len(Places) /\ place' = place + 1 /\ UNCHANGED <<fam, n, spike>>
Spec == Init /\ [][Next]_<<fam, n, place, spike>>

L == Places[place][1]
T == Places[place][2]
K == Places[place][3]
ChainsAgree == \A r \in {<<0, 15>>, <<0, 0>>, <<3, 9>>, <<14, 15>>, <<15, 15>>} : \A c \in {0, 1, WotsLen(P) - 1} :
  PureChain(P, Seed, L, T, K, c, X(3), r[1], r[2]) = Chain(P, Seed, L, T, K, c, X(3), r[1], r[2])
WotsAgree == PureWotsPk(P, Seed, SkSeed_, L, T, K) = WotsPk(P, Seed, SkSeed_, L, T, K)
XmssAgree == \A z \in 0..2 : \E i \in {(2^(3-z) - 1) - (place % 2)} :
  PureXmssNode(P, Seed, SkSeed_, L, T, z, i) = XmssNode(P, Seed, SkSeed_, L, T, z, i)
ForsAgree == \A z \in 0..2 : \A i \in 0..(3 * 2^(2-z) - 1) :
  PureForsNode(P, Seed, SkSeed_, T, K, z, i) = ForsNode(P, Seed, SkSeed_, T, K, z, i)
=============================================================================
