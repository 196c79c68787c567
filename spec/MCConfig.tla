------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* The 144 settings of tune.h and what has to fit into the context.        *)
(* The sizes of tiny_sphincs.h are written as functions of the setting;    *)
(* for every setting and every parameter set it enables, everything a      *)
(* signing, verification or key generation run stores has to fit, and the  *)
(* small counters have to be wide enough.  One setting per initial state.  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, ParamSets
VARIABLE cfg

Configs == { c \in [l5 : BOOLEAN, l3 : BOOLEAN, shake : BOOLEAN, sha2 : BOOLEAN, s : BOOLEAN,
                    sha2opt : BOOLEAN, shakeopt : 0..2] : c.shake \/ c.sha2 }
Init == cfg \in Configs
Next == UNCHANGED cfg
Spec == Init /\ [][Next]_cfg

MaxHash(c)    == IF c.l5 THEN 32 ELSE IF c.l3 THEN 24 ELSE 16
MaxDigits(c)  == 2 * MaxHash(c) + 3
MaxFors       == 35
MaxT(c)       == IF c.s THEN (IF c.l5 \/ c.l3 THEN 14 ELSE 12)
                 ELSE IF c.l5 THEN 9 ELSE IF c.l3 THEN 8 ELSE 6
MaxMerkleH(c) == IF c.s THEN 9 ELSE IF c.l5 THEN 4 ELSE 3
ForsStack(c)  == (MaxT(c) - 1) * MaxHash(c)
MerkleStack(c) == (MaxMerkleH(c) - 1) * MaxHash(c)
MaxMessageHash == 49
AdrSize(c)    == IF c.shake THEN 32 ELSE 22

Sets(c) == {s \in DOMAIN StdSets : Supported(c, StdSets[s])}
CeilDiv8(x) == (x + 7) \div 8
DigestBytes(P) == CeilDiv8(P.k * P.t) + CeilDiv8(P.h - MerkleH(P)) + CeilDiv8(MerkleH(P))

Fits(c, P) ==
  /\ P.n <= MaxHash(c)                          \* buffer, auth_path_buffer, OptRand
  /\ WotsLen(P) <= MaxDigits(c)
  /\ P.k <= MaxFors
  /\ (P.t - 1) * P.n <= ForsStack(c)            \* the path algorithm needs one node per level below the top
  /\ (MerkleH(P) - 1) * P.n <= MerkleStack(c)
  /\ DigestBytes(P) <= MaxMessageHash           \* the message digest,
  /\ MaxMessageHash <= ForsStack(c)             \* which verification keeps where the FORS stack goes
  /\ (P.fam = "shake" => AdrSize(c) = 32) /\ (P.fam = "sha2" => AdrSize(c) >= 22)
(* Counters: bytes for levels, trees and digits; 16 bits for leaves; 64     *)
(* bits for the tree address; 32 bits for addresses within FORS             *)
Wide(P) ==
  /\ P.n < 256 /\ P.k < 256 /\ P.d < 256 /\ P.t < 256 /\ WotsLen(P) < 256
  /\ 2^P.t <= 65536 /\ 2^MerkleH(P) <= 65536
  /\ P.h - MerkleH(P) <= 64 /\ P.h % P.d = 0
  /\ P.k * 2^P.t < 2^30
  /\ 15 * 2 * P.n < 4096                        \* WOTS+ checksum in three digits
  /\ SigLen(P) < 65536

TypeOk == cfg \in Configs
EverythingFits == \A s \in Sets(cfg) : Fits(cfg, StdSets[s])
EverythingWide == \A s \in Sets(cfg) : Wide(StdSets[s])
AtLeastOne == Sets(cfg) # {}
(* the F set of level 1 of every enabled family is always there             *)
Level1 == (cfg.sha2 => "sha2_128f" \in Sets(cfg)) /\ (cfg.shake => "shake_128f" \in Sets(cfg))
(* Sizes of the SPHINCS+ specification                                      *)
ASSUME /\ SigLen(StdSets.sha2_128f) = 17088 /\ SigLen(StdSets.sha2_128s) = 7856
       /\ SigLen(StdSets.sha2_192f) = 35664 /\ SigLen(StdSets.sha2_192s) = 16224
       /\ SigLen(StdSets.sha2_256f) = 49856 /\ SigLen(StdSets.sha2_256s) = 29792
ASSUME Cardinality(Configs) = 144
(* digests of the specification: m bytes                                    *)
ASSUME /\ DigestBytes(StdSets.sha2_128f) = 34 /\ DigestBytes(StdSets.sha2_128s) = 30
       /\ DigestBytes(StdSets.sha2_192f) = 42 /\ DigestBytes(StdSets.sha2_192s) = 39
       /\ DigestBytes(StdSets.sha2_256f) = 49 /\ DigestBytes(StdSets.sha2_256s) = 47
=============================================================================
