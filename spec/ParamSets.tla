----------------------------- MODULE ParamSets -----------------------------
(***************************************************************************)
(* The twelve parameter sets of the library, and the sizes that follow     *)
(* from a parameter record.                                                *)
(*   fam  hash family      n  bytes per node                               *)
(*   k    FORS trees       t  height of a FORS tree                        *)
(*   h    hypertree height d  layers                                       *)
(***************************************************************************)
LOCAL INSTANCE Naturals

(*   spike  node hashes and digests often take extreme values (Sphincs.tla): *)
(*          never in a real set, but a way to extreme digits and positions    *)
Par(fam, n, k, t, h, d) == [fam |-> fam, n |-> n, k |-> k, t |-> t, h |-> h, d |-> d, spike |-> FALSE]
Spiky(P, how) == [P EXCEPT !.spike = (how = 1)]

Shapes == [ f128 |-> <<16, 33,  6, 66, 22>>, s128 |-> <<16, 14, 12, 63, 7>>,
            f192 |-> <<24, 33,  8, 66, 22>>, s192 |-> <<24, 17, 14, 63, 7>>,
            f256 |-> <<32, 35,  9, 68, 17>>, s256 |-> <<32, 22, 14, 64, 8>> ]
OfShape(fam, s) == Par(fam, s[1], s[2], s[3], s[4], s[5])

StdSets == [ sha2_128f  |-> OfShape("sha2",  Shapes.f128), sha2_128s  |-> OfShape("sha2",  Shapes.s128),
             sha2_192f  |-> OfShape("sha2",  Shapes.f192), sha2_192s  |-> OfShape("sha2",  Shapes.s192),
             sha2_256f  |-> OfShape("sha2",  Shapes.f256), sha2_256s  |-> OfShape("sha2",  Shapes.s256),
             shake_128f |-> OfShape("shake", Shapes.f128), shake_128s |-> OfShape("shake", Shapes.s128),
             shake_192f |-> OfShape("shake", Shapes.f192), shake_192s |-> OfShape("shake", Shapes.s192),
             shake_256f |-> OfShape("shake", Shapes.f256), shake_256s |-> OfShape("shake", Shapes.s256) ]

MerkleH(P)  == P.h \div P.d            \* height of one Merkle tree
WotsLen(P)  == 2*P.n + 3               \* WOTS+ chains: w = 16, three checksum digits
SigNodes(P) == 1 + P.k * (P.t + 1) + P.d * WotsLen(P) + P.h
SigLen(P)   == P.n * SigNodes(P)
SkLen(P)    == 4 * P.n
PkLen(P)    == 2 * P.n

(* Which sets a configuration of tune.h provides (F sets of L1 always)     *)
Level(P) == IF P.n = 16 THEN 1 ELSE IF P.n = 24 THEN 3 ELSE 5
IsS(P)   == P.t >= 12
Supported(cfg, P) ==
  /\ (P.fam = "sha2" => cfg.sha2) /\ (P.fam = "shake" => cfg.shake)
  /\ (Level(P) = 3 => cfg.l3 \/ cfg.l5) /\ (Level(P) = 5 => cfg.l5)
  /\ (IsS(P) => cfg.s)
=============================================================================
