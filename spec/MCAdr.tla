------------------------------- MODULE MCAdr -------------------------------
(***************************************************************************)
(* The address buffer of a context (ctx->adr): one per context, written    *)
(* field by field before every hash by the ts_set_..._adr functions, never *)
(* cleared.  Whatever it held before (garbage at first; afterwards what    *)
(* the hash before left), the bytes hashed are the address Sphincs.tla     *)
(* gives for that hash: the setters cover every byte, fields do not        *)
(* overlap, and nothing is cut off that a parameter set can need.          *)
(* A step is one hash of the library; two are enough to see every kind of  *)
(* hash after every other, at the extremes.  FORS leaves change only the   *)
(* type of the address of their secret (fors_leaf).                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, SequencesExt, Hash, ParamSets, Sphincs
CONSTANTS Layers, KeyPairs, Digits16, LeafBits
SomeLeaves == {<<9, 34, 511>>, <<14, 21, 16383>>, <<6, 0, 0>>}
VARIABLES fam, adr, last, want
vars == <<fam, adr, last, want>>
PP == [fam |-> fam, n |-> 16]

(* offsets and lengths of the fields, as in internal.h; SHA-2 compresses    *)
Off == IF fam = "sha2" THEN [layer |-> 0, tree |-> 1, type |-> 9,  kp |-> 10, height |-> 14, index |-> 18]
                       ELSE [layer |-> 0, tree |-> 4, type |-> 16, kp |-> 20, height |-> 24, index |-> 28]
Wid == IF fam = "sha2" THEN [layer |-> 1, tree |-> 8,  type |-> 1, kp |-> 4, height |-> 4, index |-> 4]
                       ELSE [layer |-> 4, tree |-> 12, type |-> 4, kp |-> 4, height |-> 4, index |-> 4]
Size == IF fam = "sha2" THEN 22 ELSE 32
Put(a, o, x) == SubBytes(a, 0, o) \o x \o SubBytes(a, o + NBytes(x), NBytes(a) - o - NBytes(x))
SetInt(a, f, v) == Put(a, Off[f], HexInt(v, Wid[f]))
SetTree(a, t) == Put(a, Off.tree, Zeros(Wid.tree - 8) \o t)
Set(a, layer, tree, type, kp, height, index) ==
  SetInt(SetInt(SetInt(SetInt(SetTree(SetInt(a, "layer", layer), tree), "type", type), "kp", kp), "height", height), "index", index)

Trees == {"0000000000000000", "ffffffffffffffff", "0102030405060708", "00000000ffffffff"}
Garbage == {Rep("ff", 32), Rep("a5", 32), Rep("00", 32)}

Init == /\ fam \in {"sha2", "shake"}
        /\ \E g \in Garbage : adr = SubBytes(g, 0, Size)
        /\ last = "none" /\ want = adr

Do(name, a, w) == last' = name /\ adr' = a /\ want' = w /\ UNCHANGED fam

(* FORS: t bits of leaf, tree number ft; hypertree: ft = kp = 0              *)
ForsHash ==
  \E tree \in Trees, kp \in KeyPairs, b \in LeafBits :
  LET t == b[1]  ft == b[2]  leaf == b[3]
      ix == ft * 2^t + leaf
  IN \/ Do("forsprf", Set(adr, 0, tree, FORSPRF, kp, 0, ix), Adrs(PP, 0, tree, FORSPRF, kp, 0, ix))
     \/ Do("forsleaf", Set(adr, 0, tree, FORSTREE, kp, 0, ix), Adrs(PP, 0, tree, FORSTREE, kp, 0, ix))
     \/ \E z \in {0, t - 1} :           \* ts_set_merkle_adr(node, level): the parent at level + 1
          Do("forsnode", Set(adr, 0, tree, FORSTREE, kp, z + 1, ix \div 2^(z + 1)), Adrs(PP, 0, tree, FORSTREE, kp, z + 1, ix \div 2^(z + 1)))
     \/ Do("forsroots", Set(adr, 0, tree, FORSPK, kp, 0, 0), Adrs(PP, 0, tree, FORSPK, kp, 0, 0))
LeafOfSecret ==                          \* fors_leaf: the secret's address with another type
  /\ last = "forsprf"
  /\ Do("leafofsecret", SetInt(adr, "type", FORSTREE),
        IF fam = "sha2" THEN Put(want, 9, "03") ELSE Put(want, 16, "00000003"))
WotsHash ==
  \E layer \in Layers, tree \in Trees, kp \in KeyPairs :
     \/ \E c \in {0, 34, 66} : Do("wotsprf", Set(adr, layer, tree, WOTSPRF, kp, c, 0), Adrs(PP, layer, tree, WOTSPRF, kp, c, 0))
     \/ \E c \in {0, 66}, d \in Digits16 : Do("wotsf", Set(adr, layer, tree, WOTS, kp, c, d), Adrs(PP, layer, tree, WOTS, kp, c, d))
     \/ Do("wotshead", Set(adr, layer, tree, WOTSPK, kp, 0, 0), Adrs(PP, layer, tree, WOTSPK, kp, 0, 0))
     \/ \E z \in {0, 8} : Do("node", Set(adr, layer, tree, TREE, 0, z + 1, kp \div 2^(z + 1)), Adrs(PP, layer, tree, TREE, 0, z + 1, kp \div 2^(z + 1)))
Next == ForsHash \/ LeafOfSecret \/ WotsHash
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Right == last # "none" => adr = want /\ NBytes(adr) = Size
View == <<fam, adr, want>>
OneToOne ==                              \* two hashes with the same address are of the same kind, at the same place
  last # "none" => LET f == IF fam = "sha2" THEN ByteAt(adr, 10) ELSE ByteAt(adr, 20)
                   IN f = CASE last \in {"forsleaf", "forsnode", "leafofsecret"} -> FORSTREE [] last = "forsprf" -> FORSPRF [] last = "forsroots" -> FORSPK
                             [] last = "wotsprf" -> WOTSPRF [] last = "wotsf" -> WOTS [] last = "wotshead" -> WOTSPK [] last = "node" -> TREE
=============================================================================
