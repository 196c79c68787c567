------------------------------- MODULE MCBits -------------------------------
(***************************************************************************)
(* How the library cuts up a message digest and a node: the bit and byte   *)
(* counting of ts_convert_message_hash_to_hypertree_position,              *)
(* extract_int_from_hash, the shifting of the tree address from layer to   *)
(* layer, and compute_wots_digits, against the definitions of Sphincs.tla. *)
(* Bits are known by their place in the digest, so each shape is settled   *)
(* for every digest.  One behaviour per shape, one step per layer.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, SequencesExt
CONSTANTS Ks, Ts, Hs            \* Hs: 100 * height of the hypertree + layers
VARIABLES k, t, h, d, cut, layer, tree, leaf
vars == <<k, t, h, d, cut, layer, tree, leaf>>
hp == h \div d
UpTo(a, b) == [x \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + x - 1]
Ceil8(x) == (x + 7) \div 8

(* The loop over FORS bits: off and so_far as in the code; byte `off' has been shifted left so_far times, so its top bit  *)
(* is bit 8*off + so_far of the digest (from 0, most significant first)                                                    *)
OneBit(s, x) ==
  LET o == IF s.sofar = 8 THEN s.off + 1 ELSE s.off
      f == IF s.sofar = 8 THEN 0 ELSE s.sofar
  IN [off |-> o, sofar |-> f + 1, bits |-> Append(s.bits, 8*o + f)]
Cut == FoldLeft(OneBit, [off |-> 0, sofar |-> 0, bits |-> <<>>], UpTo(1, k*t))
CLeaves == [j \in 1..k |-> SubSeq(cut, (j-1)*t + 1, j*t)]
(* extract_int_from_hash: whole bytes from off+1 on, as many as hold `bits' bits, then all but the last `bits' masked      *)
Extract(off, bits) ==
  LET bytes == FoldLeft(LAMBDA s, x : s \o [y \in 1..8 |-> 8*x + y - 1], <<>>, UpTo(off + 1, off + Ceil8(bits)))
  IN SubSeq(bytes, Len(bytes) - bits + 1, Len(bytes))
CTree(off) == Extract(off, h - hp)
CKeypair(off) == Extract(off + Ceil8(h - hp), hp)

(* The specification: the digest is the FORS part, the tree part and the leaf part, each of whole bytes, the numbers in   *)
(* the first bits of the first and the last bits of the others                                                              *)
O1 == Ceil8(k*t)
L1 == Ceil8(h - hp)
L2 == Ceil8(hp)
Places(from, n) == [x \in 1..n |-> from + x - 1]
SpecLeaves == [j \in 1..k |-> Places((j-1)*t, t)]
SpecIdx == Places(8*(O1 + L1) - (h - hp), h - hp) \o Places(8*(O1 + L1 + L2) - hp, hp)

Shape == d > 1 /\ h % d = 0 /\ hp >= 1 /\ h - hp <= 64
Init == /\ k \in Ks /\ t \in Ts /\ \E x \in Hs : h = x \div 100 /\ d = x % 100
        /\ Shape
        /\ layer = 0 /\ cut = Cut.bits /\ \E off \in {Cut.off} : tree = CTree(off) /\ leaf = CKeypair(off)
(* to the layer above: the low bits of the tree address are the leaf, the rest is shifted down                              *)
Next == /\ layer + 1 < d
        /\ layer' = layer + 1
        /\ leaf' = SubSeq(tree, Len(tree) - hp + 1, Len(tree))
        /\ tree' = SubSeq(tree, 1, Len(tree) - hp)
        /\ cut' = <<>> /\ UNCHANGED <<k, t, h, d>>
Spec == Init /\ [][Next]_vars

CutRight == layer = 0 => CLeaves = SpecLeaves
(* the library asks for 49 bytes of digest whatever the shape                                                               *)
Enough == O1 + L1 + L2 <= 49 => (layer = 0 => \A x \in {tree[1], leaf[hp]} : x < 49*8)
LayerRight == /\ tree = SubSeq(SpecIdx, 1, h - (layer + 1)*hp)
              /\ leaf = SubSeq(SpecIdx, h - (layer + 1)*hp + 1, h - layer*hp)

---------------------------------------------------------------------------
(* WOTS+ digits of the checksum: sum = 30n minus the message digits         *)
Check(sum) == <<(sum \div 256) % 16, (sum \div 16) % 16, sum % 16>>
Value(c) == 256*c[1] + 16*c[2] + c[3]
ASSUME \A n \in {16, 24, 32} : \A s \in 0..(30*n) : Value(Check(s)) = s
(* one-time: larger message digits mean a smaller checksum, so some digit of it has to go down                              *)
ASSUME \A s \in 0..960 : \A r \in 0..(s - 1) : LET a == Check(s)  b == Check(r) IN b[1] < a[1] \/ b[2] < a[2] \/ b[3] < a[3]
=============================================================================
