------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* The tree walk of the library (ts_merkle_path: a sibling subtree is made *)
(* leaf by leaf with a stack of one node per level, and the node on the    *)
(* path moves up), for every subtree of every tree of the heights that the *)
(* parameter sets use, without node values: a value is a token <<level,    *)
(* index>> saying which node it is, indices counted over all FORS trees as *)
(* in Sphincs.tla, and a hash gives the parent's token only if it gets the *)
(* two children in order under the parent's address.  (Stream.tla does it  *)
(* with values, for a few shapes.)                                         *)
(*                                                                         *)
(* One behaviour per height, FORS tree number and subtree; a step is one   *)
(* leaf.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, SequencesExt
CONSTANTS Trees                  \* 100 * height + number of the FORS tree (0 in the hypertree)
VARIABLES h, ft, lev, sub, i, stack, buf
vars == <<h, ft, lev, sub, i, stack, buf>>

Bit(x, b) == (x \div 2^b) % 2
Bad == <<99, 0>>
Leaf(node) == <<0, ft * 2^h + node>>                        \* gen_leaf: addressed by (fors_tree << t) + leaf
(* init_t, next_t twice, final_t under ts_set_merkle_adr(node, level)       *)
Join(node, level, l, r) ==
  LET adr == <<level + 1, (ft * 2^h + node) \div 2^(level + 1)>>
  IN IF l = <<level, 2 * adr[2]>> /\ r = <<level, 2 * adr[2] + 1>> THEN adr ELSE Bad

(* The node the path comes from: any leaf of the sibling of subtree sub     *)
OnPath(low) == LET s == IF sub % 2 = 1 THEN sub - 1 ELSE sub + 1 IN s * 2^lev + low
Flip(x, b) == IF Bit(x, b) = 1 THEN x - 2^b ELSE x + 2^b
Node(low) == (Flip(OnPath(low), lev) \div 2^lev) * 2^lev
Lows == {0, 2^lev - 1, (2^lev) \div 2, (2^lev) \div 3}

Empty == <<98, 0>>
Init == /\ \E q \in Trees : h = q \div 100 /\ ft = q % 100
        /\ lev \in 0..(h - 1) /\ sub \in 0..(2^(h - lev) - 1)
        /\ i = 0 /\ stack = [k \in 1..lev |-> Empty] /\ buf = Empty

Trail(x) == CHOOSE k \in 0..16 : x % 2^(k+1) # 2^(k+1) - 1 /\ x % 2^k = 2^k - 1      \* trailing ones
Next == /\ i < 2^lev
        /\ LET node == Node(0)
               k == Trail(i)
               b == FoldLeft(LAMBDA x, y : Join(node + i, y - 1, stack[y], x), Leaf(node + i), [y \in 1..k |-> y])
           IN /\ buf' = b
              /\ stack' = IF k < lev THEN [stack EXCEPT ![k + 1] = b] ELSE stack
        /\ i' = i + 1
        /\ UNCHANGED <<h, ft, lev, sub>>
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Global(level, index) == <<level, ft * 2^(h - level) + index>>
(* after i leaves the stack holds, for every one in i, the subtree made last at that level                            *)
StackRight == \A k \in 0..(lev - 1) : Bit(i, k) = 1 =>
                stack[k + 1] = Global(k, sub * 2^(lev - k) + (i \div 2^k) - 1)
(* at the end the buffer is the sibling node, and the path node moves to the parent, from either side                 *)
Right == i = 2^lev =>
  /\ buf = Global(lev, sub)
  /\ \A low \in Lows :
       LET a == OnPath(low)
           mine == Global(lev, a \div 2^lev)
       IN /\ Node(low) = sub * 2^lev
          /\ (IF Bit(a, lev) = 1 THEN Join(Node(low), lev, buf, mine) ELSE Join(Node(low), lev, mine, buf))
               = Global(lev + 1, sub \div 2)
          (* and when verifying (next_auth_path: addressed by the leaf on the path)                                    *)
          /\ (IF Bit(a, lev) = 1 THEN Join(a, lev, buf, mine) ELSE Join(a, lev, mine, buf)) = Global(lev + 1, sub \div 2)
=============================================================================
