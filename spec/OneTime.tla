------------------------------ MODULE OneTime ------------------------------
(***************************************************************************)
(* One-time use of secrets: what a signature reveals, and when a set of    *)
(* revelations is consistent.                                              *)
(*   wots   <<layer, tree, leaf>>        -> WOTS+ signature and path       *)
(*   fors   <<tree, key pair, index>>    -> secret and path                *)
(*   place  chain start or FORS secret   -> the place it was revealed at   *)
(* A place may be revealed again only with the same value, and a value     *)
(* only at the same place.  (Which values they are is not this module's    *)
(* concern.)  A chain value of digit 0 is the secret itself; other chain   *)
(* values are kept too: no two chains may ever show a common value.        *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE Hash
LOCAL INSTANCE ParamSets
LOCAL INSTANCE Sphincs

(* The places a signature reveals: a sequence of <<place, value, secrets>>,  *)
(* secrets a sequence of <<place of the secret, its value>>.  s may be only  *)
(* the first part of a signature: what is complete in it counts.             *)
Least(a, b) == IF a < b THEN a ELSE b
After(P, s, from, size) == IF NBytes(s) < from THEN 0 ELSE (NBytes(s) - from) \div size
ForsPlaces(P, s, leaves, tree, kp) ==
  [i \in 1..Least(P.k, After(P, s, P.n, (P.t+1) * P.n)) |->
     LET ix == (i-1) * 2^P.t + leaves[i]
         o == P.n + (i-1) * (P.t+1) * P.n
         pl == <<"fors", tree, kp, ix>>
     IN <<pl, SubBytes(s, o, (P.t+1) * P.n), << <<pl, SubBytes(s, o, P.n)>> >> >>]
WotsPlaces(P, s, idx) ==
  [j \in 1..Least(P.d, After(P, s, P.n + P.k * (P.t+1) * P.n, (WotsLen(P) + MerkleH(P)) * P.n)) |->
     LET len == (WotsLen(P) + MerkleH(P)) * P.n
         o == P.n + P.k * (P.t+1) * P.n + (j-1) * len
         pl == <<"wots", j-1, TreeAt(P, idx, j-1), LeafAt(P, idx, j-1)>>
     IN <<pl, SubBytes(s, o, len),
          [c \in 1..WotsLen(P) |-> <<pl \o <<c>>, SubBytes(s, o + (c-1)*P.n, P.n)>>]>>]
RevealsAt(P, s, leaves, idx) == ForsPlaces(P, s, leaves, TreeAt(P, idx, 0), LeafAt(P, idx, 0)) \o WotsPlaces(P, s, idx)
Reveals(P, sk, msg, s) ==
  Bind(Digest(P, PkOf(P, sk), SubBytes(s, 0, P.n), msg), LAMBDA dig :
    Bind(IdxBits(P, dig), LAMBDA idx : RevealsAt(P, s, ForsLeaves(P, dig), idx)))

(* What has been revealed so far, as sets of <<owner, place, value>>: whole  *)
(* pieces (shown) and single secrets (told).  The owner is the parameter set *)
(* and the whole private key.                                                *)
Pieces(o, rev) == {<<o, rev[i][1], rev[i][2]>> : i \in DOMAIN rev}
Secrets(o, rev) == UNION {{<<o, rev[i][3][j][1], rev[i][3][j][2]>> : j \in DOMAIN rev[i][3]} : i \in DOMAIN rev}
(* A place has one value *)
OneValue(S) == Cardinality(S) = Cardinality({<<x[1], x[2]>> : x \in S})
(* A value has one place *)
OnePlace(S) == Cardinality(S) = Cardinality({<<x[1], x[3]>> : x \in S})
=============================================================================
