----------------------------- MODULE MCHashBuf -----------------------------
(***************************************************************************)
(* The buffering of the incremental hash functions, shaped like sha256.c,  *)
(* sha512.c and the sponge of fips202.c, for every way of splitting the    *)
(* input (and, for the sponge, the output).  What the compression function *)
(* or the permutation computes does not matter here: bytes are tokens (the *)
(* i-th input byte is i), the chaining value is the list of blocks         *)
(* compressed so far, and the permuted state number j has bytes <<j, 0>>,  *)
(* <<j, 1>>, ...  A block compressed in place turns to junk, as the W      *)
(* array shares its storage.                                               *)
(*   B, LenB   block and length field (8, 2 here; 64, 8 and 128, 16 there) *)
(*   R         rate (4 here; 136 there)                                    *)
(* Three machines: "sha" from the start, "shaR" resumed from the saved     *)
(* state of one block, "shake".                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS B, LenB, R, MaxFed, MaxOut
VARIABLES kind, fed, st, ph, out

Junk == 100000
Mark == 50000          \* the byte 80
ZeroB == 50001         \* the byte 00
LenByte(n, i) == 60000 + 100*n + i
UpTo(a, b) == [i \in 1..(IF b >= a THEN b-a+1 ELSE 0) |-> a+i-1]
Least(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
(* SHA-2: num bytes in data, everything compressed so far in blocks        *)
Sha0 == [num |-> 0, data |-> [i \in 1..B |-> Junk], blocks |-> <<>>, count |-> 0]
RECURSIVE ShaLoop(_,_)
ShaLoop(s, p) ==
  IF Len(p) = 0 THEN s ELSE
  LET step == Least(B - s.num, Len(p))
      rest == SubSeq(p, step + 1, Len(p))
  IN IF step = B                            \* a whole block straight from the caller
     THEN ShaLoop([s EXCEPT !.num = 0, !.blocks = @ \o SubSeq(p, 1, B), !.data = [i \in 1..B |-> Junk]], rest)
     ELSE LET d == [i \in 1..B |-> IF i > s.num /\ i <= s.num + step THEN p[i - s.num] ELSE s.data[i]]
          IN IF s.num + step < B THEN [s EXCEPT !.num = @ + step, !.data = d]
             ELSE ShaLoop([s EXCEPT !.num = 0, !.blocks = @ \o d, !.data = [i \in 1..B |-> Junk]], rest)
ShaUpdate(s, p) == ShaLoop([s EXCEPT !.count = @ + Len(p)], p)
ShaFinal(s) ==
  LET n == s.count
      s1 == ShaUpdate(s, <<Mark>>)
      s2 == IF s1.num > B - LenB THEN ShaUpdate(s1, [i \in 1..LenB |-> ZeroB]) ELSE s1
      s3 == [s2 EXCEPT !.data = [i \in 1..B |-> IF i > s2.num /\ i <= B - LenB THEN ZeroB ELSE @[i]], !.num = B - LenB]
  IN ShaUpdate(s3, [i \in 1..LenB |-> LenByte(n, i)])
Pad(n) == LET z == (2*B - 1 - LenB - (n % B)) % B
          IN UpTo(1, n) \o <<Mark>> \o [i \in 1..z |-> ZeroB] \o [i \in 1..LenB |-> LenByte(n, i)]
(* saved after exactly one block, and resumed                              *)
ShaResumed == [num |-> 0, data |-> [i \in 1..B |-> Junk], blocks |-> UpTo(1, B), count |-> B]

---------------------------------------------------------------------------
(* The sponge: which tokens have been xored into each byte since the last   *)
(* permutation, the blocks absorbed, and pos (absorbing: bytes absorbed;    *)
(* squeezing: bytes left of the block)                                      *)
Fresh == [i \in 1..R |-> {}]
Sp0 == [s |-> Fresh, pos |-> 0, hist |-> <<>>, perms |-> 0]
Xor(a, x) == (a \ {x}) \cup ({x} \ a)
Permute(x) == [x EXCEPT !.hist = Append(@, x.s), !.s = Fresh, !.perms = @ + 1]
RECURSIVE Absorb(_,_)
Absorb(x, m) ==
  IF Len(m) + x.pos >= R
  THEN LET c == R - x.pos
       IN Absorb([Permute([x EXCEPT !.s = [i \in 1..R |-> IF i > x.pos THEN Xor(@[i], m[i - x.pos]) ELSE @[i]]]) EXCEPT !.pos = 0],
                 SubSeq(m, c + 1, Len(m)))
  ELSE [x EXCEPT !.s = [i \in 1..R |-> IF i > x.pos /\ i <= x.pos + Len(m) THEN Xor(@[i], m[i - x.pos]) ELSE @[i]],
                 !.pos = @ + Len(m)]
Finalize(x) ==
  [x EXCEPT !.s = [i \in 1..R |-> LET a == IF i = x.pos + 1 THEN Xor(@[i], Mark) ELSE @[i]
                                  IN IF i = R THEN Xor(a, Mark + 5) ELSE a], !.pos = 0]
(* Byte i of what the sponge holds after permutation j is <<j, i>>          *)
RECURSIVE Squeeze(_,_,_)
Squeeze(x, n, o) ==
  IF n = 0 THEN <<x, o>>
  ELSE IF x.pos > 0
  THEN LET c == Least(n, x.pos)
       IN Squeeze([x EXCEPT !.pos = @ - c], n - c, o \o [i \in 1..c |-> <<x.perms, R - x.pos + i>>])
  ELSE LET y == Permute(x)
           c == Least(n, R)
       IN Squeeze([y EXCEPT !.pos = R - c], n - c, o \o [i \in 1..c |-> <<y.perms, i>>])
PadHist(n) ==                               \* the blocks of the padded text
  LET z == R - 1 - (n % R)
      t == IF z = 0 THEN Append([i \in 1..n |-> {i}], {Mark, Mark + 5})
           ELSE [i \in 1..n |-> {i}] \o <<{Mark}>> \o [i \in 1..(z-1) |-> {}] \o <<{Mark + 5}>>
  IN [j \in 1..(Len(t) \div R) |-> SubSeq(t, (j-1)*R + 1, j*R)]
OutSpec(n, first) == [i \in 1..n |-> <<first + (i-1) \div R, ((i-1) % R) + 1>>]

---------------------------------------------------------------------------
Init == \/ kind = "sha"   /\ fed = 0 /\ st = Sha0       /\ ph = "in" /\ out = <<>>
        \/ kind = "shaR"  /\ fed = B /\ st = ShaResumed /\ ph = "in" /\ out = <<>>
        \/ kind = "shake" /\ fed = 0 /\ st = Sp0        /\ ph = "in" /\ out = <<>>
Sha == kind \in {"sha", "shaR"}
Update(k) == /\ ph = "in" /\ fed + k <= MaxFed
             /\ fed' = fed + k
             /\ st' = IF Sha THEN ShaUpdate(st, UpTo(fed + 1, fed + k)) ELSE Absorb(st, UpTo(fed + 1, fed + k))
             /\ UNCHANGED <<kind, ph, out>>
Final == /\ ph = "in" /\ ph' = "out"
         /\ st' = IF Sha THEN ShaFinal(st) ELSE Finalize(st)
         /\ UNCHANGED <<kind, fed, out>>
Take(k) == /\ ph = "out" /\ ~Sha /\ Len(out) + k <= MaxOut
           /\ LET x == Squeeze(st, k, <<>>) IN st' = x[1] /\ out' = out \o x[2]
           /\ UNCHANGED <<kind, fed, ph>>
Next == Final \/ \E k \in 0..MaxFed : Update(k) \/ (k <= MaxOut /\ Take(k))
Spec == Init /\ [][Next]_<<kind, fed, st, ph, out>>

---------------------------------------------------------------------------
(* What is buffered is what has been fed, whatever the split               *)
Buffered == ph = "in" =>
  IF Sha THEN /\ st.num < B /\ st.count = fed
              /\ st.blocks \o SubSeq(st.data, 1, st.num) = UpTo(1, fed)
              /\ Len(st.blocks) % B = 0
  ELSE /\ st.pos < R /\ st.pos = fed % R /\ Len(st.hist) = fed \div R
       /\ \A i \in 1..R : st.s[i] = (IF i <= st.pos THEN {fed - st.pos + i} ELSE {})
(* The blocks compressed are exactly the padded text; no junk gets in       *)
Padded == ph = "out" /\ Sha => st.blocks = Pad(fed) /\ st.num = 0
PaddedSponge == ph = "out" /\ ~Sha /\ Len(out) > 0 =>
  SubSeq(st.hist, 1, Len(PadHist(fed))) = PadHist(fed)
(* The output does not depend on how it is squeezed                         *)
OneOutput == ph = "out" /\ ~Sha => out = OutSpec(Len(out), fed \div R + 1)
=============================================================================
