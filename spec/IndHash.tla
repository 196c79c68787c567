------------------------------ MODULE IndHash ------------------------------
(***************************************************************************)
(* The buffering of the incremental hash functions (MCHashBuf without the  *)
(* bytes), for inputs, updates and outputs of every size: nothing here is  *)
(* bounded.  Apalache proves the invariant inductive for each block size.  *)
(* A step is one turn of a loop.  Bytes are known by where they come from: *)
(* byte i of the buffer is byte base+i of the text, the block compressed   *)
(* as number j has to be bytes j*B .. j*B+B-1 of the text.  straight says  *)
(* that so far it was.  Likewise for the sponge: byte pos+i of the block   *)
(* absorbed as number j is byte j*B+pos+i of the text, and byte number x   *)
(* of the output is byte x mod B of the state after 1 + x div B further    *)
(* permutations.                                                           *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  B,
  \* @type: Int;
  LenB
VARIABLES
  \* @type: Str;
  kind,
  \* @type: Str;
  ph,
  \* @type: Int;
  num,
  \* @type: Int;
  base,
  \* @type: Int;
  blocks,
  \* @type: Int;
  src,
  \* @type: Int;
  inc,
  \* @type: Int;
  fed,
  \* @type: Int;
  msg,
  \* @type: Int;
  out,
  \* @type: Bool;
  straight

CInit256 == B = 64 /\ LenB = 8
CInit512 == B = 128 /\ LenB = 16
CInitShake == B = 136 /\ LenB = 0
Least(a, b) == IF a < b THEN a ELSE b

(* "sha" starts empty, or resumed after one block ("restore_state")        *)
Init == /\ kind \in (IF LenB = 0 THEN {"shake"} ELSE {"sha"})
        /\ ph = "in" /\ num = 0 /\ base = 0 /\ blocks \in (IF LenB = 0 THEN {0} ELSE {0, 1})
        /\ src = blocks * B /\ inc = 0 /\ fed = blocks * B /\ msg = 0 /\ out = 0 /\ straight = TRUE

(* update: any number of bytes; padding uses the same function             *)
Update(m, where) == /\ inc' = m /\ fed' = fed + m /\ ph' = where
                    /\ UNCHANGED <<kind, num, base, blocks, src, out, straight>>
CallUpdate == ph = "in" /\ inc = 0 /\ \E m \in Nat : Update(m, "in") /\ UNCHANGED msg

ShaTurn ==
  /\ kind = "sha" /\ inc > 0
  /\ \E step \in {Least(B - num, inc)} :
       /\ src' = src + step /\ UNCHANGED <<kind, ph, fed, msg, out>>
       /\ IF step = B                            \* straight from the caller's memory
          THEN /\ straight' = (straight /\ src = blocks * B)
               /\ blocks' = blocks + 1 /\ num' = 0 /\ inc' = inc - step /\ UNCHANGED base
          ELSE /\ base' = IF num = 0 THEN src ELSE base
               /\ IF step + num < B
                  THEN /\ num' = num + step /\ inc' = 0 /\ UNCHANGED blocks
                       /\ straight' = (straight /\ (num = 0 \/ src = base + num))
                  ELSE /\ straight' = (straight /\ (num = 0 \/ src = base + num) /\ base' = blocks * B)
                       /\ blocks' = blocks + 1 /\ num' = 0 /\ inc' = inc - step
(* final: the mark; if there is no room for the length, zeros; zeros up to the length; the length                       *)
ShaMark == kind = "sha" /\ ph = "in" /\ inc = 0 /\ msg' = fed /\ Update(1, "mark")
ShaZeros == kind = "sha" /\ ph = "mark" /\ inc = 0 /\ num > B - LenB /\ Update(LenB, "zeros") /\ UNCHANGED msg
ShaFill == /\ kind = "sha" /\ inc = 0 /\ ((ph = "mark" /\ num <= B - LenB) \/ ph = "zeros")
           /\ ph' = "fill"
           /\ straight' = (straight /\ num <= B - LenB)             \* memset of a negative number of bytes
           /\ base' = blocks * B /\ num' = B - LenB
           /\ fed' = fed + (B - LenB - num) /\ src' = src + (B - LenB - num)
           /\ UNCHANGED <<kind, blocks, inc, msg, out>>
ShaLength == kind = "sha" /\ ph = "fill" /\ inc = 0 /\ Update(LenB, "length") /\ UNCHANGED msg

AbsorbTurn ==
  /\ kind = "shake" /\ ph = "in" /\ inc > 0
  /\ straight' = (straight /\ src = blocks * B + num)
  /\ UNCHANGED <<kind, ph, base, fed, msg, out>>
  /\ IF inc + num >= B
     THEN src' = src + (B - num) /\ inc' = inc - (B - num) /\ num' = 0 /\ blocks' = blocks + 1
     ELSE src' = src + inc /\ num' = num + inc /\ inc' = 0 /\ UNCHANGED blocks
(* the two domain bytes go to places num and B-1 of the block under way     *)
Finalize == /\ kind = "shake" /\ ph = "in" /\ inc = 0
            /\ straight' = (straight /\ num < B)
            /\ ph' = "out" /\ msg' = fed /\ num' = 0 /\ base' = blocks
            /\ UNCHANGED <<kind, blocks, src, inc, fed, out>>
(* squeezing: num bytes of the state are left; inc are still wanted; base: permutations before the output               *)
CallSqueeze == ph = "out" /\ inc = 0 /\ \E m \in Nat : inc' = m /\ UNCHANGED <<kind, ph, num, base, blocks, src, fed, msg, out, straight>>
SqueezeTurn ==
  /\ ph = "out" /\ inc > 0
  /\ UNCHANGED <<kind, ph, base, src, fed, msg>>
  /\ IF num > 0
     THEN \E c \in {Least(inc, num)} :
            /\ straight' = (straight /\ out = (blocks - base - 1) * B + (B - num))
            /\ num' = num - c /\ inc' = inc - c /\ out' = out + c /\ UNCHANGED blocks
     ELSE \E c \in {Least(inc, B)} :
            /\ straight' = (straight /\ out = (blocks - base) * B)
            /\ blocks' = blocks + 1 /\ num' = B - c /\ inc' = inc - c /\ out' = out + c
Next == CallUpdate \/ ShaTurn \/ ShaMark \/ ShaZeros \/ ShaFill \/ ShaLength \/ AbsorbTurn \/ Finalize \/ CallSqueeze \/ SqueezeTurn

---------------------------------------------------------------------------
(* Nothing is compressed, absorbed or given out in a wrong place; the text compressed in the end is the padded message: *)
(* the message, one mark, the fewest zeros that make it whole blocks, and the length in the last LenB bytes             *)
Done == kind = "sha" /\ ph = "length" /\ inc = 0
Safe == /\ straight
        /\ (Done => /\ num = 0 /\ fed = blocks * B
                    /\ fed >= msg + 1 + LenB /\ fed < msg + 1 + LenB + B)
Places ==
  /\ (ph = "in" => out = 0) /\ msg >= 0
  /\ inc >= 0 /\ num >= 0 /\ blocks >= 0 /\ fed >= 0 /\ out >= 0
  /\ (kind = "sha" =>
        /\ num < B
        /\ src = blocks * B + num /\ fed = src + inc
        /\ (num > 0 => base = blocks * B))
  /\ (kind = "shake" => num <= B /\ (ph = "in" => num < B /\ src = blocks * B + num /\ fed = src + inc))
  /\ (ph = "out" => base <= blocks /\ (num > 0 => blocks > base) /\ out = (blocks - base) * B - num)
Padding ==
  /\ (ph = "mark" => fed = msg + 1 /\ inc <= 1)
  /\ (ph = "zeros" => fed = msg + 1 + LenB /\ inc <= LenB
                      /\ (inc = 0 => num >= 1 /\ num < LenB)
                      /\ (inc > 0 => (num + inc > B /\ num + inc < B + LenB) \/ (num = 0 /\ inc < LenB)))
  /\ (ph = "fill" => inc = 0 /\ num = B - LenB /\ fed >= msg + 1 /\ fed < msg + 1 + B)
  /\ (ph = "length" => inc <= LenB /\ (num + inc = B \/ (num = 0 /\ inc = 0)) /\ fed >= msg + 1 + LenB /\ fed < msg + 1 + LenB + B)
  /\ (ph = "mark" /\ inc = 1 => num < B)
Kinds == /\ (kind = "sha" => LenB > 0 /\ ph \in {"in", "mark", "zeros", "fill", "length"})
         /\ (kind = "shake" => LenB = 0 /\ ph \in {"in", "out"})
Ind == Places /\ Padding /\ Kinds
Any == /\ kind \in {"sha", "shake"} /\ ph \in {"in", "mark", "zeros", "fill", "length", "out"}
       /\ num \in Int /\ base \in Int /\ blocks \in Int /\ src \in Int /\ inc \in Int /\ fed \in Int /\ msg \in Int /\ out \in Int
       /\ straight \in BOOLEAN
IndInit == Any /\ Ind /\ Safe
IndAndSafe == Ind /\ Safe
=============================================================================
