-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What a caller of the streaming interface observes: a set of context     *)
(* structures, each in one of the phases                                   *)
(*   zero   all bytes zero, never initialized                              *)
(*   raw    arbitrary contents                                             *)
(*   sign   signing: sig is the signature, pos the bytes handed out        *)
(*   ver    verifying: fed is what has been fed (a sequence of chunks)     *)
(* Every call names its context and changes only that context.             *)
(*                                                                         *)
(* Byte strings are abstract here: B* are operations on them.  Trace       *)
(* validation instantiates this module with hexadecimal strings and real   *)
(* signatures, MCApi and MCStream with tuples of model values.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS
  Ctx,              \* context structures
  BLen(_),          \* length in bytes
  BSub(_,_,_),      \* BSub(b, from, len): part of a byte string, from is 0-based
  BCat(_)           \* a sequence of byte strings, concatenated
VARIABLE ctx

Zero == [ph |-> "zero"]
Raw  == [ph |-> "raw"]
Min(a, b) == IF a < b THEN a ELSE b
Chunk0 == <<>>
FedLen(x) == x.n

ApiInit == ctx = [c \in Ctx |-> Zero]

---------------------------------------------------------------------------
(* Initialization is possible from any phase                               *)
InitSign(c, sig)       == ctx' = [ctx EXCEPT ![c] = [ph |-> "sign", sig |-> sig, pos |-> 0]]
InitVerify(c, req, len) == ctx' = [ctx EXCEPT ![c] = [ph |-> "ver", req |-> req, len |-> len, fed |-> Chunk0, n |-> 0, st |-> "open"]]
Scribble(c)            == ctx' = [ctx EXCEPT ![c] = Raw]
Clear(c)               == ctx' = [ctx EXCEPT ![c] = Zero]

(* ts_sign(dest, k, c) returned r and wrote the r bytes out                *)
SignReturns(c, k) ==
  IF ctx[c].ph = "sign" THEN Min(k, BLen(ctx[c].sig) - ctx[c].pos) ELSE 0
SignOut(c, k) ==
  IF ctx[c].ph = "sign" THEN BSub(ctx[c].sig, ctx[c].pos, SignReturns(c, k)) ELSE BCat(<<>>)
Sign(c, k) ==
  /\ ctx[c].ph \in {"zero", "sign", "ver"}
  /\ IF ctx[c].ph = "sign"
     THEN ctx' = [ctx EXCEPT ![c].pos = @ + SignReturns(c, k)]
     ELSE UNCHANGED ctx

(* ts_update_verify(d, m, c) returned r                                    *)
AddChunk(x, d) ==
  LET f == IF BLen(d) = 0 THEN x.fed
           ELSE IF Len(x.fed) >= 60 THEN <<BCat(Append(x.fed, d))>> ELSE Append(x.fed, d)
  IN [x EXCEPT !.fed = f, !.n = @ + BLen(d)]
(* Good(req, sig): sig is a valid signature for verification request req;  *)
(* Honest(req, b): b is a prefix of a signature known to be valid for req  *)
(* What a context may become when feeding d returned r (empty: r is wrong) *)
FeedNext(x, d, r, Good(_,_), Honest(_,_)) ==
  IF x.ph # "ver" THEN (IF r = 0 THEN {x} ELSE {})
  ELSE IF x.st = "failed" THEN (IF r = 0 THEN {x} ELSE {})
  ELSE IF x.st = "open" THEN
    IF x.n + BLen(d) < x.len THEN           \* still incomplete; a bad prefix may be reported early
      IF r = 1 THEN {AddChunk(x, d)}
      ELSE IF r = 0 /\ ~ Honest(x.req, BCat(Append(x.fed, d))) THEN {[x EXCEPT !.st = "failed"]} ELSE {}
    ELSE IF x.n + BLen(d) = x.len THEN      \* complete: the call tells
      LET ok == Good(x.req, BCat(Append(x.fed, d))) IN
      IF r = (IF ok THEN 1 ELSE 0)
      THEN {[x EXCEPT !.st = IF ok THEN "accepted" ELSE "failed", !.n = x.len, !.fed = Chunk0]}
      ELSE {}
    ELSE IF r = 0 THEN {[x EXCEPT !.st = "failed"]} ELSE {}
  ELSE                                      \* accepted, or accepted and then overrun
    IF BLen(d) = 0 THEN
      IF r = 1 THEN {x} ELSE IF r = 0 /\ x.st = "over" THEN {[x EXCEPT !.st = "failed"]} ELSE {}
    ELSE IF r = 1 THEN {[x EXCEPT !.st = "over"]} ELSE IF r = 0 THEN {[x EXCEPT !.st = "failed"]} ELSE {}
Feed(c, d, r, Good(_,_), Honest(_,_)) ==
  /\ ctx[c].ph \in {"zero", "sign", "ver"}
  /\ \E y \in FeedNext(ctx[c], d, r, Good, Honest) : ctx' = [ctx EXCEPT ![c] = y]

(* ts_verify(c) returned r                                                 *)
Verdict(c) == IF ctx[c].ph = "ver" /\ ctx[c].st = "accepted" THEN 1 ELSE 0
Ask(c, r) ==
  /\ ctx[c].ph \in {"zero", "sign", "ver"}
  /\ r = Verdict(c)
  /\ UNCHANGED ctx
=============================================================================
