------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* The library's streaming machine (Stream.tla) implements the interface   *)
(* (Api.tla) with the signatures and verdicts of Sphincs.tla: on one       *)
(* context, every sequence of initializations (from whatever state the     *)
(* context is in), requests of the sizes in Sizes, chunks of those sizes   *)
(* taken from one of several streams, verdicts and wrong-phase calls.      *)
(* Both run side by side; okay says that every result so far was allowed.  *)
(* Streams: the signature followed by further bytes; one with a byte       *)
(* changed; one made under another root; one for another message.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, FiniteSets, Hash, ParamSets, Sphincs, Stream, IOUtils
CONSTANTS Fam, NN, K, T, H, D, Sizes, Msgs, Mode, Points

P == Par(Fam, NN, K, T, H, D)
n == P.n
Rand == Rep("0102030405060708", (3*n) \div 8)
SK == TLCEval(KeyGen(P, Rand))
PK == PkOf(P, SK)
BadPk == TLCEval(SubBytes(PK, 0, 2*n - 1) \o XorByte(SubBytes(PK, 2*n - 1, 1), 1))
MsgOf(i) == HexInt(i, 2)
Len1 == SigLen(P)
SigOf == TLCEval([i \in 1..Msgs |-> Sign(P, SK, MsgOf(i), DetOpt(P, SK))])
Extra == Zeros(n + 1)
ChangeAt(s, i) == SubBytes(s, 0, i) \o XorByte(SubBytes(s, i, 1), 64) \o SubBytes(s, i + 1, NBytes(s) - i - 1)
(* what is fed when verifying message i: stream 1 good, 2 changed in the middle, 3 changed in the last byte, 4 another's *)
StreamOf == TLCEval([i \in 1..Msgs |->
   << SigOf[i] \o Extra, ChangeAt(SigOf[i], Len1 \div 2) \o Extra, ChangeAt(SigOf[i], Len1 - 1) \o Extra,
      SigOf[(i % Msgs) + 1] \o Extra >>])
Streams == IF Mode = "full" THEN 1..4 ELSE {1}

VARIABLES ctx, imp, feed, okay
(* The interface's context holds the index of the message; feed is the stream and the bytes taken from it *)
SLen(b) == NBytes(b)
SCat(s) == ""                             \* never looked at: Good goes by the stream
A == INSTANCE Api WITH Ctx <- {1}, BLen <- SLen, BSub <- SubBytes, BCat <- SCat

(* Is the stream, cut at the length of a signature, valid for the request (computed by Sphincs.tla)              *)
Reqs == {<<m, b>> : m \in 1..Msgs, b \in {0, 1}}
GoodTab == TLCEval([q \in Reqs |-> [s \in 1..4 |->
             Verify(P, IF q[2] = 1 THEN BadPk ELSE PK, MsgOf(q[1]), SubBytes(StreamOf[q[1]][s], 0, Len1))]])
Good(req, b) == GoodTab[req][feed.s]
Honest(req, b) == feed.s = 1

Init == /\ A!ApiInit
        /\ imp = ZeroCtx /\ feed = [s |-> 0, pos |-> 0] /\ okay = TRUE

DoInitSign(m) == /\ A!InitSign(1, SigOf[m])
                 /\ imp' = InitSignC(imp, P, SK, MsgOf(m), "")
                 /\ feed' = [s |-> 0, pos |-> 0] /\ UNCHANGED okay
DoInitVerify(m, bad, s) == /\ A!InitVerify(1, <<m, bad>>, Len1)
                           /\ imp' = InitVerifyC(imp, P, IF bad = 1 THEN BadPk ELSE PK, MsgOf(m))
                           /\ feed' = [s |-> s, pos |-> 0] /\ UNCHANGED okay
DoSign(k) == \E r \in {SignC(imp, k)} :
               /\ imp' = r[1]
               /\ okay' = (okay /\ r[2] = A!SignOut(1, k) /\ NBytes(r[2]) = A!SignReturns(1, k))
               /\ A!Sign(1, k) /\ UNCHANGED feed
(* the next k bytes of the stream (or zeros in the wrong phase)             *)
Chunk(k) == IF feed.s = 0 THEN Zeros(k)
            ELSE LET t == StreamOf[ctx[1].req[1]][feed.s]
                     m == IF k = 9999 /\ feed.pos < Len1 THEN Len1 - feed.pos ELSE k   \* 9999: just to the end
                 IN SubBytes(t, feed.pos, SLeast(m, NBytes(t) - feed.pos))
DoFeed(k) == /\ feed.s # 0 => k = 0 \/ feed.pos < Len1 + n + 1
             /\ \E d \in {Chunk(k)} : \E r \in {FeedC(imp, d)} :
                  LET next == A!FeedNext(ctx[1], d, r[2], Good, Honest) IN
                  /\ imp' = r[1]
                  /\ feed' = [feed EXCEPT !.pos = IF feed.s = 0 THEN 0 ELSE @ + NBytes(d)]
                  /\ IF next = {} THEN okay' = FALSE /\ UNCHANGED ctx
                     ELSE okay' = okay /\ \E y \in next : ctx' = [ctx EXCEPT ![1] = IF "fed" \in DOMAIN y THEN [y EXCEPT !.fed = <<>>] ELSE y]
DoAsk == /\ okay' = (okay /\ VerdictC(imp) = A!Verdict(1))
         /\ UNCHANGED <<ctx, imp, feed>>

(* Where an operation may be abandoned for another                         *)
AtPoint == \/ ctx[1].ph = "zero"
           \/ ctx[1].ph = "sign" /\ ctx[1].pos \in Points
           \/ ctx[1].ph = "ver" /\ (feed.pos \in Points \/ imp.st \in {VSuccess, VFail})
(* "full": every kind of call everywhere.  "pass": initialize once, whole   *)
(* nodes, to reach every position of a larger shape.                        *)
Next == \/ \E m \in 1..Msgs :
             /\ Mode = "full" \/ imp = ZeroCtx
             /\ Mode = "full" => AtPoint
             /\ \/ DoInitSign(m)
                \/ \E bad \in {0, 1}, s \in Streams : (Mode = "full" => bad = 0 \/ s = 1) /\ DoInitVerify(m, bad, s)
        \/ \E k \in Sizes : DoSign(k) \/ DoFeed(k)
        \/ feed.s # 0 /\ feed.pos >= Len1 /\ \E k \in {1, n - 1} : DoFeed(k)      \* a few bytes after the signature
        \/ DoAsk
Spec == Init /\ [][Next]_<<ctx, imp, feed, okay>>

Refines == okay
(* The unbounded proof (IndStream.tla) is about this machine: between calls, a context satisfies its invariant    *)
StName(x) == CASE x = SForsLeaf -> "sForsLeaf" [] x = SFors -> "sFors" [] x = SWots -> "sWots" [] x = SMerkle -> "sMerkle"
               [] x = SDone -> "sDone" [] x = VInit -> "vInit" [] x = VForsLeaf -> "vForsLeaf" [] x = VFors -> "vFors"
               [] x = VWots -> "vWots" [] x = VMerkle -> "vMerkle" [] x = VSuccess -> "vSuccess" [] x = VFail -> "vFail"
Total == IF ctx[1].ph = "sign" THEN ctx[1].pos ELSE feed.pos
GoodFeed == feed.s # 0 /\ ctx[1].ph = "ver" /\ GoodTab[ctx[1].req][feed.s]
IS == INSTANCE IndStream WITH n <- P.n, k <- P.k, t <- P.t, hp <- MerkleH(P), d <- P.d, st <- StName(imp.st), ft <- imp.ft,
        lev <- imp.ml, dig <- imp.digit, hl <- imp.hl, off <- imp.off, busy <- FALSE, req <- 0, left <- 0, ret <- 0,
        total <- Total, before <- Total, valid <- GoodFeed, rank <- 0, told <- (imp.st = VFail)
Inductive == imp.st \notin {S0, V0} => IS!Ranges /\ IS!Sign1 /\ IS!Feed1
KeyGenRight == GenKeyC(P, Rand) = SK
ASSUME KeyGenRight
ASSUME \A q \in Reqs : \A s \in 1..3 : GoodTab[q][s] = (q[2] = 0 /\ s = 1)
(* (stream 4 is for another message: with so few positions it may well be valid)                                     *)
(* everything of a context that later steps depend on has its place in the context: wrong-phase calls leave it alone *)
Stays == [][ (imp.st \in {SForsLeaf, SFors, SWots, SMerkle, SDone} /\ feed.s = 0 /\ ctx' = ctx) => imp' = imp ]_<<ctx, imp, feed>>
=============================================================================
