------------------------------ MODULE TraceApi ------------------------------
(***************************************************************************)
(* Validation of a recorded execution (one JSON object per call) against   *)
(* Api.tla.  Environment:                                                  *)
(*   TRACE     the trace file                                              *)
(*   SIGMODE   spec   signatures are those Sphincs.tla computes            *)
(*             learn  all signing operations with equal arguments give     *)
(*                    equal bytes, whatever they are                       *)
(*   VALMODE   spec   a signature is valid when Sphincs.tla verifies it    *)
(*             own    ... when the library produced it for that key and    *)
(*                    message earlier in the trace                         *)
(*   KEYMODE   spec | learn   likewise for key generation                  *)
(* Every event also reports what was seen of the caller's memory ("clean": *)
(* nothing outside the documented output was written) and how the random   *)
(* function was called; a "fault" event (crash, sanitizer report, hang)    *)
(* matches no action.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, Hash, ParamSets, Sphincs

Trace == ndJsonDeserialize(IOEnv.TRACE)
SigMode == IOEnv.SIGMODE
ValMode == IOEnv.VALMODE
KeyMode == IOEnv.KEYMODE
N == Len(Trace)

VARIABLES
  l,        \* next event
  ctx,      \* the contexts (Api)
  bufs,     \* named byte strings of the trace
  sigs,     \* signing arguments -> what is known of the signature
  roots,    \* key generation: parameter set and 3n bytes -> root
  rtab,     \* <<ps, sk, msg, opt>> -> R
  cargs     \* context -> its signing arguments
vars == <<l, ctx, bufs, sigs, roots, rtab, cargs>>

(* Byte strings are hexadecimal strings here                               *)
HLen(b) == NBytes(b)
HSub(b, from, n) == SubBytes(b, from, n)
RECURSIVE HCat(_)
HCat(s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1]
           ELSE LET m == Len(s) \div 2 IN HCat(SubSeq(s, 1, m)) \o HCat(SubSeq(s, m+1, Len(s)))

(* Parameter sets: the standard ones, and shapes the trace declares        *)
Declared == {i \in 1..N : Trace[i].e = "ps"}
DeclId == TLCEval({Trace[i].id : i \in Declared})
DeclOf == TLCEval([id \in DeclId |->
             LET i == CHOOSE j \in Declared : Trace[j].id = id
                 b == StdSets[Trace[i].base]
             IN Spiky(Par(b.fam, b.n, Trace[i].k, Trace[i].t, Trace[i].h, Trace[i].d), Trace[i].spike)])
PsOf(id) == IF id \in DeclId THEN DeclOf[id] ELSE StdSets[id]

Get(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* Valid signatures                                                        *)
OwnSigs(req) == {sigs[a] : a \in {a \in DOMAIN sigs :
                   /\ a.ps = req.ps /\ a.msg = req.msg /\ PkOf(PsOf(a.ps), a.sk) = req.pk}}
GoodSig(req, s) ==
  IF ValMode = "spec" THEN Verify(PsOf(req.ps), req.pk, req.msg, s)
  ELSE HLen(s) = SigLen(PsOf(req.ps)) /\ s \in OwnSigs(req)
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
HonestPre(req, b) == \E s \in OwnSigs(req) : IsPre(b, s)

A == INSTANCE Api WITH Ctx <- 0..39, BLen <- HLen, BSub <- HSub, BCat <- HCat

---------------------------------------------------------------------------
Init == /\ l = 1
        /\ A!ApiInit
        /\ bufs = <<>> /\ sigs = <<>> /\ roots = <<>> /\ rtab = <<>> /\ cargs = <<>>

Ev == Trace[l]
Is(name) == l <= N /\ Ev.e = name /\ l' = l + 1
Clean == Ev.clean = 1

TPs   == Is("ps")  /\ UNCHANGED <<ctx, bufs, sigs, roots, rtab, cargs>>
TEnd  == Is("end") /\ UNCHANGED <<ctx, bufs, sigs, roots, rtab, cargs>>
TBuf  == Is("buf") /\ bufs' = Put(bufs, Ev.id, Ev.data) /\ UNCHANGED <<ctx, sigs, roots, rtab, cargs>>
TSize == /\ Is("size")
         /\ LET P == PsOf(Ev.ps) IN Ev.sk = SkLen(P) /\ Ev.pk = PkLen(P) /\ Ev.sig = SigLen(P)
         /\ UNCHANGED <<ctx, bufs, sigs, roots, rtab, cargs>>
TZero == Is("zero") /\ A!Clear(Ev.c) /\ UNCHANGED <<bufs, sigs, roots, rtab, cargs>>
TFill == Is("fill") /\ A!Scribble(Ev.c) /\ UNCHANGED <<bufs, sigs, roots, rtab, cargs>>

(* Key generation                                                          *)
TGenKey ==
  /\ Is("gen") /\ Clean
  /\ LET P == PsOf(Ev.ps)
         rnd == SubBytes(Ev.data, 0, 3*P.n)
         key == <<Ev.ps, rnd>>
         root == SubBytes(Ev.sk, 3*P.n, P.n)
         missing == Ev.rng = "null" \/ Ev.nosk = 1 \/ Ev.nops = 1
     IN IF missing \/ Ev.rng = "fail"
        THEN /\ Ev.ret = 0 /\ Ev.pubtouched = 0
             /\ ~ missing => Ev.asked = <<3*P.n>>
             /\ UNCHANGED roots
        ELSE /\ Ev.ret = 1
             /\ Ev.asked = <<3*P.n>>
             /\ SubBytes(Ev.sk, 0, 3*P.n) = rnd
             /\ IF KeyMode = "spec"
                THEN root = HtRoot(P, SubBytes(rnd, 0, P.n), SubBytes(rnd, 2*P.n, P.n)) /\ UNCHANGED roots
                ELSE Get(roots, key, root) = root /\ roots' = Put(roots, key, root)
             /\ IF Ev.pub = 1 THEN Ev.pk = SubBytes(Ev.sk, 2*P.n, 2*P.n) ELSE Ev.pubtouched = 0
  /\ UNCHANGED <<ctx, bufs, sigs, rtab, cargs>>

(* Signing                                                                 *)
OptOf(P) == IF Ev.rng = "ok" THEN SubBytes(Ev.data, 0, P.n) ELSE DetOpt(P, Ev.sk)
TInitSign ==
  /\ Is("isign") /\ Clean
  /\ LET P == PsOf(Ev.ps)
         a == [ps |-> Ev.ps, sk |-> Ev.sk, msg |-> Ev.msg, opt |-> OptOf(P)]
     IN /\ Ev.asked = IF Ev.rng = "null" THEN <<>> ELSE <<P.n>>
        /\ cargs' = Put(cargs, Ev.c, a)
        /\ sigs' = IF a \in DOMAIN sigs THEN sigs
                   ELSE Put(sigs, a, IF SigMode = "spec" THEN Sign(P, a.sk, a.msg, a.opt) ELSE "")
        /\ A!InitSign(Ev.c, a)
  /\ UNCHANGED <<bufs, roots, rtab>>

(* The contexts hold the signing arguments in place of the signature, so   *)
(* that a signature can be learned while it is produced: the part already  *)
(* known must be repeated, the rest is added to what is known.             *)
SigLenOf(c) == SigLen(PsOf(ctx[c].sig.ps))
TSign ==
  /\ Is("sign") /\ Clean /\ Ev.asked = <<>>
  /\ LET c == Ev.c  x == ctx[c] IN
     IF x.ph = "sign"
     THEN LET a == x.sig
              want == A!Min(Ev.k, SigLenOf(c) - x.pos)
              known == sigs[a]
              over == A!Min(want, HLen(known) - x.pos)      \* bytes of this output already known
          IN /\ Ev.ret = want /\ HLen(Ev.out) = want
             /\ HSub(Ev.out, 0, over) = HSub(known, x.pos, over)
             /\ sigs' = IF over = want THEN sigs
                        ELSE [sigs EXCEPT ![a] = known \o HSub(Ev.out, over, want - over)]
             /\ ctx' = [ctx EXCEPT ![c].pos = x.pos + want]
             \* R is a function of the arguments, and different OptRand give different R
             /\ LET P == PsOf(a.ps)  got == sigs'[a] IN
                IF HLen(got) >= P.n /\ a \notin DOMAIN rtab
                THEN /\ \A b \in DOMAIN rtab :
                           (b.ps = a.ps /\ b.sk = a.sk /\ b.msg = a.msg) => rtab[b] # HSub(got, 0, P.n)
                     /\ rtab' = Put(rtab, a, HSub(got, 0, P.n))
                ELSE UNCHANGED rtab
     ELSE /\ Ev.ret = 0 /\ x.ph \in {"zero", "ver"}
          /\ UNCHANGED <<ctx, sigs, rtab>>
  /\ UNCHANGED <<bufs, roots, cargs>>

(* Verification                                                            *)
TInitVerify ==
  /\ Is("iver") /\ Clean
  /\ A!InitVerify(Ev.c, [ps |-> Ev.ps, pk |-> Ev.pk, msg |-> Ev.msg], SigLen(PsOf(Ev.ps)))
  /\ UNCHANGED <<bufs, sigs, roots, rtab, cargs>>
FeedData ==
  IF Ev.b = "" THEN Ev.d
  ELSE LET d == SubBytes(bufs[Ev.b], Ev.o, Ev.l) IN
       IF Ev.x = <<>> THEN d
       ELSE SubBytes(d, 0, Ev.x[1]) \o XorByte(SubBytes(d, Ev.x[1], 1), Ev.x[2])
              \o SubBytes(d, Ev.x[1] + 1, HLen(d) - Ev.x[1] - 1)
(* A chunk that goes on for `more' bytes beyond the part that is recorded:  *)
(* that part reaches the end of the signature, and what lies beyond        *)
(* matters no more than one byte does (Api!FeedNext looks at the length)   *)
More == IF "more" \in DOMAIN Ev /\ Ev.more > 0 THEN "00" ELSE ""
TFeed == /\ Is("feed") /\ Clean
         /\ LET x == ctx[Ev.c] IN More # "" /\ x.ph = "ver" /\ x.st = "open" => x.n + Ev.l >= x.len
         /\ A!Feed(Ev.c, FeedData \o More, Ev.ret, GoodSig, HonestPre)
         /\ UNCHANGED <<bufs, sigs, roots, rtab, cargs>>
TVer  == Is("ver")  /\ Clean /\ A!Ask(Ev.c, Ev.ret) /\ UNCHANGED <<bufs, sigs, roots, rtab, cargs>>

Next == \/ TPs \/ TEnd \/ TBuf \/ TSize \/ TZero \/ TFill \/ TGenKey
        \/ TInitSign \/ TSign \/ TInitVerify \/ TFeed \/ TVer
Spec == Init /\ [][Next]_vars
(* Events carry all arguments and results, so l determines the state.      *)
View == l
Accepted ==
  LET reached == TLCGet("stats").diameter - 1 IN
  /\ PrintT(<<"REACHED", reached, "OF", N>>)
  /\ reached = N
=============================================================================
