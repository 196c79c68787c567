------------------------------- MODULE GenApi -------------------------------
(***************************************************************************)
(* Api.tla as a generator of call sequences.  A signature is abstracted to *)
(* Blocks nodes of three bytes (first, inner, last); lengths and positions *)
(* are counted in those.  One context; every call the interface allows in  *)
(* every state: initializations, requests and chunks of every abstract     *)
(* size including none and too many, verdicts, calls in the wrong phase,   *)
(* clearing and scribbling.  TLC explores the graph and prints every edge  *)
(*   <<"EDGE", from, call, to>>                                            *)
(* lib/tour.py covers the edges by walks, gives abstract positions real    *)
(* ones and has the driver run them; the recording is then checked against *)
(* Api.tla with the real values (TraceApi).                                *)
(* Invariants: what Api.tla itself promises of every reachable state.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Blocks
Len1 == 3 * Blocks
VARIABLES ctx, stream, done        \* stream: what is being fed; done: verdict-relevant history, for the invariants

(* Byte strings are just lengths here                                      *)
NLen(b) == b
NSub(b, from, len) == len
NCat(s) == Len(s)
A == INSTANCE Api WITH Ctx <- {1}, BLen <- NLen, BSub <- NSub, BCat <- NCat

(* streams: a valid signature; one spoilt in its first, an inner or its last block; a valid one for another key          *)
Streams == {"good", "bad0", "badm", "badz", "otherkey"}
Good(req, b) == stream = "good"
Honest(req, b) == stream = "good"

x == ctx[1]
Id(c, s) == <<c.ph, s, IF c.ph = "sign" THEN c.pos ELSE IF c.ph = "ver" THEN c.n ELSE 0, IF c.ph = "ver" THEN c.st ELSE "">>
Edge(call) == PrintT(ToJson([from |-> Id(x, stream), call |-> call, to |-> Id(ctx'[1], stream')]))
Norm == ctx' = [ctx EXCEPT ![1] = IF "fed" \in DOMAIN @ THEN [@ EXCEPT !.fed = <<>>] ELSE @]

Init == A!ApiInit /\ stream = "" /\ done = [out |-> 0, fed |-> 0]
InitSign == A!InitSign(1, Len1) /\ stream' = "" /\ done' = [out |-> 0, fed |-> 0] /\ Edge(<<"isign", "", 0>>)
InitVerify(s) == A!InitVerify(1, <<>>, Len1) /\ stream' = s /\ done' = [out |-> 0, fed |-> 0] /\ Edge(<<"iver", s, 0>>)
Clear == x.ph # "zero" /\ A!Clear(1) /\ stream' = "" /\ done' = [out |-> 0, fed |-> 0] /\ Edge(<<"zero", "", 0>>)
Scribble == x.ph # "raw" /\ A!Scribble(1) /\ stream' = "" /\ done' = [out |-> 0, fed |-> 0] /\ Edge(<<"fill", "", 0>>)
SignSizes == IF x.ph = "sign" THEN 0..(Len1 - x.pos + 2) ELSE {0, 1, 3, Len1}
Sign(k) == /\ A!Sign(1, k)
           /\ done' = [done EXCEPT !.out = @ + A!SignReturns(1, k)]
           /\ UNCHANGED stream /\ Edge(<<"sign", "", k>>)
(* how many of the abstract bytes to feed; after the end, one, a block, more than a block *)
FeedSizes == IF x.ph # "ver" THEN {0, 1, 3, Len1}
             ELSE IF x.st = "open" THEN 0..(Len1 - x.n + 4) ELSE {0, 1, 2, 3, 4, Len1}
Feed(k) == /\ x.ph \in {"zero", "sign", "ver"}
           /\ \E r \in {0, 1} :
                \E y \in A!FeedNext(x, k, r, Good, Honest) :
                   \* the library reports failures at the end only: of the allowed results take the one that goes on
                   /\ (r = 0 => A!FeedNext(x, k, 1, Good, Honest) = {})
                   /\ ctx' = [ctx EXCEPT ![1] = IF "fed" \in DOMAIN y THEN [y EXCEPT !.fed = <<>>] ELSE y]
                   /\ done' = IF x.ph = "ver" THEN [done EXCEPT !.fed = IF @ + k > Len1 + 1 THEN Len1 + 1 ELSE @ + k] ELSE done
           /\ UNCHANGED stream /\ Edge(<<"feed", "", k>>)
Ask == /\ A!Ask(1, A!Verdict(1))
       /\ UNCHANGED <<stream, done>> /\ Edge(<<"ver", "", 0>>)
Next == InitSign \/ (\E s \in Streams : InitVerify(s)) \/ Clear \/ Scribble
          \/ (\E k \in SignSizes : Sign(k)) \/ (\E k \in FeedSizes : Feed(k)) \/ Ask
Spec == Init /\ [][Next]_<<ctx, stream, done>>
View == <<Id(x, stream), done>>

(* What the interface promises, said once more without its mechanism       *)
OnlyWhatIsThere == x.ph = "sign" => x.pos = done.out /\ x.pos <= Len1
VerdictMeans == A!Verdict(1) = 1 <=> (x.ph = "ver" /\ stream = "good" /\ done.fed = Len1)
ReturnsRight == x.ph = "sign" => \A k \in 0..(Len1 + 2) : A!SignReturns(1, k) = IF k < Len1 - x.pos THEN k ELSE Len1 - x.pos
=============================================================================
