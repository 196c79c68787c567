----------------------------- MODULE TraceHash -----------------------------
(***************************************************************************)
(* Validation of recorded uses of the incremental hash functions.  A hash  *)
(* context holds the text fed so far; texts concatenate, whatever the      *)
(* split, and outputs are those Hash.tla defines for the whole text.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, Hash
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Slots == 0..39
VARIABLES l, h, saved
vars == <<l, h, saved>>
Idle == [alg |-> "none"]
Init == l = 1 /\ h = [s \in Slots |-> Idle] /\ saved = [s \in Slots |-> Idle]
Ev == Trace[l]
Is(name) == l <= N /\ Ev.e = name /\ l' = l + 1
Clean == Ev.clean = 1

THInit == /\ Is("hinit") /\ Clean
          /\ h' = [h EXCEPT ![Ev.h] = [alg |-> Ev.alg, txt |-> "", out |-> 0, open |-> TRUE]]
          /\ UNCHANGED saved
THUpdate == /\ Is("hupd") /\ Clean
            /\ h[Ev.h].open
            /\ h' = [h EXCEPT ![Ev.h].txt = @ \o Ev.d]
            /\ UNCHANGED saved
Digest(alg, txt) == IF alg = "sha256" THEN Sha256(txt) ELSE Sha512(txt)
THFinal == /\ Is("hfin") /\ Clean
           /\ h[Ev.h].open
           /\ h[Ev.h].alg # "shake256" =>
                /\ NBytes(Ev.out) = Ev.n
                /\ Ev.out = SubBytes(Digest(h[Ev.h].alg, h[Ev.h].txt), 0, Ev.n)
           /\ h' = [h EXCEPT ![Ev.h].open = FALSE]
           /\ UNCHANGED saved
THSqueeze == /\ Is("hsqz") /\ Clean
             /\ ~ h[Ev.h].open
             /\ Ev.out = SubBytes(Shake256(h[Ev.h].txt, h[Ev.h].out + Ev.n), h[Ev.h].out, Ev.n)
             /\ h' = [h EXCEPT ![Ev.h].out = @ + Ev.n]
             /\ UNCHANGED saved
(* The state after exactly one block can be saved and resumed, repeatedly  *)
THSave == /\ Is("hsave")
          /\ h[Ev.h].open
          /\ saved' = [saved EXCEPT ![Ev.h] = h[Ev.h]]
          /\ UNCHANGED h
THResume == /\ Is("hrest") /\ Clean
            /\ h' = [h EXCEPT ![Ev.h] = saved[Ev.g]]
            /\ UNCHANGED saved
TEnd == Is("end") /\ UNCHANGED <<h, saved>>

Next == THInit \/ THUpdate \/ THFinal \/ THSqueeze \/ THSave \/ THResume \/ TEnd
Spec == Init /\ [][Next]_vars
View == l
Accepted ==
  LET reached == TLCGet("stats").diameter - 1 IN
  /\ PrintT(<<"REACHED", reached, "OF", N>>)
  /\ reached = N
=============================================================================
