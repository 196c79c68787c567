---------------------------- MODULE TraceOneTime ---------------------------
(***************************************************************************)
(* Reads the signatures of a recorded execution, takes each apart at the   *)
(* places its message digest selects, and keeps what was revealed where    *)
(* (OneTime.tla) per parameter set and private key.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets, Hash, ParamSets, Sphincs, OneTime
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, cur, shown, told
vars == <<l, cur, shown, told>>

Declared == {i \in 1..N : Trace[i].e = "ps"}
DeclId == TLCEval({Trace[i].id : i \in Declared})
DeclOf == TLCEval([id \in DeclId |->
             LET i == CHOOSE j \in Declared : Trace[j].id = id
                 b == StdSets[Trace[i].base]
             IN Spiky(Par(b.fam, b.n, Trace[i].k, Trace[i].t, Trace[i].h, Trace[i].d), Trace[i].spike)])
PsOf(id) == IF id \in DeclId THEN DeclOf[id] ELSE StdSets[id]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Ev == Trace[l]
Is(name) == l <= N /\ Ev.e = name /\ l' = l + 1
Init == l = 1 /\ cur = <<>> /\ shown = {} /\ told = {}
(* What a signing operation has revealed so far, wherever it was left        *)
Publish(a) ==
  LET P == PsOf(a.ps)
      o == <<a.ps, a.sk>>
  IN IF NBytes(a.out) < P.n * (P.t + 2)
     THEN UNCHANGED <<shown, told>>
     ELSE \E rev \in {Reveals(P, a.sk, a.msg, a.out)} :
            /\ shown' = shown \cup Pieces(o, rev)
            /\ told' = told \cup Secrets(o, rev)
            /\ OneValue(shown') /\ OneValue(told') /\ OnePlace(told')
Fresh(c) == c \notin DOMAIN cur \/ cur[c].out = ""
(* A new operation on the context: what the last one revealed is put down first *)
TInitSign == /\ Is("isign")
             /\ IF Fresh(Ev.c) THEN UNCHANGED <<shown, told>> ELSE Publish(cur[Ev.c])
             /\ cur' = Put(cur, Ev.c, [ps |-> Ev.ps, sk |-> Ev.sk, msg |-> Ev.msg, out |-> ""])
TSign == /\ Is("sign")
         /\ IF Ev.c \notin DOMAIN cur \/ Ev.ret = 0 THEN UNCHANGED <<cur, shown, told>>
            ELSE \E a \in {[cur[Ev.c] EXCEPT !.out = @ \o Ev.out]} :
                   IF NBytes(a.out) >= SigLen(PsOf(a.ps))
                   THEN Publish(a) /\ cur' = [cur EXCEPT ![Ev.c].out = ""]
                   ELSE cur' = [cur EXCEPT ![Ev.c] = a] /\ UNCHANGED <<shown, told>>
TOther == /\ l <= N /\ Ev.e \in {"ps", "end", "zero", "fill", "buf", "size", "iver", "feed", "ver", "gen"} /\ l' = l + 1
          /\ UNCHANGED <<cur, shown, told>>
Next == TInitSign \/ TSign \/ TOther
Spec == Init /\ [][Next]_vars
View == l
Accepted ==
  LET reached == TLCGet("stats").diameter - 1 IN
  /\ PrintT(<<"REACHED", reached, "OF", N>>)
  /\ reached = N
=============================================================================
