----------------------------- MODULE SpecSign ------------------------------
(***************************************************************************)
(* Computes signatures and public keys with Sphincs.tla for the requests   *)
(* in the JSON file REQ and prints them as JSON.            (Inputs for *)
(* scripts that need signatures known to be valid whether or not the       *)
(* library can make them.)                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, Hash, ParamSets, Sphincs
Req == ndJsonDeserialize(IOEnv.REQ)
PS(q) == Spiky(Par(q.fam, q.n, q.k, q.t, q.h, q.d), q.spike)
Res(q) == LET P == PS(q) IN
  IF q.op = "key" THEN [id |-> q.id, sk |-> KeyGen(P, q.random)]
  ELSE [id |-> q.id, sig |-> Sign(P, q.sk, q.msg, IF q.opt = "det" THEN DetOpt(P, q.sk) ELSE q.opt)]
VARIABLE i
Init == i = 0
Next == i < Len(Req) /\ i' = i + 1 /\ PrintT(<<"RES", ToJson(Res(Req[i+1]))>>)
Spec == Init /\ [][Next]_i
=============================================================================
