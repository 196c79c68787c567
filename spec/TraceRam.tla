------------------------------ MODULE TraceRam -----------------------------
(***************************************************************************)
(* Memory use.  Documented is ramspace.out: bytes of RAM per parameter set *)
(* (minimal configuration, smallest hash implementations) for key          *)
(* generation, signing and verification, the context included.  Every      *)
(* measured call has to stay within it, whatever the length of the         *)
(* message, the chunks and the place in the signature; no heap, no static  *)
(* storage that changes.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Documented == [
    ts_ps_sha2_128f_simple |-> [ctx |-> 472, key |-> 976, sign |-> 1024, verify |-> 992],
    ts_ps_sha2_128s_simple |-> [ctx |-> 568, key |-> 1072, sign |-> 1120, verify |-> 1088],
    ts_ps_sha2_192f_simple |-> [ctx |-> 768, key |-> 1296, sign |-> 1456, verify |-> 1408],
    ts_ps_sha2_192s_simple |-> [ctx |-> 912, key |-> 1440, sign |-> 1600, verify |-> 1552],
    ts_ps_sha2_256f_simple |-> [ctx |-> 872, key |-> 1408, sign |-> 1568, verify |-> 1536],
    ts_ps_sha2_256s_simple |-> [ctx |-> 1032, key |-> 1568, sign |-> 1728, verify |-> 1696],
    ts_ps_shake_128f_simple |-> [ctx |-> 672, key |-> 1104, sign |-> 1120, verify |-> 928],
    ts_ps_shake_128s_simple |-> [ctx |-> 768, key |-> 1200, sign |-> 1216, verify |-> 1024],
    ts_ps_shake_192f_simple |-> [ctx |-> 776, key |-> 1216, sign |-> 1232, verify |-> 1040],
    ts_ps_shake_192s_simple |-> [ctx |-> 920, key |-> 1360, sign |-> 1376, verify |-> 1184],
    ts_ps_shake_256f_simple |-> [ctx |-> 880, key |-> 1312, sign |-> 1328, verify |-> 1136],
    ts_ps_shake_256s_simple |-> [ctx |-> 1040, key |-> 1472, sign |-> 1488, verify |-> 1296] ]

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, most             \* <<ps, op>> -> most memory seen
vars == <<l, most>>
Ev == Trace[l]
Is(name) == l <= N /\ Ev.e = name /\ l' = l + 1
Init == l = 1 /\ most = <<>>
Key == <<Ev.ps, Ev.op>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* With other settings than the minimal ones no figure is documented.  The *)
(* context is larger there (it has to hold the largest set and precomputed *)
(* SHA-2 states) but still bounded; the stack may grow by what the faster  *)
(* Keccak code needs.                                                      *)
LargestCtx == 1200
Faster == 128
CtxVariation == 16            \* alignment and padding on other compilers
Limit == LET d == Documented[Ev.ps]
      more == IF Ev.minimal = 1 THEN 0 ELSE Ev.ctx - d.ctx + Faster
  IN CASE Ev.op = "keygen" -> d.key + more
       [] Ev.op \in {"initsign", "sign", "signhead", "wrongsign"} -> d.sign + more
       [] Ev.op \in {"initverify", "verify", "verifyhead", "wrongverify"} -> d.verify + more
Held == IF Ev.op = "keygen" THEN Ev.stack ELSE Ev.ctx + Ev.stack   \* key generation has its context on the stack
Quiet == Ev.heap = 0 /\ Ev.statics = 0 /\ Ev.tls = 0
Measure ==
  /\ Is("ram") /\ Quiet
  /\ \/ Ev.op = "nothing" /\ UNCHANGED most
     \/ /\ Ev.op # "nothing"
        /\ Held <= Limit
        /\ Ev.ctx <= IF Ev.minimal = 1 THEN Documented[Ev.ps].ctx + CtxVariation ELSE LargestCtx
        /\ most' = Put(most, Key, IF Key \in DOMAIN most /\ most[Key] > Held THEN most[Key] ELSE Held)
(* The writable sections of the library's object files                     *)
TStatic == Is("static") /\ Ev.data = 0 /\ Ev.bss = 0 /\ Ev.tls = 0 /\ UNCHANGED most
TNote == Is("note") /\ UNCHANGED most
TEnd == Is("end") /\ UNCHANGED most
Next == Measure \/ TStatic \/ TNote \/ TEnd
Spec == Init /\ [][Next]_vars
View == l
Accepted ==
  LET reached == TLCGet("stats").diameter - 1 IN
  /\ PrintT(<<"REACHED", reached, "OF", N>>)
  /\ reached = N
=============================================================================
