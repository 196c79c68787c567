------------------------------ MODULE MCKeyGen ------------------------------
(***************************************************************************)
(* Key generation step by step, shaped like ts_gen_key: arguments, the     *)
(* random bytes straight into the private key buffer, the root of the top  *)
(* tree by way of the signer's tree walk (Stream.tla), the root into its   *)
(* place in the private key, the public key copied from there.  Whatever   *)
(* is missing and however the random function ends, the caller sees what   *)
(* C02 says; the key is that of Sphincs.tla for every shape.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, SequencesExt, Hash, ParamSets, Sphincs, Stream
CONSTANTS Keys                 \* 1000000 * family (0 sha2, 1 shake) + 10000 * n + 100 * height of a tree + layers
VARIABLES shape, has, good, rand, pc, priv, pub, calls, ret
vars == <<shape, has, good, rand, pc, priv, pub, calls, ret>>
hp == (shape \div 100) % 100
PD == shape % 100
P == Par(IF shape \div 1000000 = 1 THEN "shake" ELSE "sha2", (shape \div 10000) % 100, 1, 1, hp * PD, PD)
n == P.n
Before == "5a"
Rands == {"00", "ff", "a1b2c3d4e5f60718"}
Init == /\ shape \in Keys
        /\ has \in SUBSET {"rng", "priv", "pub", "ps"}
        /\ good \in BOOLEAN
        /\ \E x \in Rands : rand = Rep(x, (3 * n) \div NBytes(x))
        /\ pc = "check" /\ priv = Rep(Before, 4 * n) /\ pub = Rep(Before, 2 * n) /\ calls = <<>> /\ ret = 9
Same == UNCHANGED <<shape, has, good, rand>>
Check == /\ pc = "check"
         /\ IF {"rng", "priv", "ps"} \subseteq has THEN pc' = "draw" /\ UNCHANGED ret ELSE pc' = "end" /\ ret' = 0
         /\ UNCHANGED <<priv, pub, calls>>
(* the random function may leave anything in the buffer when it fails       *)
Draw == /\ pc = "draw" /\ calls' = Append(calls, 3 * n)
        /\ priv' = rand \o SubBytes(priv, 3 * n, n)
        /\ IF good THEN pc' = "root" /\ UNCHANGED ret ELSE pc' = "end" /\ ret' = 0
        /\ UNCHANGED pub
Root_ == /\ pc = "root"
         /\ priv' = SubBytes(priv, 0, 3 * n) \o SubBytes(GenKeyC(P, SubBytes(priv, 0, 3 * n)), 3 * n, n)
         /\ pc' = "copy" /\ UNCHANGED <<pub, calls, ret>>
Copy == /\ pc = "copy"
        /\ pub' = IF "pub" \in has THEN SubBytes(priv, 2 * n, 2 * n) ELSE pub
        /\ pc' = "end" /\ ret' = 1 /\ UNCHANGED <<priv, calls>>
Next == (Check \/ Draw \/ Root_ \/ Copy) /\ Same
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
CleanFailure == pc = "end" /\ ret = 0 =>
   pub = Rep(Before, 2 * n) /\ Len(calls) <= 1 /\ (~({"rng", "priv", "ps"} \subseteq has) => calls = <<>> /\ priv = Rep(Before, 4 * n))
Success == pc = "end" /\ ret = 1 =>
   /\ good /\ calls = <<3 * n>>
   /\ priv = KeyGen(P, rand)
   /\ pub = IF "pub" \in has THEN SubBytes(priv, 2 * n, 2 * n) ELSE Rep(Before, 2 * n)
Fails == pc = "end" => (ret = 1 <=> good /\ {"rng", "priv", "ps"} \subseteq has)
NotEarly == pub # Rep(Before, 2 * n) => pc = "end"
=============================================================================
