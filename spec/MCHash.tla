------------------------------- MODULE MCHash -------------------------------
(***************************************************************************)
(* The hash functions of Hash.tla, written out in TLA+, against published  *)
(* test vectors and against the Java overrides TLC is run with elsewhere:  *)
(* every input length around the block boundaries of each function (one    *)
(* step per length), the abbreviated notation, outputs of several blocks.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, SequencesExt, Hash
CONSTANT Lens                      \* "some" or "all" input lengths
VARIABLES alg, len

Vectors == <<
  << "",
     "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855",
     "cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e",
     "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762fd75dc4ddd8c0f200cb05019d67b592f6fc821c49479ab48640292eacb3b7c4be" >>,
  << "616263",
     "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad",
     "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f",
     "483366601360a8771c6863080cc4114d8db44530f8f1e1ee4f94ea37e78b5739d5a15bef186a5386c75744c0527e1faa9f8726e462a12a4feb06bd8801e751e4" >>,
  << "6162636462636465636465666465666765666768666768696768696a68696a6b696a6b6c6a6b6c6d6b6c6d6e6c6d6e6f6d6e6f706e6f7071",
     "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1",
     "204a8fc6dda82f0a0ced7beb8e08a41657c16ef468b228a8279be331a703c33596fd15c13b1b07f9aa1d3bea57789ca031ad85c7a71dd70354ec631238ca3445",
     "4d8c2dd2435a0128eefbb8c36f6f87133a7911e18d979ee1ae6be5d4fd2e332940d8688a4e6a59aa8060f1f9bc996c05aca3c696a8b66279dc672c740bb224ec" >>,
  << "6161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161616161",
     "c2a908d98f5df987ade41b5fce213067efbcc21ef2240212a41e54b5e7c28ae5",
     "4b11459c33f52a22ee8236782714c150a3b2c60994e9acee17fe68947a3e6789f31e7668394592da7bef827cddca88c4e6f86e4df7ed1ae6cba71f3e98faee9f",
     "e49647491c9d12d125a2f75826c96f6307d2fabebcbb9fb1616d76b09499380e8bcf60f72750879140e73fb7453a979b69d25efa8de613462f108ce7f2f1d7c5" >>
>>
ASSUME \A i \in DOMAIN Vectors : LET v == Vectors[i] IN
         /\ PureSha256(v[1]) = v[2] /\ Sha256(v[1]) = v[2]
         /\ PureSha512(v[1]) = v[3] /\ Sha512(v[1]) = v[3]
         /\ PureShake256(v[1], 64) = v[4] /\ Shake256(v[1], 64) = v[4]
ASSUME PureSha256("(61*200)") = Vectors[4][2] /\ Sha256("(61*200)") = Vectors[4][2]
ASSUME Sha512("61(61*198)61") = Vectors[4][3] /\ Shake256("(61*100)(61*100)", 64) = Vectors[4][4]

Block(a) == IF a = "sha256" THEN 64 ELSE IF a = "sha512" THEN 128 ELSE 136
EndLen(a)  == IF a = "sha256" THEN 9 ELSE IF a = "sha512" THEN 17 ELSE 1
Want(a, n) == Lens = "all" \/ n <= 2
                \/ (n + EndLen(a)) % Block(a) \in {0, 1, Block(a) - 1} \/ n % Block(a) \in {0, 1, Block(a) - 1}
MaxLen(a) == 2 * Block(a) + 1
Input(a, n) == ToHex([i \in 1..n |-> (i * i + 3 * i + 7 * n + Block(a)) % 256])

Init == alg \in {"sha256", "sha512", "shake256"} /\ len = 0
Next == /\ len < MaxLen(alg)
        /\ len' = CHOOSE m \in (len+1)..(MaxLen(alg)+1) : Want(alg, m) /\ \A q \in (len+1)..(m-1) : ~ Want(alg, q)
        /\ UNCHANGED alg
Spec == Init /\ [][Next]_<<alg, len>>
Agree == \E x \in {Input(alg, len)} :
  CASE alg = "sha256"   -> PureSha256(x) = Sha256(x)
    [] alg = "sha512"   -> PureSha512(x) = Sha512(x)
    [] alg = "shake256" -> PureShake256(x, 300) = Shake256(x, 300) /\ PureShake256(x, len) = Shake256(x, len)
=============================================================================
