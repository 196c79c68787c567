----------------------------- MODULE IndStream -----------------------------
(***************************************************************************)
(* The bookkeeping of the streaming machine (Stream.tla without the node   *)
(* values), for requests and chunks of every size and any number of them:  *)
(* nothing here is bounded.  Apalache proves the invariants inductive, one *)
(* parameter set at a time (the constants).                                *)
(*                                                                         *)
(* One context, in one of two operations; a step is one turn of the loop   *)
(* of ts_sign or ts_update_verify.  Ghost variables: total (bytes handed   *)
(* out or fed since initialization), before (total at the start of the     *)
(* call), valid (whether the hypertree root will turn out right), rank     *)
(* (the variant of the loop, one turn ago).                                *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  n,
  \* @type: Int;
  k,
  \* @type: Int;
  t,
  \* @type: Int;
  hp,
  \* @type: Int;
  d
VARIABLES
  \* @type: Str;
  st,
  \* @type: Int;
  ft,
  \* @type: Int;
  lev,
  \* @type: Int;
  dig,
  \* @type: Int;
  hl,
  \* @type: Int;
  off,
  \* @type: Bool;
  busy,
  \* @type: Int;
  req,
  \* @type: Int;
  left,
  \* @type: Int;
  ret,
  \* @type: Int;
  total,
  \* @type: Int;
  before,
  \* @type: Bool;
  valid,
  \* @type: Int;
  rank,
  \* @type: Bool;
  told

wl == 2*n + 3
Nodes == 1 + k*(t+1) + d*(wl + hp)
Length == n * Nodes
Signing == {"sForsLeaf", "sFors", "sWots", "sMerkle", "sDone"}
Verifying == {"vInit", "vForsLeaf", "vFors", "vWots", "vMerkle", "vSuccess", "vFail"}

(* Nodes in or before the buffer when signing; nodes used up when verifying *)
Count ==
  IF st = "vInit" THEN 0
  ELSE IF st \in {"sForsLeaf", "vForsLeaf"} THEN 1 + ft*(t+1)
  ELSE IF st \in {"sFors", "vFors"} THEN 1 + ft*(t+1) + 1 + lev
  ELSE IF st \in {"sWots", "vWots"} THEN 1 + k*(t+1) + hl*(wl + hp) + dig
  ELSE IF st \in {"sMerkle", "vMerkle"} THEN 1 + k*(t+1) + hl*(wl + hp) + wl + lev
  ELSE Nodes
Rank == left + (Nodes - Count) + (IF st = "vFail" THEN 0 ELSE 1)

CInit128f == n = 16 /\ k = 33 /\ t = 6 /\ hp = 3 /\ d = 22
CInit128s == n = 16 /\ k = 14 /\ t = 12 /\ hp = 9 /\ d = 7
CInit192f == n = 24 /\ k = 33 /\ t = 8 /\ hp = 3 /\ d = 22
CInit192s == n = 24 /\ k = 17 /\ t = 14 /\ hp = 9 /\ d = 7
CInit256f == n = 32 /\ k = 35 /\ t = 9 /\ hp = 4 /\ d = 17
CInit256s == n = 32 /\ k = 22 /\ t = 14 /\ hp = 8 /\ d = 8
CInitTiny == n = 16 /\ k = 2 /\ t = 1 /\ hp = 1 /\ d = 2

(* what a context holds from an earlier operation may be anything: both initializations leave dig, ts_init_verify   *)
(* leaves the other counters as well, until the first node is in                                                    *)
Fresh == /\ ft \in Nat /\ lev \in Nat /\ dig \in Nat /\ hl \in Nat /\ busy = FALSE /\ req = 0 /\ left = 0 /\ ret = 0 /\ total = 0 /\ before = 0
         /\ valid \in BOOLEAN /\ rank = 0 /\ told = FALSE
InitS == Fresh /\ ft = 0 /\ lev = 0 /\ hl = 0 /\ st = "sForsLeaf" /\ off = 0          \* ts_init_sign: R is in the buffer
InitV == Fresh /\ st = "vInit" /\ off = 0              \* ts_init_verify
Init == InitS \/ InitV

(* A call of either function begins; the size is any number                *)
Call == /\ ~ busy
        /\ \E m \in Nat :
             /\ req' = m /\ left' = m
             /\ rank' = m + (Nodes - Count) + 2
        /\ busy' = TRUE /\ ret' = 0 /\ before' = total
        /\ UNCHANGED <<st, ft, lev, dig, hl, off, total, valid, told>>

Least(a, b) == IF a < b THEN a ELSE b
---------------------------------------------------------------------------
(* ts_sign: a turn of the loop                                             *)
Copy == /\ off < n
        /\ \E r \in {Least(n - off, left)} :
             off' = off + r /\ left' = left - r /\ ret' = ret + r /\ total' = total + r
        /\ UNCHANGED <<st, ft, lev, dig, hl>>
NextNode ==
  /\ off >= n
  /\ UNCHANGED <<left, ret, total>>
  /\ \/ /\ st = "sForsLeaf"
        /\ st' = "sFors" /\ lev' = 0 /\ off' = 0 /\ UNCHANGED <<ft, dig, hl>>
     \/ /\ st = "sFors"
        /\ off' = 0 /\ UNCHANGED hl
        /\ IF lev + 1 # t THEN lev' = lev + 1 /\ UNCHANGED <<st, ft, dig>>
           ELSE /\ lev' = lev + 1
                /\ IF ft + 1 # k THEN st' = "sForsLeaf" /\ ft' = ft + 1 /\ UNCHANGED dig
                   ELSE st' = "sWots" /\ ft' = 0 /\ dig' = 0
     \/ /\ st = "sWots"
        /\ off' = 0 /\ dig' = dig + 1 /\ UNCHANGED <<ft, hl>>
        /\ IF dig + 1 = wl THEN st' = "sMerkle" /\ lev' = 0 ELSE UNCHANGED <<st, lev>>
     \/ /\ st = "sMerkle"
        /\ off' = 0 /\ lev' = lev + 1 /\ UNCHANGED ft
        /\ IF lev + 1 # hp THEN UNCHANGED <<st, hl, dig>>
           ELSE /\ hl' = hl + 1
                /\ IF hl + 1 = d THEN st' = "sDone" /\ UNCHANGED dig ELSE st' = "sWots" /\ dig' = 0
SignTurn == /\ busy /\ st \in Signing /\ left > 0 /\ ~ (off >= n /\ st = "sDone")
            /\ (Copy \/ NextNode)
            /\ rank' = Rank
            /\ UNCHANGED <<busy, req, before, valid, told>>
SignReturn == /\ busy /\ st \in Signing /\ (left = 0 \/ (off >= n /\ st = "sDone"))
              /\ busy' = FALSE
              /\ UNCHANGED <<st, ft, lev, dig, hl, off, req, left, ret, total, before, valid, rank, told>>

---------------------------------------------------------------------------
(* ts_update_verify: some bytes into the buffer; if that fills it, a step. *)
(* It returns at the end of the chunk or when the verdict is reached.      *)
Give(r) == busy' = FALSE /\ ret' = r /\ total' = before + req /\ told' = (told \/ r = 0)
Partial == /\ off + left < n
           /\ off' = off + left /\ left' = 0
           /\ Give(1)
           /\ UNCHANGED <<st, ft, lev, dig, hl>>
Whole ==
  /\ off + left >= n
  /\ off' = 0 /\ left' = left - (n - off)
  /\ \/ /\ st = "vInit"
        /\ st' = "vForsLeaf" /\ ft' = 0 /\ lev' = 0 /\ hl' = 0 /\ UNCHANGED <<dig, busy, ret, total, told>>
     \/ /\ st = "vForsLeaf"
        /\ st' = "vFors" /\ lev' = 0 /\ UNCHANGED <<ft, dig, hl, busy, ret, total, told>>
     \/ /\ st = "vFors"
        /\ lev' = IF lev + 1 = t /\ ft + 1 = k THEN 0 ELSE lev + 1
        /\ UNCHANGED <<hl, busy, ret, total, told>>
        /\ IF lev + 1 # t THEN UNCHANGED <<st, ft, dig>>
           ELSE IF ft + 1 # k THEN st' = "vForsLeaf" /\ ft' = ft + 1 /\ UNCHANGED dig
           ELSE st' = "vWots" /\ ft' = 0 /\ dig' = 0
     \/ /\ st = "vWots"
        /\ dig' = dig + 1 /\ UNCHANGED <<ft, lev, hl, busy, ret, total, told>>
        /\ IF dig + 1 = wl THEN st' = "vMerkle" ELSE UNCHANGED st
     \/ /\ st = "vMerkle" /\ lev + 1 < hp
        /\ lev' = lev + 1 /\ UNCHANGED <<st, ft, dig, hl, busy, ret, total, told>>
     \/ /\ st = "vMerkle" /\ lev + 1 = hp /\ hl + 1 < d
        /\ lev' = 0 /\ hl' = hl + 1 /\ st' = "vWots" /\ dig' = 0 /\ UNCHANGED <<ft, busy, ret, total, told>>
     \/ /\ st = "vMerkle" /\ lev + 1 = hp /\ hl + 1 = d
        /\ lev' = lev + 1 /\ hl' = hl + 1 /\ UNCHANGED <<ft, dig>>
        /\ IF left' = 0 /\ valid THEN st' = "vSuccess" /\ Give(1) ELSE st' = "vFail" /\ Give(0)
     \/ /\ st = "vSuccess"
        /\ st' = "vFail" /\ Give(0) /\ UNCHANGED <<ft, lev, dig, hl>>
FeedTurn == /\ busy /\ st \in Verifying \ {"vFail"}
            /\ (Partial \/ Whole)
            /\ rank' = Rank
            /\ UNCHANGED <<req, before, valid>>
FeedFailed == /\ busy /\ st = "vFail"
              /\ Give(0)
              /\ UNCHANGED <<st, ft, lev, dig, hl, off, req, left, before, valid, rank>>

Next == Call \/ SignTurn \/ SignReturn \/ FeedTurn \/ FeedFailed

---------------------------------------------------------------------------
(* What a caller may rely on                                               *)
(* Each call of ts_sign gives min(requested, bytes left)                   *)
GivesRight == ~ busy /\ st \in Signing => ret = Least(req, Length - before) /\ total = before + ret
(* The verdict is 1 exactly when a valid signature and nothing more was fed *)
Verdict == IF st = "vSuccess" /\ off = 0 THEN 1 ELSE 0
VerdictRight == ~ busy /\ st \in Verifying => (Verdict = 1 <=> (valid /\ total = Length))
(* A valid signature is never refused before it is exceeded; an invalid one, *)
(* or one with something behind it in the same call, is refused by the call  *)
(* that completes it; a refusal is repeated for ever                        *)
TellsRight == ~ busy /\ st \in Verifying =>
  /\ ((valid /\ total <= Length) => ~ told)
  /\ ((~ valid /\ total >= Length) => told)
  /\ ((before < Length /\ total > Length) => told)
  /\ (told => Verdict = 0 /\ st = "vFail")
  /\ (total < Length => ~ told)
LastSaid == ~ busy /\ told => ret = 0
(* every turn of a loop brings the call nearer to its end                  *)
Ends == busy => Rank >= 0 /\ Rank < rank

Safe == GivesRight /\ VerdictRight /\ TellsRight /\ LastSaid

(* The inductive invariant                                                 *)
Ranges ==
  /\ st \in Signing \cup Verifying
  /\ ft >= 0 /\ lev >= 0 /\ dig >= 0 /\ hl >= 0 /\ off >= 0
  /\ (st \in {"sForsLeaf", "vForsLeaf", "sFors", "vFors"} => ft < k /\ hl = 0)
  /\ (st \in {"sFors", "vFors"} => lev < t)
  /\ (st \in {"sWots", "vWots"} => hl < d /\ dig < wl)
  /\ (st = "vWots" => lev = 0)
  /\ (st \in {"sMerkle", "vMerkle"} => hl < d /\ lev < hp)
Sign1 == st \in Signing =>
  /\ off <= n
  /\ ret >= 0 /\ left >= 0 /\ req = ret + left
  /\ total = before + ret
  /\ total = n*(Count - 1) + off
  /\ ~ told
  /\ (~ busy => left = 0 \/ (st = "sDone" /\ off = n))
Feed1 == st \in Verifying =>
  /\ off < n /\ left >= 0 /\ req >= left /\ before >= 0
  /\ (busy => total = before)
  /\ (~ busy => total = before + req)
  /\ (st \notin {"vSuccess", "vFail"} =>
        /\ before + req - left = n*Count + off
        /\ ~ told /\ (~ busy => left = 0 /\ ret \in {0, 1}))
  /\ (st = "vSuccess" => /\ valid /\ ~ told /\ before + req - left = Length + off
                         /\ (~ busy => left = 0))
  /\ (st = "vSuccess" /\ busy => before >= Length)
  /\ (st = "vSuccess" => before >= Length \/ (before + req = Length))
  /\ (st = "vFail" => /\ told /\ (~ busy => total >= Length /\ ~ (valid /\ total = Length) /\ ret = 0)
                      /\ (busy => before >= Length /\ ~ (valid /\ before = Length)))
Ind == Ranges /\ Sign1 /\ Feed1 /\ Ends
(* for Apalache: an arbitrary state that satisfies the invariant           *)
Any ==
  /\ st \in Signing \cup Verifying
  /\ ft \in Int /\ lev \in Int /\ dig \in Int /\ hl \in Int /\ off \in Int
  /\ busy \in BOOLEAN /\ req \in Int /\ left \in Int /\ ret \in Int /\ total \in Int /\ before \in Int
  /\ valid \in BOOLEAN /\ rank \in Int /\ told \in BOOLEAN
IndInit == Any /\ Ind
IndInitS == Any /\ st \in Signing /\ Ind
IndInitV == Any /\ st \in Verifying /\ Ind
IndAndSafe == Ind /\ Safe
=============================================================================
