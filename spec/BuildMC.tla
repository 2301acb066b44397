---- MODULE BuildMC ----
(* One block in the compression thread (FL2_compressCurBlock_blocking): the match table is initialised, threads take its
   lists from a shared counter, then encoders work on the slices; the caller may cancel at any moment (FL2_cancelCStream:
   set a flag, push the counter out of range, wait, clear the flag), and then begins the next block.
   The table's list heads must be clean when the next block begins: each list taken is cleared, a build that
   stopped early has to be reset. The counter is read and then incremented (two steps). *)
EXTENDS Integers, FiniteSets
CONSTANTS T, L, Blocks, Bug
CANCEL == 100
Threads == 1..T                  \* 1 is the compression thread, the others are the pool
VARIABLES blk, main, tpc, claim, \* block, pc of the compression thread, pc and claimed list of each thread
          stx, heads, built,     \* the counter, list heads in use, times each list was built in this block
          flag, caller, res, cancelled, bad
vars == <<blk, main, tpc, claim, stx, heads, built, flag, caller, res, cancelled, bad>>
Lists == 0..L - 1
Init == /\ blk = 1 /\ main = "init" /\ tpc = [t \in Threads |-> "off"] /\ claim = [t \in Threads |-> 0]
        /\ stx = 0 /\ heads = {} /\ built = [l \in Lists |-> 0] /\ flag = FALSE /\ caller = "wait" /\ res = "none" /\ cancelled = FALSE /\ bad = ""
Fail(w) == bad' = (IF bad = "" THEN w ELSE bad)
\* the compression thread
InitCounter == main = "init" /\ main' = "heads" /\ stx' = 0 /\ UNCHANGED <<blk, tpc, claim, heads, built, flag, caller, res, cancelled, bad>>
InitHeads == /\ main = "heads" /\ main' = "test" /\ (IF heads # {} THEN Fail("list heads left from the block before") ELSE UNCHANGED bad)
             /\ heads' = Lists /\ built' = [l \in Lists |-> 0] /\ UNCHANGED <<blk, tpc, claim, stx, flag, caller, res, cancelled>>
Test == /\ main = "test"
        /\ IF flag THEN main' = "end" /\ res' = "canceled" /\ heads' = {} /\ UNCHANGED tpc
           ELSE main' = "build" /\ tpc' = [t \in Threads |-> "take"] /\ UNCHANGED <<res, heads>>
        /\ UNCHANGED <<blk, claim, stx, built, flag, caller, cancelled, bad>>
Take(t) == /\ main \in {"build", "stopped"} /\ tpc[t] = "take"
           /\ IF stx < L THEN tpc' = [tpc EXCEPT ![t] = "inc"] /\ claim' = [claim EXCEPT ![t] = stx] ELSE tpc' = [tpc EXCEPT ![t] = "out"] /\ UNCHANGED claim
           /\ UNCHANGED <<blk, main, stx, heads, built, flag, caller, res, cancelled, bad>>
Inc(t) == LET pos == IF Bug = "plain_inc" THEN claim[t] ELSE stx IN     \* defect: the value read before the test is incremented
          /\ tpc[t] = "inc" /\ stx' = pos + 1
          /\ IF pos < L THEN tpc' = [tpc EXCEPT ![t] = "list"] /\ claim' = [claim EXCEPT ![t] = pos] ELSE tpc' = [tpc EXCEPT ![t] = "out"] /\ UNCHANGED claim
          /\ UNCHANGED <<blk, main, heads, built, flag, caller, res, cancelled, bad>>
List(t) == /\ tpc[t] = "list" /\ tpc' = [tpc EXCEPT ![t] = "take"] /\ built' = [built EXCEPT ![claim[t]] = @ + 1]
           /\ heads' = heads \ {claim[t]}
           /\ (IF main \in {"init", "heads", "test", "encode", "end"} THEN Fail("a thread builds a table that is in other use") ELSE UNCHANGED bad)
           /\ UNCHANGED <<blk, main, claim, stx, flag, caller, res, cancelled>>
\* thread 1 is out: its result is whether it saw the counter out of range; then it waits for the pool
Stopped == /\ main = "build" /\ tpc[1] = "out" /\ main' = "stopped" /\ res' = (IF stx >= CANCEL THEN "canceled" ELSE "ok")
           /\ UNCHANGED <<blk, tpc, claim, stx, heads, built, flag, caller, cancelled, bad>>
Built == /\ main = "stopped" /\ (Bug = "no_wait" \/ \A t \in Threads : tpc[t] = "out")
         /\ IF res = "canceled" \/ flag
            THEN /\ main' = "end" /\ res' = "canceled" /\ heads' = (IF Bug = "no_reset" THEN heads ELSE {})
            ELSE main' = "encode" /\ UNCHANGED <<res, heads>>
         /\ UNCHANGED <<blk, tpc, claim, stx, built, flag, caller, cancelled, bad>>
\* encoders look at the flag after each chunk
Encode == /\ main = "encode" /\ main' = "end" /\ res' \in (IF flag THEN {"ok", "canceled"} ELSE {"ok"})
          /\ (IF \E l \in Lists : built[l] # 1 THEN Fail("encoding with a table that is not complete") ELSE UNCHANGED bad)
          /\ UNCHANGED <<blk, tpc, claim, stx, heads, built, flag, caller, cancelled>>
\* the caller
SetFlag == caller = "wait" /\ ~cancelled /\ caller' = "push" /\ flag' = TRUE /\ cancelled' = TRUE /\ UNCHANGED <<blk, main, tpc, claim, stx, heads, built, res, bad>>
Push == caller = "push" /\ caller' = "join" /\ stx' = stx + CANCEL /\ UNCHANGED <<blk, main, tpc, claim, heads, built, flag, res, cancelled, bad>>
\* the wait of a cancel or of an ordinary call ends when the compression thread is done
Joined == /\ caller = "join" /\ (main = "end" \/ Bug = "flag_early") /\ flag' = FALSE /\ caller' = "wait" /\ UNCHANGED <<blk, main, tpc, claim, stx, heads, built, res, cancelled, bad>>
Again == /\ caller = "wait" /\ main = "end" /\ blk < Blocks /\ blk' = blk + 1
         /\ (IF res = "ok" \/ cancelled THEN UNCHANGED bad ELSE Fail("cancelled without being asked"))
         /\ main' = "init" /\ cancelled' = FALSE /\ tpc' = [t \in Threads |-> "off"] /\ res' = "none"
         /\ UNCHANGED <<claim, stx, heads, built, flag, caller>>
Over == caller = "wait" /\ main = "end" /\ blk = Blocks /\ UNCHANGED vars
Next == InitCounter \/ InitHeads \/ Test \/ Stopped \/ Built \/ Encode \/ SetFlag \/ Push \/ Joined \/ Again \/ Over
        \/ \E t \in Threads : Take(t) \/ Inc(t) \/ List(t)
Run == InitCounter \/ InitHeads \/ Test \/ Stopped \/ Built \/ Encode \/ Push \/ Joined
Spec == Init /\ [][Next]_vars /\ WF_vars(Run) /\ \A t \in Threads : WF_vars(Take(t) \/ Inc(t) \/ List(t))
Good == bad = ""
Once == \A l \in Lists : built[l] <= 1
NoneLeft == (main = "end" /\ caller = "wait") => \A t \in Threads : tpc[t] \in {"off", "out"}
\* a cancel returns only when nothing runs any more
CancelWaits == (cancelled /\ caller = "wait") => main = "end"
Clean == (main = "end") => heads = {}
CancelEnds == (caller = "push") ~> (caller = "wait")
Ends == (main = "init") ~> (main = "end")
====
