---- MODULE PoolImpl ----
(* Model of the pool as implemented (fl2_pool.c): one mutex, two condition variables, T workers and one
   controlling caller that hands over up to Batches ranges of up to K jobs, waits with or without a time
   limit, and frees the pool at any moment it controls. One step per section between synchronisation
   operations; waits may wake without a signal, timed waits may give up at any moment.
   Bug selects a variant with a defect (for checking that the properties can fail). *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS T, K, Batches, Bug
Workers == 1..T
VARIABLES mutex,          \* 0 free, else the owner (T+1: caller)
          qi, qe, busy, shut,
          cur,            \* batch whose function/object is installed
          wpc, wjob, wfn, \* workers: pc, job index, batch read when the job is called
          cpc, bn, timed, res, freed,
          exec            \* <<batch, job>> -> number of executions
vars == <<mutex, qi, qe, busy, shut, cur, wpc, wjob, wfn, cpc, bn, timed, res, freed, exec>>
C == T + 1
Jobs == (1..Batches) \X (0..K)
Init == /\ mutex = 0 /\ qi = 0 /\ qe = 0 /\ busy = 0 /\ shut = FALSE /\ cur = 0
        /\ wpc = [w \in Workers |-> "lock"] /\ wjob = [w \in Workers |-> 0] /\ wfn = [w \in Workers |-> 0]
        /\ cpc = "idle" /\ bn = 0 /\ timed = FALSE /\ res = 0 /\ freed = FALSE
        /\ exec = [j \in Jobs |-> 0]
Pending == qi < qe
\* ---- workers
WLock(w) == /\ wpc[w] \in {"lock", "relock", "rewake"} /\ mutex = 0
            /\ mutex' = w
            /\ wpc' = [wpc EXCEPT ![w] = CASE @ = "lock" -> "top" [] @ = "relock" -> "after" [] OTHER -> IF Bug = "if_wait" THEN "pop" ELSE "top"]
            /\ UNCHANGED <<qi, qe, busy, shut, cur, wjob, wfn, cpc, bn, timed, res, freed, exec>>
WTop(w) == /\ wpc[w] = "top" /\ mutex = w
           /\ IF shut THEN wpc' = [wpc EXCEPT ![w] = "exit"] /\ mutex' = 0 /\ UNCHANGED <<qi, busy, wjob>>
              ELSE IF ~Pending THEN wpc' = [wpc EXCEPT ![w] = "wait"] /\ mutex' = 0 /\ UNCHANGED <<qi, busy, wjob>>
              ELSE wpc' = [wpc EXCEPT ![w] = "call"] /\ mutex' = 0 /\ wjob' = [wjob EXCEPT ![w] = qi] /\ qi' = qi + 1
                   /\ busy' = (IF Bug = "late_busy" THEN busy ELSE busy + 1)
           /\ UNCHANGED <<qe, shut, cur, wfn, cpc, bn, timed, res, freed, exec>>
WPop(w) == /\ wpc[w] = "pop" /\ mutex = w     \* Bug "if_wait": the condition is not tested again
           /\ IF shut THEN wpc' = [wpc EXCEPT ![w] = "exit"] /\ mutex' = 0 /\ UNCHANGED <<qi, busy, wjob>>
              ELSE wpc' = [wpc EXCEPT ![w] = "call"] /\ mutex' = 0 /\ wjob' = [wjob EXCEPT ![w] = qi] /\ qi' = qi + 1 /\ busy' = busy + 1
           /\ UNCHANGED <<qe, shut, cur, wfn, cpc, bn, timed, res, freed, exec>>
WCall(w) == /\ wpc[w] = "call" /\ wfn' = [wfn EXCEPT ![w] = cur] /\ wpc' = [wpc EXCEPT ![w] = "run"]
            /\ UNCHANGED <<mutex, qi, qe, busy, shut, cur, wjob, cpc, bn, timed, res, freed, exec>>
WRun(w) == /\ wpc[w] = "run" /\ wpc' = [wpc EXCEPT ![w] = "relock"]
           /\ exec' = [exec EXCEPT ![<<wfn[w], wjob[w]>>] = @ + 1]
           /\ busy' = (IF Bug = "late_busy" THEN busy + 1 ELSE busy)
           /\ UNCHANGED <<mutex, qi, qe, shut, cur, wjob, wfn, cpc, bn, timed, res, freed>>
WAfter(w) == /\ wpc[w] = "after" /\ mutex = w /\ busy' = busy - 1
             /\ cpc' = (IF Bug # "no_signal" /\ cpc = "cwait" THEN "crelock" ELSE cpc)     \* signal
             /\ wpc' = [wpc EXCEPT ![w] = "top"]                                            \* keeps the mutex
             /\ UNCHANGED <<mutex, qi, qe, shut, cur, wjob, wfn, bn, timed, res, freed, exec>>
\* ---- condition variables: wake-up without a signal
WSpurious(w) == wpc[w] = "wait" /\ wpc' = [wpc EXCEPT ![w] = "rewake"]
                /\ UNCHANGED <<mutex, qi, qe, busy, shut, cur, wjob, wfn, cpc, bn, timed, res, freed, exec>>
Broadcast == [w \in Workers |-> IF wpc[w] = "wait" THEN "rewake" ELSE wpc[w]]
CSpurious == cpc = "cwait" /\ cpc' = "crelock" /\ UNCHANGED <<mutex, qi, qe, busy, shut, cur, wpc, wjob, wfn, bn, timed, res, freed, exec>>
\* ---- the caller
Idle == cpc = "idle"
CAdd == /\ Idle /\ bn < Batches /\ res = 0
        /\ cpc' = "add" /\ UNCHANGED <<mutex, qi, qe, busy, shut, cur, wpc, wjob, wfn, bn, timed, res, freed, exec>>
CAddLocked == \E k \in 0..K :
        /\ cpc = "add" /\ mutex = 0
        /\ bn' = bn + 1 /\ cur' = bn + 1 /\ qi' = 0 /\ qe' = k /\ wpc' = Broadcast
        /\ cpc' = "idle" /\ res' = 1          \* res: the last thing the caller knows is that there may be unfinished jobs
        /\ UNCHANGED <<mutex, busy, shut, wjob, wfn, timed, freed, exec>>
CWait(tm) == Idle /\ cpc' = "center" /\ timed' = tm /\ UNCHANGED <<mutex, qi, qe, busy, shut, cur, wpc, wjob, wfn, bn, res, freed, exec>>
Unfinished == busy > 0 \/ (Bug # "no_queue_test" /\ Pending)
CEnter == /\ cpc \in {"center", "crelock"} /\ mutex = 0
          /\ IF Unfinished /\ ~shut /\ ~(cpc = "crelock" /\ timed)
             THEN cpc' = "cwait" /\ UNCHANGED res
             ELSE /\ cpc' = "idle"
                  /\ res' = (IF Bug = "timed_zero" /\ cpc = "crelock" THEN 0 ELSE IF Unfinished /\ ~shut THEN 1 ELSE 0)
          /\ UNCHANGED <<mutex, qi, qe, busy, shut, cur, wpc, wjob, wfn, bn, timed, freed, exec>>
CTimeout == cpc = "cwait" /\ timed /\ cpc' = "crelock" /\ UNCHANGED <<mutex, qi, qe, busy, shut, cur, wpc, wjob, wfn, bn, timed, res, freed, exec>>
CFree == /\ Idle /\ ~freed /\ mutex = 0
         /\ shut' = TRUE /\ wpc' = (IF Bug = "free_no_wake" THEN wpc ELSE Broadcast) /\ cpc' = "join" /\ freed' = TRUE
         /\ UNCHANGED <<mutex, qi, qe, busy, cur, wjob, wfn, bn, timed, res, exec>>
CJoin == /\ cpc = "join" /\ \A w \in Workers : wpc[w] = "exit" /\ cpc' = "end"
         /\ UNCHANGED <<mutex, qi, qe, busy, shut, cur, wpc, wjob, wfn, bn, timed, res, freed, exec>>
Done == cpc = "end" /\ UNCHANGED vars
Worker(w) == WLock(w) \/ WTop(w) \/ WPop(w) \/ WCall(w) \/ WRun(w) \/ WAfter(w)
Caller == CAdd \/ CAddLocked \/ (~freed /\ (CWait(TRUE) \/ CWait(FALSE))) \/ CEnter \/ CFree \/ CJoin
Next == (\E w \in Workers : Worker(w) \/ WSpurious(w)) \/ CSpurious \/ CTimeout \/ Caller \/ Done
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : SF_vars(WLock(w)) /\ WF_vars(Worker(w)) /\ SF_vars(CEnter) /\ SF_vars(CAddLocked) /\ WF_vars(CJoin) /\ WF_vars(CFree)

\* ---- what C09 says
ExactlyOnce == \A j \in Jobs : exec[j] <= 1
Count == [b \in 1..Batches |-> Cardinality({ j \in 0..K : exec[<<b, j>>] = 1 })]
RunningJobs == { <<wfn[w], wjob[w]>> : w \in { v \in Workers : wpc[v] = "run" } }
\* the abstract pool (PoolContract) this implements: jobs waiting and running
AbsWait == IF Pending THEN qi..(qe - 1) ELSE {}
AbsRun == { wjob[w] : w \in { v \in Workers : wpc[v] \in {"call", "run"} } }
\* a wait that reported completion (res = 0 while batch bn was handed over): every job of it was executed
CompleteMeansDone == (Idle /\ res = 0 /\ bn > 0) => /\ AbsWait = {} /\ AbsRun = {} /\ busy = 0
                                                    /\ \A j \in 0..(qe - 1) : exec[<<bn, j>>] = 1
OwnFunction == \A w \in Workers : wpc[w] = "run" => wfn[w] = cur
NoneAfterFree == cpc = "end" => \A w \in Workers : wpc[w] = "exit"
Inv == ExactlyOnce /\ CompleteMeansDone /\ OwnFunction /\ NoneAfterFree
\* no execution of jobs that were never handed over
OnlyHanded == \A j \in Jobs : exec[j] = 1 => j[1] <= bn /\ (j[1] = bn => j[2] < qe)
WaitTerminates == [](cpc \in {"center", "cwait", "crelock"} => <>(cpc = "idle"))
FreeTerminates == [](freed => <>(cpc = "end"))
====
