---- MODULE PoolContract ----
(* C09: contract of a thread pool with one controlling caller. A pool is a record
     thr    threads created
     fn, q  the function and object of the current batch
     wait   jobs handed over and not started;  run  jobs running
     idle   a wait reported completion and nothing was added since *)
EXTENDS Rules
PNew(e) == [ thr |-> e.thr, fn |-> -1, q |-> -1, wait |-> {}, run |-> {}, idle |-> TRUE ]
PNewOk(e) ==
    /\ R({"C09", "C15"}, "a pool is not created only for lack of resources", e.ok = 0 => e.thr = 0 \/ e.flt > 0)
    /\ R({"C09", "C15"}, "failed creation keeps no memory", e.leak = 0)
\* the caller adds only after a wait reported completion (script error otherwise)
PAddOk(p, e) == R({"C09"}, "script adds only to an idle pool", p.idle)
PAddTo(p, e) == [p EXCEPT !.fn = e.fn, !.q = e.q, !.wait = e.a..(e.b - 1), !.idle = FALSE]
JStartOk(p, e) ==
    /\ R({"C09"}, "only a job handed over and not started is executed", e.n \in p.wait)
    /\ R({"C09"}, "the job's own function and object", e.fn = p.fn /\ e.q = p.q)
    /\ R({"C09"}, "no more jobs at once than threads", Cardinality(p.run) < p.thr)
JStartTo(p, e) == [p EXCEPT !.wait = @ \ {e.n}, !.run = @ \cup {e.n}]
JEndOk(p, e) == R({"C09"}, "a job that runs ends once", e.n \in p.run /\ e.fn = p.fn /\ e.q = p.q)
JEndTo(p, e) == [p EXCEPT !.run = @ \ {e.n}]
PWaitOk(p, e) ==
    /\ R({"C09"}, "a complete wait returns after all jobs", e.v = 0 => p.wait = {} /\ p.run = {})
    /\ R({"C09"}, "only a timed wait gives up", e.v # 0 => e.ms > 0)
    /\ R({"C09"}, "an idle pool is reported as such", p.idle => e.v = 0)
PWaitTo(p, e) == IF e.v = 0 THEN [p EXCEPT !.idle = TRUE] ELSE p
PBusyOk(p, e) == R({"C09"}, "busy count", e.v >= 0 /\ e.v <= p.thr /\ (p.idle => e.v = 0))
PFreeOk(p) == R({"C09"}, "freeing waits for running jobs", p.run = {})
====
