---- MODULE Compress ----
(* Contract of a compression object (FL2_CCtx = FL2_CStream): what every caller may rely on, one
   operator pair per API call: <Call>Ok(c, e) - the call e (arguments, result and the state the API
   exposes afterwards) is allowed in state c - and <Call>To(c, e) - the state afterwards.
   c is a record; all sizes are byte counts.

     thr, dual        thread count, dual buffering, as created
     async            the object may compress in the background (dual buffer or a time limit was set)
     tmo              time limit (0 none)
     par              parameter block (Params)
     open             a stream was initialised and not finished, cancelled or failed
     ended            the end call reported completion
     ending           an end call was made (the end marker may be written)
     dead             the stream failed; only initialisation revives the object
     lock             parameters locked: "no", "yes", "maybe" (Params)
     fed, out, rem    bytes accepted, delivered, and reported as still readable
     prog, pout       last progress counters
     idle             consecutive feed/flush/end calls without movement
     bytes            property bytes in force since initialisation
     flushed          the last flush reported completion and nothing happened since
     dsize            size of the dictionary area last offered (-1: none)
     last             last successful one-shot compression
*)
EXTENDS Stream
NoLast == [srcd |-> -1, n |-> -1, p |-> <<>>, need |-> -1, digest |-> -1]

CNew(e) == [ thr |-> e.got, dual |-> e.dual, async |-> e.dual # 0, tmo |-> 0, par |-> e.p, open |-> FALSE,
             ended |-> FALSE, ending |-> FALSE, dead |-> FALSE, lock |-> "no", fed |-> 0, out |-> 0, rem |-> 0,
             prog |-> 0, pout |-> 0, idle |-> 0, bytes |-> {}, flushed |-> FALSE, dsize |-> -1, last |-> NoLast ]

\* default level 6, reset interval 4, checksum on
CNewOk(e, tab) ==
    /\ R({"C15"}, "creation fails only for lack of resources", e.ok = 0 => e.flt > 0)
    /\ R({"C15"}, "failed creation keeps no memory", e.ok = 0 => e.leak = 0)
    /\ e.ok = 1 =>
        /\ R({"C11"}, "default parameters", /\ e.p.level = 6 /\ e.p.high = 0 /\ e.p.reset = 4 /\ e.p.hash = 1 /\ e.p.omit = 0
                                           /\ (Known(tab, 0, 6) => e.p = WithLevel(e.p, 6, tab[<<0, 6>>])))
        /\ R({"C12", "C17"}, "thread count", e.got = IF e.thr = 0 THEN 4 ELSE Min(e.thr, 200))          \* the machine shown by the harness has 4 cores

Resource(e) == e.r = "memory" /\ e.flt > 0

------------------------------------------------------------------------------------------------
(* parameters *)
CSetOk(c, e, tab) == SetRules(c.par, c.lock, tab, e)
CSetTo(c, e) == [c EXCEPT !.par = e.p, !.bytes = IF @ = {} THEN {} ELSE @ \cup {ParByte(e.p)}]
CGetOk(c, e) == GetRules(c.par, e)
LevelOk(e) == R({"C11"}, "level query", IF e.l >= 0 /\ e.l <= (IF e.h # 0 THEN MaxHighLevel ELSE MaxLevel)
                                       THEN e.r = "ok" ELSE e.r = "bound")

------------------------------------------------------------------------------------------------
(* one-shot compression *)
\* smallest size any stream of these settings has
MinCap(p) == IF p.omit # 0 THEN 1 ELSE 2
OneShotStream(e, par, lic) ==
    /\ R({"C05"}, "result within the destination", e.v <= e.cap)
    /\ Complete(e.ref, par, e.n, e.v, {ParByte(par)}, {"C01", "C12", "C13"})
    /\ R({"C03", "C11"}, "omitted property byte", par.omit # 0 => e.ref.hb = -1 \/ e.ref.hb = 0)
\* builds with lowered size constants cut blocks and slices shorter than the bound allows for
BoundApplies(c, e) == DictLogMin = 20 \/ (c.thr = 1 /\ e.n <= e.p.dictSize)
CompOk(c, e, tab) ==
    /\ R({"C05"}, "no write outside the destination", e.guard = 1)
    /\ R({"C01", "C05", "C12", "C13", "C15"}, "one-shot result", e.r \in {"ok", "dstsize", "memory"})
    /\ R({"C15", "C01", "C12"}, "out of memory only for lack of resources", e.r = "memory" => e.flt > 0)
    /\ R({"C05"}, "bound always suffices", (e.cap >= e.bound /\ BoundApplies(c, e)) => e.r # "dstsize")
    /\ R({"C11"}, "parameters after one-shot compression",
          \/ LevelCallOk(c.par, e.p, e.lvl, tab)
          \/ e.r = "dstsize" /\ e.p = c.par)
    /\ e.r = "ok" => OneShotStream(e, e.p, 0)
    /\ R({"C05"}, "size needed is a sharp limit",
          (c.last.srcd = e.srcd /\ c.last.n = e.n /\ c.last.p = e.p) =>
             /\ e.cap >= c.last.need => e.r # "dstsize"
             /\ e.cap < c.last.need => e.r # "ok")
    /\ R({"C12", "C13"}, "repeated compression gives the same bytes",
          (c.last.srcd = e.srcd /\ c.last.n = e.n /\ c.last.p = e.p /\ e.r = "ok") => e.digest = c.last.digest)
\* (a destination too small for any stream may be refused before the previous stream is ended)
CompTo(c, e) ==
    LET d == [c EXCEPT !.par = e.p, !.open = FALSE, !.ended = FALSE, !.ending = FALSE, !.dead = FALSE, !.lock = "no", !.tmo = 0,
                       !.bytes = {}, !.fed = 0, !.out = 0, !.rem = 0, !.flushed = FALSE, !.idle = 0, !.dsize = -1]
    IN  IF e.r = "ok" THEN [d EXCEPT !.last = [srcd |-> e.srcd, n |-> e.n, p |-> e.p, need |-> e.v, digest |-> e.digest]]
        ELSE IF e.r = "dstsize" /\ e.cap < 2
        THEN [c EXCEPT !.par = e.p, !.open = FALSE, !.dead = @ \/ c.open \/ c.ending, !.lock = IF @ = "no" THEN "no" ELSE "maybe"]
        ELSE d
\* one-shot functions without a context: default parameters of the level
Comp1Ok(e, tab) ==
    /\ R({"C05"}, "no write outside the destination", e.guard = 1)
    /\ R({"C01", "C15"}, "one-shot result", e.r = "ok" \/ (e.r = "dstsize" /\ e.cap < e.bound) \/ Resource(e))
    /\ e.r = "ok" =>
         /\ R({"C05"}, "result within the destination", e.v <= e.cap)
         /\ R({"C01"}, "stream decodes to the input", e.ref.st = "ok" /\ e.ref.eq = 1 /\ e.ref.len = e.n /\ e.ref.used = e.v /\ e.ref.hash = 1)
         /\ R({"C03"}, "legal chunks within the announced dictionary", e.ref.maxdist <= e.ref.dict)

------------------------------------------------------------------------------------------------
(* streaming compression *)
Sync(c) == ~c.async
\* errors any streaming call may return
ErrOk(c, e) ==
    \/ e.r = "timeout" /\ c.tmo > 0
    \/ e.r = "memory" /\ e.flt > 0
\* once the end call has been made, further data may be refused
MoreOk(c, e) == ErrOk(c, e) \/ (e.r = "init" /\ c.ending)
\* what the queries must show after any call, with fed', out' and rem' as observed
Queries(c, e, keep) ==
    /\ R({"C02"}, "bytes accepted and delivered", e.fed = c.fed + keep.din /\ e.out = c.out + keep.dout)
    /\ R({"C16"}, "remaining output query works", e.rem >= 0 \/ c.dead)
    /\ R({"C16"}, "progress never runs backwards", e.prog >= c.prog \/ c.dead)
    /\ R({"C16"}, "progress within the bytes accepted", e.prog <= e.fed)
    /\ R({"C16"}, "output counter never runs backwards", e.pout >= c.pout \/ c.dead)
    /\ (Sync(c) /\ e.r = "ok" /\ ~c.dead) =>
         /\ R({"C16"}, "output counter is the output produced", e.pout <= e.out + e.rem /\ e.out + e.rem <= e.pout + 6)
Note(c, e) == [c EXCEPT !.fed = e.fed, !.out = e.out, !.rem = Max(e.rem, 0), !.prog = Max(@, e.prog), !.pout = Max(@, e.pout)]
Fail(c, e) == IF e.r \in {"ok", "timeout", "init"} THEN c
              ELSE [c EXCEPT !.dead = TRUE, !.open = FALSE, !.lock = "maybe"]

SInitOk(c, e, tab) ==
    /\ R({"C12", "C15"}, "initialisation result", e.r = "ok" \/ Resource(e))
    /\ R({"C11", "C12"}, "parameters after initialisation", e.r = "ok" => LevelCallOk(c.par, e.p, e.lvl, tab))
    /\ e.r = "ok" =>
         /\ R({"C12", "C02"}, "nothing left from the previous stream", e.rem = 0)
         /\ R({"C12", "C16"}, "counters start at zero", e.prog = 0 /\ e.pout = 0)
SInitTo(c, e) ==
    LET d == [c EXCEPT !.par = e.p, !.fed = 0, !.out = 0, !.rem = 0, !.prog = 0, !.pout = 0, !.idle = 0, !.ended = FALSE,
                       !.ending = FALSE, !.flushed = FALSE, !.dsize = -1, !.bytes = {ParByte(e.p)}]
    IN  IF e.r = "ok" THEN [d EXCEPT !.open = TRUE, !.dead = FALSE, !.lock = "yes"]
        ELSE [d EXCEPT !.open = FALSE, !.dead = TRUE, !.lock = "maybe"]

STimeoutOk(c, e) == R({"C10", "C15"}, "setting a time limit", e.r = "ok" \/ Resource(e))
STimeoutTo(c, e) == IF e.r # "ok" THEN c ELSE [c EXCEPT !.tmo = e.ms, !.async = @ \/ e.ms > 0]

\* calls on an object without a running stream
Closed(c) == ~c.open
ClosedOk(c, e) == R({"C02", "C10", "C12"}, "call without a running stream is refused", c.dead \/ c.ended \/ e.r = "init")

Moves(c, e, din, dout) ==
    /\ R({"C02", "C05"}, "movement within the buffers", din >= 0 /\ din <= (IF Has(e, "n") THEN e.n ELSE 0)
                                                       /\ dout >= 0 /\ dout <= (IF Has(e, "cap") THEN Max(e.cap, 0) ELSE dout))
    /\ R({"C05"}, "no write outside the destination", ~Has(e, "guard") \/ e.guard = 1)

FeedOk(c, e) ==
    /\ Moves(c, e, e.din, e.dout)
    /\ IF Closed(c) THEN ClosedOk(c, e)
       ELSE
       /\ R({"C02", "C12", "C13", "C15", "C10"}, "feed result", e.r = "ok" \/ MoreOk(c, e) \/ (e.r = "buffer" /\ c.idle >= 2))
       /\ Queries(c, e, [din |-> e.din, dout |-> e.dout])
       /\ R({"C02"}, "pending output is delivered first", e.cap >= 0 /\ e.r # "init" => e.dout >= Min(e.cap, c.rem))
       /\ e.r = "ok" =>
            /\ R({"C02"}, "return value", e.v \in {0, 1})
            /\ R({"C02", "C16"}, "1 means output can be read", e.v = 1 => e.rem > 0)
            /\ R({"C02"}, "1 means the output buffer is full", e.v = 1 /\ e.cap >= 0 /\ Sync(c) => e.dout = e.cap)
            /\ Sync(c) =>
                 /\ R({"C02", "C16"}, "0 means no output is left", e.v = 0 => e.rem = 0)
                 /\ R({"C02"}, "input is consumed unless the dictionary is full", (c.rem = 0 /\ e.n > 0) => e.din > 0)
                 /\ R({"C02"}, "input is left only with output to read", e.din < e.n => e.v = 1 \/ e.dout > 0)
            /\ R({"C02"}, "a call with data and space makes progress", (e.n > 0 /\ (e.cap > 0 \/ c.rem = 0)) => e.din + e.dout > 0 \/ e.rem > 0)
Idle(c, e, din, dout) == IF din + dout > 0 \/ (Has(e, "cap") /\ e.cap < 0 /\ ~Has(e, "n")) THEN 0 ELSE Min(c.idle + 1, 100)
FeedTo(c, e) == [Fail(Note(c, e), e) EXCEPT !.idle = Idle(c, e, e.din, e.dout),
                                          !.flushed = IF e.din = 0 /\ e.dout = 0 THEN c.flushed ELSE FALSE, !.dsize = -1]

CopyOk(c, e) ==
    /\ Moves(c, e, 0, e.dout)
    /\ R({"C02"}, "copying output", e.r = "ok")
    /\ (c.open \/ c.ending) /\ ~c.dead =>
         /\ R({"C02"}, "bytes accepted and delivered", e.fed = c.fed /\ e.out = c.out + e.dout)
         /\ R({"C02"}, "copies what is there", (Sync(c) => e.dout = Min(e.cap, c.rem)) /\ e.dout >= Min(e.cap, c.rem))
         /\ R({"C02"}, "1 means output remains", e.v = 1 => e.rem > 0)
         /\ R({"C16"}, "remaining output query", Sync(c) => e.rem = c.rem - e.dout)
         /\ R({"C02"}, "0 means nothing remains", Sync(c) => (e.v = 0 <=> e.rem = 0))
CopyTo(c, e) == [Note(c, e) EXCEPT !.flushed = c.flushed /\ e.dout = 0]
NextOk(c, e) ==
    /\ R({"C02", "C10", "C13"}, "reading a slice", e.r = "ok" \/ ErrOk(c, e))
    /\ (c.open \/ c.ending) /\ ~c.dead /\ e.r = "ok" =>
         /\ R({"C02"}, "bytes accepted and delivered", e.fed = c.fed /\ e.out = c.out + e.dout)
         /\ R({"C02", "C16"}, "slices come until nothing remains", Sync(c) => (e.dout <= c.rem /\ e.rem = c.rem - e.dout /\ (c.rem > 0 => e.dout > 0)))
         /\ R({"C02"}, "0 only when nothing remains", e.dout = 0 => e.rem = 0)
NextTo(c, e) == [Fail(Note(c, e), e) EXCEPT !.flushed = c.flushed /\ e.dout = 0]

FlushOk(c, e) ==
    /\ Moves(c, e, 0, e.dout)
    /\ IF Closed(c) THEN ClosedOk(c, e)
       ELSE
       /\ R({"C02", "C12", "C13", "C15", "C10"}, "flush result", e.r = "ok" \/ MoreOk(c, e) \/ (e.r = "buffer" /\ c.idle >= 2))
       /\ Queries(c, e, [din |-> 0, dout |-> e.dout])
       /\ R({"C02"}, "pending output is delivered first", e.cap >= 0 /\ e.r # "init" => e.dout >= Min(e.cap, c.rem))
       /\ e.r = "ok" =>
            /\ R({"C02"}, "return value", e.v \in {0, 1})
            /\ Sync(c) => R({"C02", "C04", "C16"}, "0 exactly when no output is left", e.v = 0 <=> e.rem = 0)
            /\ R({"C04"}, "0 means no output is left", e.v = 0 => e.rem = 0)
            /\ (Sync(c) /\ e.v = 1 /\ e.cap >= 0) => R({"C02"}, "1 means the output buffer is full", e.dout = e.cap)
FlushTo(c, e) == [Fail(Note(c, e), e) EXCEPT !.idle = Idle(c, e, 0, e.dout), !.dsize = -1, !.flushed = (e.r = "ok" /\ e.v = 0)]

EndOk(c, e) ==
    /\ Moves(c, e, 0, e.dout)
    /\ IF Closed(c) /\ ~c.ending THEN ClosedOk(c, e)
       ELSE
       /\ R({"C02", "C12", "C13", "C15", "C10"}, "end result", e.r = "ok" \/ ErrOk(c, e) \/ (e.r = "buffer" /\ c.idle >= 2) \/ c.dead)
       /\ Queries(c, e, [din |-> 0, dout |-> e.dout])
       /\ R({"C02"}, "pending output is delivered first", e.cap >= 0 /\ e.r # "init" => e.dout >= Min(e.cap, c.rem))
       /\ e.r = "ok" /\ ~c.dead =>
            /\ R({"C02"}, "return value", e.v \in {0, 1})
            /\ R({"C02", "C16"}, "0 exactly when complete", e.v = 0 => e.rem = 0)
            /\ R({"C02"}, "unfinished means output was delivered or can be read", e.v = 1 /\ e.cap # 0 => e.dout > 0 \/ e.rem > 0)
            /\ Sync(c) /\ e.v = 1 /\ e.cap >= 0 => R({"C02"}, "1 means the output buffer is full", e.dout = e.cap)
EndTo(c, e) ==
    LET d == Fail(Note(c, e), e)
    IN  [d EXCEPT !.idle = Idle(c, e, 0, e.dout), !.dsize = -1, !.flushed = FALSE,
                  !.ending = @ \/ (e.r \in {"ok", "timeout"} /\ ~Closed(c)),
                  !.ended = @ \/ (e.r = "ok" /\ e.v = 0 /\ ~c.dead),
                  !.open = IF e.r = "ok" /\ e.v = 0 THEN FALSE ELSE @,
                  !.lock = IF e.r = "ok" /\ e.v = 0 THEN "no" ELSE IF @ = "yes" THEN "maybe" ELSE @]

GetDictOk(c, e) ==
    IF Closed(c) THEN ClosedOk(c, e)
    ELSE
    /\ R({"C02", "C10", "C13"}, "dictionary request result", e.r = "ok" \/ MoreOk(c, e))
    /\ Queries(c, e, [din |-> 0, dout |-> 0])
    /\ e.r = "ok" =>
         /\ R({"C02"}, "area within the dictionary", e.size >= 0 /\ e.size <= c.par.dictSize)
         /\ R({"C02", "C10"}, "space is offered once output is read", e.rem = 0 => e.size > 0)
GetDictTo(c, e) == [Fail(Note(c, e), e) EXCEPT !.dsize = IF e.r = "ok" THEN e.size ELSE -1]
UpdateOk(c, e) ==
    IF Closed(c) THEN TRUE
    ELSE
    /\ R({"C02", "C10", "C13"}, "dictionary update result", e.r = "ok" \/ MoreOk(c, e))
    /\ Queries(c, e, [din |-> e.n, dout |-> 0])
    /\ R({"C02", "C16"}, "1 means output can be read", e.r = "ok" /\ e.v = 1 => e.rem > 0)
    /\ R({"C02"}, "return value", e.r = "ok" => e.v \in {0, 1} /\ (Sync(c) => (e.v = 0 <=> e.rem = 0)))
UpdateTo(c, e) == [Fail(Note(c, e), e) EXCEPT !.idle = c.idle, !.flushed = IF e.n = 0 THEN c.flushed /\ e.rem = c.rem ELSE FALSE, !.dsize = -1]
WaitOk(c, e) ==
    /\ R({"C10", "C13", "C02"}, "wait result", e.r = "ok" \/ ErrOk(c, e) \/ c.dead)
    /\ (c.open \/ c.ending) /\ ~c.dead /\ e.r = "ok" =>
         /\ R({"C02", "C10", "C16"}, "1 exactly when output can be read", e.v \in {0, 1} /\ (e.v = 1 <=> e.rem > 0))
         /\ R({"C02"}, "waiting moves nothing", e.fed = c.fed /\ e.out = c.out)
WaitTo(c, e) == Fail(Note(c, e), e)
CancelTo(c, e) == [c EXCEPT !.open = FALSE, !.ended = FALSE, !.ending = FALSE, !.dead = FALSE, !.lock = "no", !.rem = Max(e.rem, 0),
                            !.bytes = {}, !.idle = 0, !.flushed = FALSE, !.dsize = -1]

\* the delivered bytes, decoded independently
CheckOk(c, e) ==
    c.bytes # {} /\ ~c.dead =>
    /\ R({"C02"}, "delivered bytes are accounted for", e.fed = c.fed /\ e.out = c.out)
    /\ R({"C11"}, "streaming leaves the parameters alone", e.p = c.par)
    /\ R({"C02", "C03", "C04", "C10", "C12", "C13", "C15"}, "delivered bytes are a prefix of a legal stream", e.ref.st # "bad")
    /\ R({"C02", "C04", "C10", "C12", "C13", "C15"}, "delivered bytes decode to accepted bytes", e.ref.eq = 1 /\ e.ref.len <= e.fed)
    /\ WellFormed(e.ref, c.par, e.out, c.bytes)
    /\ R({"C04"}, "a completed flush makes everything decodable", c.flushed => e.ref.len = e.fed)
    /\ R({"C02"}, "no end before the end call", e.ref.st = "ok" => c.ending)
    /\ c.ended => Complete(e.ref, c.par, c.fed, c.out, c.bytes, {"C02", "C10", "C12", "C13", "C15"})
====
