---- MODULE Decompress ----
(* Contract of the decompression objects: FL2_DCtx (one-shot) and FL2_DStream (streaming).
   The format's meaning of a byte sequence is a record f (from the reference decoder, see Lzma2.tla):
     st    "ok" (end marker reached), "trunc" (input ended before), "bad" (illegal)
     len   bytes decoded, used  bytes up to the end of the stream including a checksum
     hash  -1 no checksum, 1 right, 0 wrong, -2 cut short,    size  bytes of the sequence  *)
EXTENDS Rules
MemOk(e) == e.r = "memory" /\ e.flt > 0
\* bytes an object may hold beyond its estimate: bookkeeping, per-thread and per-pool control blocks
Overhead(t) == 32768 + 4096 * t
Good(f) == f.st = "ok" /\ f.hash \in {-1, 1}
SizeOf(q) == IF q > 40 THEN -1 ELSE IF q >= 38 THEN -1 ELSE (2 + (q % 2)) * 2^(q \div 2 + 11)

------------------------------------------------------------------------------------------------
(* one-shot *)
DDecOk(f, e) ==
    IF e.prop >= 0 /\ e.prop % 64 > 40
    THEN R({"C07"}, "illegal property is rejected", e.ri # "ok")
    ELSE
    /\ R({"C05", "C06", "C07"}, "no write outside the destination", e.guard = 1)
    /\ R({"C05"}, "result within the destination", e.r = "ok" => e.v <= e.cap)
    /\ R({"C15", "C07"}, "out of memory only for lack of resources", e.r = "memory" => e.flt > 0)
    /\ R({"C06", "C07"}, "success only for a stream that decodes to its end", e.r = "ok" => f.st = "ok")
    /\ R({"C06", "C07"}, "success only with the right checksum", e.r = "ok" => f.hash \in {-1, 1})
    /\ R({"C01", "C06", "C07", "C12", "C13", "C15"}, "success delivers exactly the content", e.r = "ok" => e.v = f.len /\ e.eq = 1)
    /\ R({"C01", "C05", "C07", "C12", "C13"}, "a good stream is decoded when the space suffices", (Good(f) /\ e.cap >= f.len) => e.r = "ok" \/ MemOk(e))
    /\ R({"C05", "C07"}, "too little space is an error", (Good(f) /\ e.cap < f.len) => e.r # "ok")
    /\ R({"C06", "C07"}, "a wrong checksum is reported as such", (f.st = "ok" /\ f.hash = 0 /\ e.cap >= f.len) => e.r = "checksum" \/ MemOk(e))
USizeOk(f, e) ==
    /\ R({"C07"}, "size query of a stream that decodes", f.st = "ok" => e.err = 0 /\ e.u = f.len)
    /\ R({"C07"}, "size query of a stream cut short", f.st = "trunc" => e.err = 1)
DictPropOk(e) ==
    LET q == e.prop % 64 IN
    R({"C07"}, "dictionary size of a property byte",
      IF q > 40 THEN e.r # "ok" ELSE IF q >= 38 THEN e.r = "ok" ELSE e.r = "ok" /\ e.v = SizeOf(q))

------------------------------------------------------------------------------------------------
(* streaming.  x: thr, st ("none" before initialisation, "run", "pend" a call timed out, "done", "dead",
   "cancel"), b the buffer read, in, tot, prog as observed, idle consecutive calls without movement,
   tmo, lim (-1 default), base bytes allocated before the first call *)
XNew(e) == [ thr |-> e.thr, st |-> "none", b |-> -1, at |-> 0, in |-> 0, tot |-> 0, prog |-> 0, idle |-> 0, tmo |-> 0, lim |-> -1, sdict |-> 0, base |-> e.live, lv |-> 0 ]
XNewOk(e) == R({"C15"}, "creation fails only for lack of resources", (e.ok = 0 => e.flt > 0) /\ (e.ok = 0 => e.leak = 0))
XInitOk(x, e) ==
    /\ R({"C08", "C12", "C10", "C15", "C14"}, "initialisation result",
         IF x.st = "pend" THEN e.r \in {"stage", "ok"} ELSE e.r = "ok" \/ MemOk(e) \/ (e.prop >= 0 /\ e.prop % 64 > 40 /\ e.r # "ok"))
    /\ R({"C07"}, "illegal property is rejected", (e.prop >= 0 /\ e.prop % 64 > 40) => e.r # "ok")
XInitTo(x, e) == IF e.r = "ok" THEN [x EXCEPT !.st = "run", !.in = x.at, !.tot = 0, !.prog = 0, !.idle = 0]
                 ELSE IF x.st = "pend" THEN x ELSE [x EXCEPT !.st = "dead"]
XTimeoutOk(x, e) == R({"C10", "C15"}, "setting a time limit", e.r = "ok" \/ MemOk(e))

(* a call (or wait) that finished: f what the stream means, e the event *)
XStep(x, f, e, n, cap, waited) ==
    LET in2 == e.in   tot2 == e.tot IN
    /\ R({"C08", "C05"}, "movement within the buffers", e.din >= 0 /\ e.din <= n /\ e.dout >= 0 /\ e.dout <= cap)
    /\ R({"C05", "C08"}, "no write outside the destination", e.guard = 1)
    /\ R({"C08"}, "positions", in2 = x.in + e.din /\ tot2 = x.tot + e.dout)
    /\ R({"C08"}, "nothing after the stream is consumed", f.st = "ok" => in2 <= f.used)
    \* everything delivered is the content, whatever happens afterwards
    /\ R({"C02", "C01", "C06", "C07", "C08", "C10", "C12", "C13", "C14", "C15"}, "delivered bytes are the content", f.st = "ok" => e.eq = 1 /\ tot2 <= f.len)
    /\ R({"C07"}, "an illegal stream delivers only what precedes the damage", f.st # "ok" => e.eqp = 1)
    /\ R({"C15", "C08", "C14"}, "out of memory only for lack of resources", e.r = "memory" => e.flt > 0)
    /\ R({"C08", "C10"}, "a buffer error follows calls without movement", e.r = "buffer" => x.idle >= 2)
    /\ R({"C08", "C14"}, "a call with input and space is not refused for lack of them", (e.r = "buffer" /\ Good(f) /\ cap > 0) => n = 0 \/ x.in = f.used)
    /\ e.r = "ok" =>
        /\ R({"C08"}, "return value", e.v \in {0, 1})
        /\ e.v = 0 =>
            /\ R({"C06", "C07", "C08", "C10", "C12", "C13", "C14", "C15"}, "complete only at the end of a good stream", f.st = "ok" /\ f.hash \in {-1, 1})
            /\ R({"C06", "C07", "C08", "C10", "C12", "C13", "C14", "C15"}, "complete only when everything is delivered", tot2 = f.len /\ e.eq = 1)
            /\ R({"C08"}, "complete exactly after the stream", in2 = f.used)
        /\ e.v = 1 =>
            /\ R({"C08"}, "everything delivered means complete", ~(Good(f) /\ tot2 = f.len /\ in2 = f.used /\ cap > 0 /\ e.dout < cap))
            /\ R({"C08", "C10", "C12", "C13", "C14"}, "a call with input and space makes progress",
                 (Good(f) /\ n > 0 /\ cap > 0 /\ x.in < f.used) => e.din + e.dout > 0)
            /\ R({"C08", "C12", "C13", "C14"}, "all input given and space makes progress",
                 (Good(f) /\ x.in = f.used /\ cap > 0 /\ x.tot < f.len) => e.dout > 0)
    /\ e.r # "ok" =>
        /\ R({"C01", "C07", "C08", "C10", "C12", "C13", "C14", "C15"}, "a good stream does not fail",
             Good(f) => e.r \in {"buffer", "memory"})
        /\ R({"C06", "C07"}, "a wrong checksum is reported as such", (f.st = "ok" /\ f.hash = 0) => e.r \in {"checksum", "buffer", "memory"})
Progress(x, f, e) ==
    /\ R({"C16"}, "progress never runs backwards", e.prog >= x.prog)
    /\ R({"C16"}, "progress covers what was delivered", e.prog >= e.tot)
    /\ R({"C16"}, "progress within the stream", f.st = "ok" => e.prog <= f.len)
    /\ R({"C16"}, "single-threaded progress is exact", x.thr = 1 => e.prog = e.tot)
    /\ R({"C16"}, "progress of a complete stream", (e.r = "ok" /\ e.v = 0) => e.prog = e.tot)
MemLimit(x, e) ==
    \* bytes held beyond the idle object: the limit, one dictionary for the single-threaded fall-back, small overhead
    R({"C14"}, "memory limit", (x.lim >= 0 /\ x.thr > 1) => e.peak - x.base <= x.lim + x.sdict + 20000)
DecOk(x, f, e) ==
    CASE x.st = "none" \/ x.st = "dead" \/ x.st = "cancel" ->
            R({"C05"}, "no write outside the destination", e.guard = 1)
      \* the call that timed out still runs (refused), or has finished meanwhile: then the same buffers are continued
      [] x.st = "pend" ->
           CASE e.r = "stage" -> R({"C10"}, "a refused call moves nothing", e.din = 0 /\ e.dout = 0)
             [] e.r = "timeout" -> R({"C10", "C08"}, "time-out only with a time limit", x.tmo > 0)
             [] OTHER -> IF Good(f) THEN XStep([x EXCEPT !.idle = @ + 1], f, e, e.n, e.cap, TRUE) /\ Progress(x, f, e)
                         ELSE R({"C08", "C05"}, "movement within the buffers", e.guard = 1 /\ e.din \in 0..e.n /\ e.dout \in 0..e.cap)
      [] x.st = "done" /\ e.r = "timeout" -> R({"C10", "C08"}, "time-out only with a time limit", x.tmo > 0)
      [] x.st = "done" -> R({"C08", "C12"}, "after the end nothing moves", e.r = "ok" /\ e.v = 0 /\ e.din = 0 /\ e.dout = 0)
      [] OTHER ->
           IF e.r = "timeout" THEN R({"C10", "C08"}, "time-out only with a time limit", x.tmo > 0)
           ELSE XStep(x, f, e, e.n, e.cap, FALSE) /\ Progress(x, f, e)
WaitXOk(x, f, e) ==
    IF x.st = "pend"
    THEN IF e.r = "timeout" THEN R({"C10"}, "time-out only with a time limit", x.tmo > 0)
         ELSE XStep(x, f, e, e.n, e.cap, TRUE) /\ Progress(x, f, e)
    ELSE R({"C10"}, "waiting without a call moves nothing", e.din = 0 /\ e.dout = 0)
XTo(x, e) ==
    IF x.st \notin {"run", "pend", "done"} \/ e.r = "stage" THEN x
    ELSE IF e.r = "timeout" THEN [x EXCEPT !.st = "pend"]
    ELSE [x EXCEPT !.in = e.in, !.tot = e.tot, !.prog = Max(@, e.prog), !.idle = IF e.din + e.dout > 0 THEN (IF x.st = "pend" THEN 1 ELSE 0) ELSE Min(@ + (IF x.st = "pend" THEN 2 ELSE 1), 100),
                   !.st = IF e.r # "ok" THEN "dead" ELSE IF e.v = 0 THEN "done" ELSE "run"]
====
