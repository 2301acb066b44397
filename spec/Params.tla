---- MODULE Params ----
(* C11: the parameter block of a compression context. A parameter block is a record with the
   fields of Keys; Set gives the outcome of one setter call, a pure function of the block, the
   stage (locked or not), the level tables and the call's arguments. *)
EXTENDS Rules
CONSTANTS DictLogMin, MaxLevel, MaxHighLevel
DictLogMax == 30
Pow2(n) == 2^n
Keys == {"level", "high", "dictLog", "dictSize", "overlap", "reset", "bufres", "chainLog", "cycles",
         "depth", "fastlen", "divconq", "strategy", "lc", "lp", "pb", "omit", "hash"}
LevelKeys == {"dictSize", "overlap", "chainLog", "cycles", "depth", "fastlen", "divconq", "strategy"}
Floats == {"lc", "lp", "pb"}            \* may be changed while a stream is in progress
BoolKeys == {"high", "divconq", "omit", "hash"}

InRange(p, k, x) ==
    CASE k = "level"    -> x >= 1 /\ x <= (IF p.high # 0 THEN MaxHighLevel ELSE MaxLevel)
      [] k = "dictLog"  -> x >= DictLogMin /\ x <= DictLogMax
      [] k = "dictSize" -> x >= Pow2(DictLogMin) /\ x <= Pow2(DictLogMax)
      [] k = "overlap"  -> x >= 0 /\ x <= 14
      [] k = "reset"    -> x >= 0 /\ x <= 16
      [] k = "bufres"   -> x >= 0 /\ x <= 4
      [] k = "chainLog" -> x >= 4 /\ x <= 14
      [] k = "cycles"   -> x >= 1 /\ x <= 64
      [] k = "depth"    -> x >= 6 /\ x <= 254
      [] k = "fastlen"  -> x >= 6 /\ x <= 273
      [] k = "strategy" -> x >= 0 /\ x <= 2
      [] k \in Floats   -> x >= 0 /\ x <= 4
      [] OTHER          -> TRUE

\* the smallest power of two covering the size, as the dictionaryLog getter reports it
Log2(x) == CHOOSE n \in 0..30 : Pow2(n) >= x /\ (n = 0 \/ Pow2(n - 1) < x)

\* the block after selecting a level whose table row is lv
WithLevel(p, l, lv) ==
    [ k \in DOMAIN p |->
        CASE k = "level" -> l
          [] k = "lc" -> 3 [] k = "lp" -> 0 [] k = "pb" -> 2
          [] k = "bufres" -> 2
          [] k = "dictLog" -> Log2(lv.dictSize)
          [] k \in LevelKeys -> lv[k]
          [] OTHER -> p[k] ]

\* tab[<<high, level>>]: level table rows known so far (from the level query)
Known(tab, h, l) == <<h, l>> \in DOMAIN tab

\* the set of blocks a setter call may leave behind. (A set, because a level row that was never
\* queried is not known: then only the level-independent fields are determined.)
SetOk(p, p2, k, x, tab) ==
    CASE k = "level" ->
           LET h == IF p.high # 0 THEN 1 ELSE 0
           IN  IF Known(tab, h, x) THEN p2 = WithLevel(p, x, tab[<<h, x>>])
               ELSE p2.level = x /\ \A j \in {"high", "reset", "omit", "hash"} : p2[j] = p[j]
      [] k = "high" ->
           LET h == IF x # 0 THEN 1 ELSE 0
               q == [p EXCEPT !.high = h]
           IN  IF ~InRange(q, "level", p.level) THEN p2 = q
               ELSE IF Known(tab, h, p.level) THEN p2 = WithLevel(q, p.level, tab[<<h, p.level>>])
               ELSE p2.high = h /\ p2.level = p.level /\ \A j \in {"reset", "omit", "hash"} : p2[j] = p[j]
      [] k = "dictLog"  -> p2 = [p EXCEPT !.dictLog = x, !.dictSize = Pow2(x)]
      [] k = "dictSize" -> p2 = [p EXCEPT !.dictSize = x, !.dictLog = Log2(x)]
      [] k \in BoolKeys -> p2 = [p EXCEPT ![k] = IF x # 0 THEN 1 ELSE 0]
      [] OTHER          -> p2 = [p EXCEPT ![k] = x]

LclpExceeded(p, k, x) == \/ k = "lc" /\ x + p.lp > 4
                         \/ k = "lp" /\ p.lc + x > 4

\* documented outcome of a setter call: error name and whether the value is stored
Outcome(p, locked, k, x) ==
    IF k \notin Keys THEN [r |-> "unsupported", store |-> FALSE]
    ELSE IF locked /\ k \notin Floats THEN [r |-> "stage", store |-> FALSE]
    ELSE IF x < 0 \/ ~InRange(p, k, x) THEN [r |-> IF k \in BoolKeys THEN "ok" ELSE "bound", store |-> k \in BoolKeys]
    ELSE IF LclpExceeded(p, k, x) THEN [r |-> "lclp", store |-> TRUE]
    ELSE [r |-> "ok", store |-> TRUE]
\* lock: "no", "yes", or "maybe" (end marker written but output not yet drained, or a failed
\* initialisation: whether the stream still counts as in progress is not specified)
SetRules1(p, locked, tab, e) ==
    LET o == Outcome(p, locked, e.k, e.x)
    IN  /\ (e.r = o.r \/ (e.k \notin Keys /\ locked /\ e.r = "stage"))
        /\ (e.r = "ok" => e.v = e.x \/ e.x < 0)
        /\ IF o.store THEN SetOk(p, e.p, e.k, e.x, tab) ELSE e.p = p
SetRules(p, lock, tab, e) ==
    /\ R({"C11"}, "parameter setter: result and block afterwards",
          \/ lock # "yes" /\ SetRules1(p, FALSE, tab, e)
          \/ lock # "no" /\ SetRules1(p, TRUE, tab, e))
    \* (also after cancelling and after any other way a stream comes to its end)
    /\ R({"C10", "C12"}, "without a stream the parameters can be set", lock = "no" => e.r # "stage")
    \* whatever happened, a reader sees a block inside the documented ranges
    /\ R({"C11"}, "parameter block in range", \A k \in Keys \ BoolKeys : InRange(e.p, k, e.p[k]))
GetRules(p, e) ==
    /\ R({"C11"}, "parameter getter", IF e.k \in Keys THEN e.r = "ok" /\ (e.v = p[e.k] \/ e.v = -1) ELSE e.r = "unsupported")
    /\ R({"C11"}, "reading changes nothing", e.p = p)
\* a block after a call that takes a compression level (0 keeps the parameters)
LevelCallOk(p, p2, l, tab) ==
    IF l > 0 /\ InRange(p, "level", l) THEN SetOk(p, p2, "level", l, tab) ELSE p2 = p
====
