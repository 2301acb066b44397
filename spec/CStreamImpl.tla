---- MODULE CStreamImpl ----
(* Model of the compression stream as implemented (fl2_compress.c, dict_buffer.c): the dictionary buffer
   (one or two areas, overlap, shift, reset interval), the optional background thread, the output slices,
   time limits, cancellation. Sizes are in units: the dictionary has D units, data is the sequence of
   input positions 0, 1, 2, ... so that loss, duplication, reordering and wrong history are visible.
   A call of the caller is several steps (pc): it can be overtaken by the background job at every point.
   Bug selects a defect; with Bug = "none" all invariants must hold. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS D, OV,          \* dictionary and overlap
          RI,             \* reset interval (0: none)
          Dual,           \* two dictionary areas
          Timed,          \* the caller sets a time limit (a thread exists, waits can give up)
          Slices,         \* encoder slices of a block
          F,              \* the caller feeds at most F units per stream
          Streams,        \* number of streams on the object
          Feeds, Caps,    \* amounts per call; output capacities (-1: no output buffer)
          Bug
VARIABLES s, pc, j
vars == <<s, pc, j>>
Min(a, b) == IF a < b THEN a ELSE b
Async == Dual \/ Timed
Area(t, i) == IF i = 0 THEN t.d0 ELSE t.d1
PutArea(t, i, v) == IF i = 0 THEN [t EXCEPT !.d0 = v] ELSE [t EXCEPT !.d1 = v]
Cur(t) == Area(t, t.idx)

S0 == [ open |-> FALSE, d0 |-> <<>>, d1 |-> <<>>, idx |-> 0, start |-> 0, end |-> 0, total |-> 0,
        th |-> 0, n |-> 0, pos |-> 0, sz |-> <<>>,
        endm |-> FALSE, wrote |-> FALSE, fed |-> 0, emit |-> 0, since |-> 0, streams |-> 0,
        gone |-> 0,        \* output units delivered of the current output
        in |-> 0, cap |-> 0, op |-> "none", ret |-> "none", bad |-> {}, fin |-> FALSE ]
J0 == [ st |-> "none", idx |-> 0, start |-> 0, end |-> 0, snap |-> <<>> ]
Init == s = S0 /\ pc = "idle" /\ j = J0

Pend(t) == t.th < t.n
Unproc(t) == t.start < t.end
Avail(t) == D - t.end
Reset(t) == RI # 0 /\ t.total + D - (IF Bug = "early_reset" THEN 0 ELSE OV) > (IF Bug = "late_reset" THEN (RI + 1) * D ELSE RI * D)
NeedShift(t) == ~Unproc(t) /\ LET ov == IF Reset(t) THEN 0 ELSE OV IN ov = 0 \/ t.end > ov
Shift(t) ==
    IF Unproc(t) \/ (t.end = 0 /\ Bug # "double_switch") THEN t      \* nothing to switch, or nothing added since
    ELSE LET ov == IF Reset(t) THEN 0 ELSE OV
             nx == IF Dual THEN 1 - t.idx ELSE t.idx
         IN  IF ov = 0 THEN [PutArea(t, nx, <<>>) EXCEPT !.start = 0, !.end = 0, !.total = 0, !.idx = nx]
             ELSE IF t.end > ov
             THEN LET from == t.end - ov
                  IN  [PutArea(t, nx, SubSeq(Cur(t), from + 1, t.end)) EXCEPT !.start = ov, !.end = ov,
                         !.idx = IF Bug = "no_switch" THEN t.idx ELSE nx]
             ELSE t
\* writes m units behind end (overwriting whatever is there)
Put(t, m) ==
    LET old == Cur(t)
        new == SubSeq(old, 1, t.end) \o [i \in 1..m |-> t.fed + i - 1]
    IN  [PutArea(t, t.idx, new) EXCEPT !.end = @ + m, !.fed = @ + m]

\* what a finished block adds to the output; checks order, history and reset distance
Emit(t, blk, data) ==
    LET body == SubSeq(data, blk.start + 1, blk.end)
        okorder == \A i \in 1..Len(body) : body[i] = t.emit + i - 1
        okhist == \A i \in 1..blk.start : data[i] = t.emit - blk.start + i - 1
        since2 == (IF blk.start = 0 THEN 0 ELSE t.since) + Len(body)
        lost == IF t.th < t.n THEN {"output lost"} ELSE {}
    IN  [t EXCEPT !.emit = @ + Len(body), !.since = since2,
           !.bad = @ \cup (IF okorder THEN {} ELSE {"order"}) \cup (IF okhist THEN {} ELSE {"history"}) \cup lost
                     \cup (IF RI # 0 /\ since2 > RI * D THEN {"reset interval"} ELSE {})
                     \cup (IF blk.start = 0 /\ t.emit > 0 /\ OV > 0 /\ (RI = 0 \/ t.since + D - OV <= RI * D) THEN {"early reset"} ELSE {}),
           !.th = 0, !.pos = 0, !.n = Min(Slices, Len(body)), !.sz = [i \in 1..Min(Slices, Len(body)) |-> 2]]
\* DICT_getBlock and FL2_compressCurBlock; the caller has waited for the thread
Dispatch(t, jj) ==
    LET blk == [start |-> t.start, end |-> t.end]
        t2 == [t EXCEPT !.total = @ + t.end - t.start, !.start = t.end, !.wrote = TRUE]
    IN  IF Async THEN <<[t2 EXCEPT !.th = 0, !.n = 0, !.pos = 0, !.bad = @ \cup (IF Pend(t) THEN {"output lost"} ELSE {})],
                        [st |-> "run", idx |-> t.idx, start |-> t.start, end |-> t.end, snap |-> Cur(t)]>>
        ELSE <<Emit(t2, blk, Cur(t)), jj>>
JobDone == /\ j.st = "run" /\ j' = [j EXCEPT !.st = "none", !.snap = <<>>]
           /\ LET now == Area(s, j.idx)
                  same == Len(now) >= j.end /\ SubSeq(now, 1, j.end) = SubSeq(j.snap, 1, j.end)
                  t == IF same THEN s ELSE [s EXCEPT !.bad = @ \cup {"data changed during compression"}]
              IN  s' = Emit(t, j, j.snap)
           /\ UNCHANGED pc

\* copying output into a buffer of the given capacity
RECURSIVE Copy(_)
Copy(t) == IF ~Pend(t) \/ t.cap <= 0 THEN t
           ELSE LET m == Min(t.sz[t.th + 1] - t.pos, t.cap)
                    t2 == [t EXCEPT !.cap = @ - m, !.pos = @ + m]
                IN  IF t2.pos < t2.sz[t2.th + 1] THEN t2 ELSE Copy([t2 EXCEPT !.th = @ + 1, !.pos = 0])
\* a full buffer with exhausted slices of size 0 does not occur; the same with capacity 0 leaves everything
CopyIf(t) == IF t.cap >= 0 THEN Copy(t) ELSE t

Call(op) == pc = "idle" /\ s.open /\ s.bad = {}
Ret(t, r) == s' = [t EXCEPT !.ret = r] /\ pc' = "idle"
Waiting(next) == j.st = "none" /\ next
Idle == j.st = "none"
Gives == Timed /\ j.st = "run"
UJ == UNCHANGED j

\* ---- initialisation, cancellation (both wait for the job)
InitStream == /\ pc = "idle" /\ s.streams < Streams /\ ~s.open
              /\ s' = [S0 EXCEPT !.open = TRUE, !.streams = s.streams + 1, !.op = "init", !.ret = "ok",
                                 !.bad = s.bad, !.fin = FALSE]
              /\ Idle /\ UNCHANGED <<pc, j>>
Cancel == /\ pc = "idle" /\ s.op # "cancel" /\ (s.open \/ s.endm)
          /\ j' = J0     \* cancelled and waited for: nothing is emitted
          /\ s' = [s EXCEPT !.open = FALSE, !.endm = FALSE, !.op = "cancel", !.ret = "ok", !.n = 0, !.th = 0, !.fin = FALSE]
          /\ UNCHANGED pc

\* ---- compressStream
Feed == /\ Call("feed") /\ ~s.endm /\ \E n \in Feeds, c \in Caps :
            /\ s.fed + n <= F
            /\ s' = CopyIf([s EXCEPT !.op = "feed", !.in = n, !.cap = c, !.fin = FALSE])
        /\ pc' = "f_loop" /\ UJ
FLoop == /\ pc = "f_loop"
         /\ IF s.in = 0 THEN pc' = "f_end" /\ UNCHANGED s
            ELSE IF NeedShift(s) /\ ~Dual THEN pc' = (IF Bug = "shift_no_wait" THEN "f_shift" ELSE "f_wait") /\ UNCHANGED s
            ELSE pc' = "f_shift" /\ UNCHANGED s
         /\ UJ
FWait == pc = "f_wait" /\ UJ /\ (\/ Idle /\ pc' = "f_shift" /\ UNCHANGED s
                                 \/ Gives /\ Ret(s, "timeout"))
FShift == /\ pc = "f_shift" /\ UJ
          /\ LET t == IF NeedShift(s) THEN Shift(s) ELSE s
                 m == Min(Avail(t), t.in)
                 t2 == [Put(t, m) EXCEPT !.in = @ - m]
             IN  /\ s' = t2
                 /\ pc' = IF Avail(t2) > 0 THEN "f_loop" ELSE IF Pend(t2) THEN "f_end" ELSE "f_comp"
FComp == /\ pc = "f_comp"
         /\ \/ /\ Idle /\ pc' = "f_loop"
               /\ IF ~Pend(s) /\ Unproc(s) THEN s' = Dispatch(s, j)[1] /\ j' = Dispatch(s, j)[2] ELSE UNCHANGED <<s, j>>
            \/ Gives /\ Ret(s, "timeout") /\ UJ
FEnd == /\ pc = "f_end" /\ UJ
        /\ LET t == CopyIf(s) IN Ret(t, IF Pend(t) THEN "1" ELSE "0")

\* ---- getDictionaryBuffer + updateDictionary
Dict == /\ Call("dict") /\ ~s.endm /\ s' = [s EXCEPT !.op = "dict", !.fin = FALSE] /\ UJ
        /\ pc' = IF Avail(s) = 0 /\ Unproc(s) /\ Bug # "dict_no_comp" THEN "d_comp" ELSE "d_shift"
DComp == /\ pc = "d_comp"
         /\ \/ /\ Idle /\ pc' = "d_shift"
               /\ IF ~Pend(s) /\ Unproc(s) THEN s' = Dispatch(s, j)[1] /\ j' = Dispatch(s, j)[2] ELSE UNCHANGED <<s, j>>
            \/ Gives /\ Ret(s, "timeout") /\ UJ
DShift == /\ pc = "d_shift" /\ UJ
          /\ \/ /\ (NeedShift(s) /\ ~Dual /\ Bug # "dict_no_wait") => Idle
                /\ LET t == Shift(s) IN \E m \in Feeds \cup (IF Dual THEN {0} ELSE {}) : /\ m <= Avail(t) /\ t.fed + m <= F
                                                         /\ s' = [Put(t, m) EXCEPT !.in = m]
                /\ pc' = "d_update"
             \/ /\ NeedShift(s) /\ ~Dual /\ Gives /\ Ret(s, "timeout")
             \/ /\ (NeedShift(s) /\ ~Dual) => Idle          \* nothing is offered: the caller reads output first
                /\ ~Dual /\ \A m \in Feeds : m > Avail(Shift(s)) \/ s.fed + m > F
                /\ Ret(Shift(s), "none")
DUpdate == /\ pc = "d_update"
           /\ IF Avail(s) > 0 THEN Ret(s, IF Pend(s) THEN "1" ELSE "0") /\ UJ
              ELSE \/ /\ Idle
                      /\ LET r == IF ~Pend(s) /\ Unproc(s) THEN Dispatch(s, j) ELSE <<s, j>>
                         IN  Ret(r[1], IF Pend(r[1]) THEN "1" ELSE "0") /\ j' = r[2]
                   \/ Gives /\ Ret(s, "timeout") /\ UJ

\* ---- reading output
CopyOut == /\ pc = "idle" /\ (s.open \/ s.endm) /\ s.bad = {} /\ \E c \in Caps : c >= 0 /\ LET t == Copy([s EXCEPT !.op = "copy", !.cap = c])
                                                                    IN  Ret([t EXCEPT !.fin = s.fin], IF Pend(t) THEN "1" ELSE "0")
           /\ UJ
Next1 == /\ pc = "idle" /\ (s.open \/ s.endm) /\ s.bad = {} /\ UJ
         /\ \/ /\ Idle
               /\ LET t == [s EXCEPT !.op = "next"]
                  IN  IF Pend(t) THEN Ret([t EXCEPT !.th = @ + 1, !.pos = 0], "1") ELSE Ret(t, "0")
            \/ Gives /\ Ret([s EXCEPT !.op = "next"], "timeout")
WaitCall == /\ pc = "idle" /\ (s.open \/ s.endm) /\ s.bad = {} /\ s.op # "wait" /\ UJ
            /\ \/ Idle /\ Ret([s EXCEPT !.op = "wait"], IF Pend(s) THEN "1" ELSE "0")
               \/ Gives /\ Ret([s EXCEPT !.op = "wait"], "timeout")

\* ---- flush and end
Flush == /\ Call("flush") /\ ~s.endm /\ UJ /\ \E c \in Caps : s' = CopyIf([s EXCEPT !.op = "flush", !.cap = c, !.fin = FALSE])
         /\ pc' = "l_comp"
LComp == /\ pc = "l_comp"
         /\ \/ /\ Idle /\ pc' = (IF Bug = "flush_no_wait" THEN "l_end" ELSE "l_wait")
               /\ IF ~Pend(s) /\ Unproc(s) THEN s' = Dispatch(s, j)[1] /\ j' = Dispatch(s, j)[2] ELSE UNCHANGED <<s, j>>
            \/ Gives /\ Ret(s, "timeout") /\ UJ
LWait == pc = "l_wait" /\ UJ /\ ((Idle /\ pc' = "l_end" /\ UNCHANGED s) \/ (Gives /\ Ret(s, "timeout")))
LEnd == /\ pc = "l_end" /\ UJ
        /\ LET t == CopyIf(s)
               more == Pend(t) \/ (s.cap >= 0 /\ Pend(s) /\ Unproc(t))
           IN  Ret([t EXCEPT !.fin = ~more], IF more THEN "1" ELSE "0")
End == /\ pc = "idle" /\ (s.open \/ s.endm) /\ s.bad = {} /\ UJ /\ \E c \in Caps : s' = CopyIf([s EXCEPT !.op = "end", !.cap = c, !.fin = FALSE])
       /\ pc' = "e_comp"
EComp == /\ pc = "e_comp"
         /\ \/ /\ Idle /\ pc' = "e_wait"
               /\ IF ~Pend(s) /\ Unproc(s) THEN s' = Dispatch(s, j)[1] /\ j' = Dispatch(s, j)[2] ELSE UNCHANGED <<s, j>>
            \/ Gives /\ Ret(s, "timeout") /\ UJ
EWait == pc = "e_wait" /\ UJ /\ ((Idle /\ pc' = "e_end" /\ UNCHANGED s) \/ (Gives /\ Ret(s, "timeout")))
WriteEnd(t) == IF ~Pend(t) THEN [t EXCEPT !.th = 0, !.n = 1, !.pos = 0, !.sz = <<1>>, !.endm = TRUE, !.open = FALSE]
               ELSE [t EXCEPT !.sz[t.n] = @ + 1, !.endm = TRUE, !.open = FALSE]
EEnd == /\ pc = "e_end" /\ UJ
        /\ LET mark == ~s.endm /\ (~Unproc(s) \/ Bug = "end_early")
               t == IF mark THEN WriteEnd(s) ELSE s
               t2 == CopyIf(t)
               more == Pend(t2) \/ Unproc(t2)
           IN  IF Pend(t) THEN Ret([t2 EXCEPT !.fin = ~more], IF more THEN "1" ELSE "0") ELSE Ret([t2 EXCEPT !.fin = TRUE], "0")

Next == \/ InitStream \/ Cancel \/ JobDone \/ Feed \/ FLoop \/ FWait \/ FShift \/ FComp \/ FEnd
        \/ Dict \/ DComp \/ DShift \/ DUpdate \/ CopyOut \/ Next1 \/ WaitCall
        \/ Flush \/ LComp \/ LWait \/ LEnd \/ End \/ EComp \/ EWait \/ EEnd
        \/ (pc = "idle" /\ ~s.open /\ s.streams = Streams /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(JobDone) /\ WF_vars(FLoop \/ FWait \/ FShift \/ FComp \/ FEnd \/ DComp \/ DShift \/ DUpdate \/ LComp \/ LWait \/ LEnd \/ EComp \/ EWait \/ EEnd)

\* ---- what the properties say about it
NothingBad == s.bad = {}                                             \* C02, C03: order, history, reset distance, no overwritten data or output
TypeOK == /\ s.start >= 0 /\ s.start <= s.end /\ s.end <= D /\ s.th <= s.n /\ s.emit <= s.fed
\* C04: a completed flush
FlushDone == (pc = "idle" /\ s.op = "flush" /\ s.ret = "0") => s.emit = s.fed /\ ~Pend(s) /\ j.st = "none"
\* C02: completion of the end call
EndDone == (pc = "idle" /\ s.op = "end" /\ s.ret = "0") => s.emit = s.fed /\ ~Pend(s) /\ s.endm
\* C02: the end marker never precedes accepted data
EndLast == s.endm => s.emit = s.fed
\* everything accepted is in the dictionary, being compressed, or emitted
Accounted == s.open => s.emit + (IF j.st = "run" THEN j.end - j.start ELSE 0) + (s.end - s.start) = s.fed
\* C16: 1 is returned exactly when output can be read, and 0 in synchronous operation when none is left
Returns == (pc = "idle" /\ s.op \in {"feed", "copy", "flush"}) => (s.ret = "1" => Pend(s) \/ Unproc(s)) /\ (s.ret = "0" /\ ~Async => ~Pend(s))
\* C02, C10: a dictionary request offers space unless there is output to read first
Offers == (pc = "idle" /\ s.op = "dict" /\ s.ret = "none") => Avail(s) > 0 \/ Pend(s)
\* C02/C10: every call returns
CallsReturn == []((pc # "idle") => <>(pc = "idle"))
CapsAll == {-1, 0, 1, 3, 100}
CapsFew == {-1, 0, 1, 100}
====
