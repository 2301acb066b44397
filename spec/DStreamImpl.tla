---- MODULE DStreamImpl ----
(* Model of the decompression stream as implemented (fl2_decompress.c): the stages, the overlap buffer that joins two
   pieces of input, the chain of input buffers and the blocks found in it, decoding of the blocks, writing of their
   output, the memory limit and the fall-back to one thread, and the counter of calls without movement.
   The stream is known: positions stand for its bytes, so a byte lost, repeated or read at the wrong time shows as a
   wrong position.  A call is one step; the caller chooses what it offers.  Sizes are scaled down. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Req, Rci,     \* input the decoder wants to see beyond a symbol (LZMA_REQUIRED_INPUT_MAX); bytes that start an LZMA chunk
          Node, NM,     \* capacity of an input buffer, and the memory it takes
          Worlds,       \* streams and settings: [ch: chunks, hash: size of the checksum, thr, lim, dict, trail]
          Ns, Caps,     \* input and space offered by a call
          Bug
VARIABLES w, t, ret
vars == <<w, t, ret>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* ---- the stream: chunk kinds R copy with dictionary reset, C copy, L LZMA, X LZMA with dictionary reset; header, packed and unpacked size
Copy(k) == k \in {"R", "C"}
RECURSIVE Table(_, _, _)
Table(ch, i, at) == IF i > Len(ch) THEN <<>>
                    ELSE <<[at |-> at, k |-> ch[i][1], h |-> ch[i][2], p |-> ch[i][3], u |-> ch[i][4]]>> \o Table(ch, i + 1, at + ch[i][2] + ch[i][3])
RECURSIVE Sum(_, _)
Sum(tab, i) == IF i > Len(tab) THEN 0 ELSE tab[i].u + Sum(tab, i + 1)
World(x) == LET tab == Table(x.ch, 1, 1)
                em == IF tab = <<>> THEN 1 ELSE tab[Len(tab)].at + tab[Len(tab)].h + tab[Len(tab)].p
            IN [tab |-> tab, em |-> em, size |-> em + 1 + x.hash, total |-> Sum(tab, 1), hash |-> x.hash, thr |-> x.thr, lim |-> x.lim, dict |-> x.dict, trail |-> x.trail]
ChunkAt(pos) == CHOOSE i \in 1..Len(w.tab) : w.tab[i].at = pos
IsChunk(pos) == \E i \in 1..Len(w.tab) : w.tab[i].at = pos

\* ---- the decoder: dp the next byte it wants
D0(pos) == [dp |-> pos, ph |-> "ctl", ck |-> 1, pk |-> 0, uk |-> 0, fl |-> FALSE, out |-> 0, res |-> ""]
\* bytes of the chunk taken when k of its bytes are out
Need(c, k) == (k * (c.p - Rci)) \div c.u
\* as many symbols as there is room and input for
Symbols(d, c, e, space, end) ==
    LET done == c.u - d.uk   base == Need(c, done)   most == Min(d.uk, space)   y == e - Req - d.dp
        j == IF end \/ c.p = Rci THEN most ELSE IF y <= 0 THEN 0 ELSE Min(most, ((y + base) * c.u + c.p - Rci - 1) \div (c.p - Rci) - done)
        m == Need(c, done + j) - base
    IN [d EXCEPT !.dp = @ + m, !.pk = @ - m, !.uk = @ - j, !.out = @ + j]
RECURSIVE Run(_, _, _)
\* input up to position e, room for space more bytes
Run(d, e, space) ==
    CASE d.ph = "fin" -> [d EXCEPT !.res = "fin"]
      [] d.ph = "ctl" ->
           IF d.dp >= e THEN [d EXCEPT !.res = "more"]
           ELSE IF d.dp = w.em THEN [d EXCEPT !.dp = @ + 1, !.ph = "fin", !.res = "fin"]
           ELSE IF ~IsChunk(d.dp) THEN [d EXCEPT !.res = "err"]
           ELSE LET i == ChunkAt(d.dp)   c == w.tab[i] IN
                IF e - d.dp < c.h THEN [d EXCEPT !.res = "more"]
                ELSE Run([d EXCEPT !.dp = @ + c.h, !.ph = "data", !.ck = i, !.pk = c.p, !.uk = c.u, !.fl = ~Copy(c.k)], e, space)
      [] OTHER ->
           LET c == w.tab[d.ck]   in == e - d.dp
               after(x, sp) == IF x.uk = 0 THEN IF x.pk # 0 THEN [x EXCEPT !.res = "err"] ELSE Run([x EXCEPT !.ph = "ctl"], e, sp) ELSE Run(x, e, sp)
           IN IF space = 0 THEN [d EXCEPT !.res = "full"]
              ELSE IF Copy(c.k) THEN
                   IF in = 0 THEN [d EXCEPT !.res = "more"]
                   ELSE LET m == Min(in, Min(space, d.uk)) IN after([d EXCEPT !.dp = @ + m, !.pk = @ - m, !.uk = @ - m, !.out = @ + m], space - m)
              ELSE LET end == in >= d.pk IN
                   IF ~end /\ in < Req THEN [d EXCEPT !.res = "more"]
                   ELSE LET d1 == IF d.fl THEN [d EXCEPT !.dp = @ + Rci, !.pk = @ - Rci, !.fl = FALSE] ELSE d
                            d2 == Symbols(d1, c, e, space, end)
                            sp == space - (d2.out - d.out)
                        IN IF d2.uk > 0 /\ sp > 0 THEN [d2 EXCEPT !.res = IF end THEN "err" ELSE "more"]
                           ELSE after(d2, sp)

\* ---- the stream object. nodes: input buffers, each the n bytes of the stream from b on
B0 == [first |-> 1, last |-> 1, start |-> 0, end |-> 0, un |-> 0, buf |-> -1]
T0 == [stage |-> "init", d |-> D0(1), ip |-> 0, ie |-> 0, sp |-> 0, tot |-> 0, ovb |-> 0, ovn |-> 0, hx |-> 0, loop |-> 0,
       mt |-> FALSE, fail |-> FALSE, nodes |-> <<[b |-> 1, n |-> 0]>>, cur |-> 0, cpos |-> 0, nt |-> 0, blk |-> <<>>, st |-> 0, spos |-> 0,
       mem |-> 0, final |-> FALSE, next |-> 1, err |-> "", bad |-> {}]
Flag(x, what) == [x EXCEPT !.bad = @ \cup {what}]
Real(x) == (Len(x.nodes) - 1) * NM + LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Max(x.blk[i].buf, 0) IN S(Len(x.blk))

\* FL2_decompressInput on the bytes [a, e); pos: the first byte left
DecIn(x, a, e) ==
    IF x.stage # "dec" THEN [t |-> x, pos |-> a]
    ELSE LET d == Run([x.d EXCEPT !.out = 0, !.res = ""], e, x.sp)
             y == [x EXCEPT !.d = d, !.sp = @ - d.out, !.tot = @ + d.out, !.err = IF d.res = "err" THEN "corrupt" ELSE @,
                            !.stage = IF d.res = "fin" THEN IF w.hash > 0 THEN "hash" ELSE "fin" ELSE @]
         IN [t |-> IF a # x.d.dp THEN Flag(y, "wrong bytes") ELSE y, pos |-> d.dp]
\* FL2_decompressOverlappedInput
OverJoin(x) ==
    IF x.ovn = 0 THEN x
    ELSE LET r == Min(x.ie - x.ip, 2 * Req - x.ovn)
             i == DecIn(x, x.ovb, x.ovb + x.ovn + r)
             y == IF r > 0 /\ x.ip # x.ovb + x.ovn /\ x.stage = "dec" THEN Flag(i.t, "wrong bytes") ELSE i.t
             pos == i.pos - x.ovb
         IN IF pos >= x.ovn THEN [y EXCEPT !.ip = @ + pos - x.ovn, !.ovn = 0] ELSE [y EXCEPT !.ovb = @ + pos, !.ovn = @ - pos]
Over(x) ==
    LET x1 == OverJoin(x) IN
    IF x1.err # "" \/ x1.ip = x1.ie THEN x1
    ELSE LET i == DecIn(x1, x1.ip, x1.ie)
             x2 == IF x1.ovn = 0 THEN [i.t EXCEPT !.ip = i.pos] ELSE x1
             r == x2.ie - x2.ip
             r2 == Min(r, 2 * Req - x2.ovn)
         IN IF x2.err = "" /\ x2.stage = "dec" /\ x2.sp > 0 /\ r <= Req
            THEN [x2 EXCEPT !.ovb = IF x2.ovn = 0 THEN x2.ip ELSE @, !.ovn = @ + r2, !.ip = @ + r2] ELSE x2

\* ---- several threads
FreeOut(x) == [x EXCEPT !.mem = @ - LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Max(x.blk[i].buf, 0) IN S(Len(x.blk)),
                        !.blk = [i \in 1..Len(x.blk) |-> [x.blk[i] EXCEPT !.buf = -1]], !.nt = 0]
FreeNodes(x) == [x EXCEPT !.mem = @ - (Len(x.nodes) - 1) * NM, !.nodes = <<[b |-> 0, n |-> 0]>>]
Blk(x) == x.blk[x.nt + 1]
SetBlk(x, b) == [x EXCEPT !.blk[x.nt + 1] = b]
\* FL2_parseMt: headers from b.end on, as far as they are in the last buffer
RECURSIVE Parse(_, _, _)
Parse(nd, b, first) ==
    IF b.end >= nd.n THEN [b |-> b, r |-> IF first = "ran" THEN "continue" ELSE "more"]
    ELSE LET at == nd.b + b.end IN
         IF at = w.em THEN [b |-> [b EXCEPT !.end = @ + 1], r |-> "final"]
         ELSE IF ~IsChunk(at) THEN [b |-> b, r |-> "error"]
         ELSE LET c == w.tab[ChunkAt(at)] IN
              IF nd.n - b.end < c.h THEN [b |-> b, r |-> "more"]
              ELSE IF c.k = "X" /\ first # "yes" THEN [b |-> b, r |-> "reset"]
              ELSE Parse(nd, [b EXCEPT !.end = @ + c.h + c.p, !.un = @ + c.u], "ran")
\* hands back input beyond the block
Rewind(x, b, start) == LET nd == x.nodes[b.last]   back == IF nd.n > b.end /\ Bug # "no_rewind" THEN Min(x.ip - start, nd.n - b.end) ELSE 0
                       IN [x EXCEPT !.ip = @ - back, !.nodes[b.last].n = @ - back]
RECURSIVE Load(_, _, _)
\* FL2_loadInputMt: <<object, result>>
Load(x, start, res0) ==
    LET b0 == Blk(x)   nd == x.nodes[b0.last] IN
    IF ~(x.ip < x.ie \/ b0.end < nd.n) THEN <<x, "0">>
    ELSE LET pr == IF b0.end < nd.n THEN Parse(nd, b0, IF b0.un = 0 THEN "yes" ELSE "no") ELSE [b |-> b0, r |-> res0]
             x1 == SetBlk(x, pr.b)
             parsed == b0.end < nd.n
         IN IF parsed /\ pr.r = "error" THEN <<[x1 EXCEPT !.err = "corrupt"], "error">>
            ELSE LET whole == parsed /\ pr.r \in {"reset", "final"}
                     m == x1.mem + pr.b.un
                     over == whole /\ m > w.lim
                     x2 == IF ~whole THEN x1
                           ELSE [x1 EXCEPT !.nt = @ + 1, !.mem = m, !.blk[x1.nt + 1].buf = IF over THEN -1 ELSE pr.b.un, !.final = IF over THEN @ ELSE pr.r = "final"]
                     stop == whole /\ (over \/ x2.nt = w.thr \/ x2.final)
                     x3 == IF whole /\ ~stop THEN SetBlk(x2, [B0 EXCEPT !.first = pr.b.last, !.last = pr.b.last, !.start = pr.b.end, !.end = pr.b.end]) ELSE x2
                 IN IF stop THEN <<Rewind(x2, pr.b, start), IF over THEN "memory" ELSE "1">>
                    ELSE LET b == Blk(x3)   n3 == x3.nodes[b.last]
                             grow == n3.n >= Node /\ b.end + Req >= n3.n
                         IN IF grow /\ x3.mem + NM > w.lim /\ Bug # "node_limit" THEN <<Rewind([x3 EXCEPT !.mem = @ + NM], b, start), "memory">>
                            ELSE LET x4 == IF ~grow THEN x3
                                           ELSE SetBlk([x3 EXCEPT !.mem = @ + NM, !.nodes = SubSeq(@, 1, b.last) \o <<[b |-> n3.b + n3.n - Req, n |-> Req]>>],
                                                       [b EXCEPT !.last = @ + 1, !.end = @ - (IF Bug = "end_shift" THEN Node ELSE Node - Req)])
                                     l == Blk(x4).last   n4 == x4.nodes[l]
                                     r == Min(x4.ie - x4.ip, Node - n4.n)
                                     x5 == [x4 EXCEPT !.ip = @ + r, !.nodes[l] = IF n4.n = 0 THEN [b |-> x4.ip, n |-> r] ELSE [n4 EXCEPT !.n = @ + r]]
                                     x6 == IF r > 0 /\ n4.n > 0 /\ n4.b + n4.n # x4.ip THEN Flag(x5, "wrong bytes") ELSE x5
                                 IN IF (IF parsed THEN pr.r ELSE res0) = "more" /\ r = 0 THEN <<x6, "0">>
                                    ELSE Load(x6, start, IF parsed THEN pr.r ELSE res0)
\* FL2_decompressBlocksMt: every block must be the bytes after the one before, from a chunk to a chunk
RECURSIVE BlocksOk(_, _, _)
BlocksOk(x, i, at) ==
    IF i > x.nt THEN [ok |-> TRUE, at |-> at]
    ELSE LET b == x.blk[i]
             a == x.nodes[b.first].b + b.start   z == x.nodes[b.last].b + b.end
             un == Sum(SelectSeq(w.tab, LAMBDA c : c.at >= a /\ c.at < z), 1)
         IN IF a = at /\ (IsChunk(z) \/ z = w.em + 1) /\ un = b.buf /\ x.nodes[b.last].n >= b.end THEN BlocksOk(x, i + 1, z) ELSE [ok |-> FALSE, at |-> z]
Blocks(x) ==
    LET ok == BlocksOk(x, 1, x.next)
        lb == x.blk[x.nt]   keep == x.nodes[lb.last]
        y == [x EXCEPT !.mem = @ - (Len(x.nodes) - 1) * NM, !.nodes = <<keep>>, !.next = ok.at, !.st = 0, !.spos = 0, !.stage = "write",
                       !.blk = [i \in 1..Len(x.blk) |-> IF i = 1 THEN [B0 EXCEPT !.start = lb.end, !.end = lb.end, !.buf = x.blk[1].buf] ELSE x.blk[i]]]
    IN IF ok.ok THEN y ELSE Flag(y, "blocks")
RECURSIVE Write(_)
Write(x) ==
    IF x.st >= x.nt THEN [FreeOut(x) EXCEPT !.stage = IF x.final THEN IF w.hash > 0 THEN "hash" ELSE "fin" ELSE "dec"]
    ELSE LET size == x.blk[x.st + 1].buf   m == Min(size - x.spos, x.sp)
             y == [x EXCEPT !.spos = @ + m, !.sp = @ - m, !.tot = @ + m]
         IN IF y.spos < size THEN y ELSE Write([y EXCEPT !.st = @ + 1, !.spos = 0])
\* FL2_decompressFailedMt
RECURSIVE FailNext(_)
FailNext(x) ==
    IF x.nodes[1].n = 0 THEN Over(x)
    ELSE LET nd == x.nodes[x.cur]
             i == DecIn(x, nd.b + x.cpos, nd.b + nd.n)
             pos == i.pos - nd.b
             y == [i.t EXCEPT !.cpos = pos]
         IN IF y.err # "" \/ pos + Req < nd.n THEN y
            ELSE LET z == IF x.cur = Len(x.nodes) THEN [FreeNodes(y) EXCEPT !.ovb = nd.b + pos, !.ovn = nd.n - pos, !.cur = 0]
                          ELSE [y EXCEPT !.cpos = pos - (nd.n - Req), !.cur = @ + 1]
                 IN IF y.tot = x.tot /\ y.stage = "dec" /\ Bug # "no_skip" THEN FailNext(z) ELSE z
Failed(x) ==
    IF x.nodes[1].n = 0 THEN Over(x)
    ELSE IF x.fail THEN FailNext(x)
    ELSE FailNext([FreeOut(x) EXCEPT !.fail = TRUE, !.cur = x.blk[1].first, !.cpos = x.blk[1].start, !.d = D0(x.nodes[x.blk[1].first].b + x.blk[1].start)])
Several(x) ==
    IF x.fail THEN Failed(x)
    ELSE LET ld == IF x.stage = "dec" THEN Load(x, x.ip, "continue") ELSE <<x, "none">>
             y == ld[1]
         IN IF ld[2] = "memory" THEN Failed(y)
            ELSE IF y.err # "" THEN y
            ELSE LET z == IF ld[2] = "1" THEN Blocks(y) ELSE y
                 IN IF z.stage = "write" THEN Write(z) ELSE z

\* ---- FL2_decompressStream_blocking
Begin(x) == \* the property byte
    IF x.stage # "init" THEN x
    ELSE [x EXCEPT !.ip = @ + 1, !.stage = "dec", !.mt = w.thr > 1, !.fail = w.thr > 1 /\ w.lim < (w.dict + w.dict \div 6) * 2,
                   !.blk = [i \in 1..w.thr |-> B0]]
Hash(x) ==
    IF x.stage # "hash" THEN x
    ELSE LET y == IF x.mt /\ x.ovn > 0 THEN LET r == Min(w.hash - x.hx, x.ovn) IN [(IF x.ovb # w.em + 1 + x.hx THEN Flag(x, "wrong bytes") ELSE x) EXCEPT !.hx = @ + r, !.ovn = 0] ELSE x
             r == Min(w.hash - y.hx, y.ie - y.ip)
             z == IF r > 0 /\ y.ip # w.em + 1 + y.hx THEN Flag(y, "wrong bytes") ELSE y
         IN [z EXCEPT !.hx = @ + r, !.ip = @ + r, !.stage = IF y.hx + r = w.hash THEN "fin" ELSE @]
Call(x0, n, cap) ==
    LET x == [x0 EXCEPT !.ie = x0.ip + n, !.sp = cap]
        act == n > 0 \/ (x.mt /\ x.stage # "init")
        b == Begin(x)
        y == IF ~act \/ x.stage = "fin" THEN x ELSE LET z == IF b.mt THEN Several(b) ELSE Over(b) IN IF z.err # "" THEN z ELSE Hash(z)
        still == y.stage # "fin" /\ y.ip = x.ip /\ y.tot = x.tot
        z == [y EXCEPT !.loop = IF still THEN @ + 1 ELSE 0]
    IN IF y.err # "" THEN [t |-> y, r |-> y.err]
       ELSE IF z.loop > 2 THEN [t |-> [z EXCEPT !.err = "buffer"], r |-> "buffer"]
       ELSE [t |-> [z EXCEPT !.ie = 0, !.sp = 0], r |-> IF z.stage = "fin" THEN "0" ELSE "1"]
R0 == [n |-> 0, cap |-> 0, was |-> 0, din |-> 0, dout |-> 0, r |-> "", idle |-> 0]
Init == \E x \in Worlds : w = World(x) /\ t = T0 /\ ret = R0
Next == \/ \E n \in Ns, cap \in Caps :
             /\ ret.r \in {"", "1"} /\ t.bad = {}
             /\ n <= w.size + w.trail - t.ip
             /\ LET c == Call(t, n, cap) IN
                /\ t' = c.t
                /\ ret' = [n |-> n, cap |-> cap, was |-> t.ip, din |-> c.t.ip - t.ip, dout |-> c.t.tot - t.tot, r |-> c.r, idle |-> t.loop]
             /\ UNCHANGED w
        \/ ret.r \notin {"", "1"} /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---- what the properties say
NothingBad == t.bad = {}                                    \* C08, C01: every byte is used once, in order
NoFailure == ret.r # "corrupt"                              \* C07, C14: a legal stream is never rejected, whatever the limit
Done == ret.r = "0" => t.tot = w.total /\ t.ip = w.size     \* C08: complete exactly at the end
Within == t.tot <= w.total /\ t.ip <= w.size                \* C08: nothing after the stream is consumed
Moves == (ret.n > 0 /\ ret.cap > 0 /\ ret.was < w.size) => (ret.din + ret.dout > 0)                              \* C08: input and space make progress
Drains == (ret.r = "1" /\ ret.was = w.size /\ ret.cap > 0 /\ t.tot - ret.dout < w.total) => ret.dout > 0         \* C08: so does space at the end
NoRefusal == ret.r = "buffer" => ret.idle >= 2 /\ (ret.n = 0 \/ ret.cap = 0 \/ ret.was = w.size)                 \* C08
Memory == w.thr > 1 => Real(t) <= Max(w.lim, 0)             \* C14
Finish == (t.ip = w.size /\ t.tot = w.total /\ ret.cap > ret.dout) => ret.r = "0"                                \* C08
====
