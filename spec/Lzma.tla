---- MODULE Lzma ----
(* The LZMA bit stream: range decoder, adaptive model, packets. Written from the format description; shares nothing
   with the library. A decoder is a record
     in, i, e    the bytes, the next one to read, the last one of the chunk
     r, c        range and code (words), over: the chunk's bytes did not suffice, b: the last bit decoded
     m           the probabilities that left their initial value
     st, rep     packet state 0..11 and the last four distances (less one)
     lc, lp, pb  properties
     out, d0     the bytes produced and how many of them precede the last dictionary reset
     max         the largest distance used
     err         "" or why the chunk is illegal                                                             *)
EXTENDS Word, TLC
\* places of the probabilities
KMatch(st, ps) == st * 16 + ps
KRep(st) == 192 + st
KRep0(st) == 204 + st
KRep1(st) == 216 + st
KRep2(st) == 228 + st
KRep0Long(st, ps) == 240 + st * 16 + ps
KSlot(l) == 432 + 64 * (IF l < 6 THEN l - 2 ELSE 3)
KSpec(slot) == 600 + 32 * slot                \* slots 4..13, loosely packed: 728..1047
KAlign == 1048
KLen == 1100
KRepLen == 1700
KLow(k, ps) == k + 2 + 8 * ps
KMid(k, ps) == k + 130 + 8 * ps
KHigh(k) == k + 258
KLit(c) == 3000 + 768 * c
Prob(m, k) == IF k \in DOMAIN m THEN m[k] ELSE 1024
NoModel == <<>>                               \* the empty function
HUGE == 2^20                                  \* stands for every distance no stream examined here can reach

Norm(d) == IF d.r[1] >= 256 THEN d
           ELSE IF d.i <= d.e THEN [d EXCEPT !.r = WIn8(d.r, 0), !.c = WIn8(d.c, d.in[d.i]), !.i = @ + 1]
           ELSE [d EXCEPT !.r = WIn8(d.r, 0), !.c = WIn8(d.c, 0), !.over = TRUE]
\* (range >> 11) * p
Bound(r, p) == LET q == r[1] * 32 + r[2] \div 2048
                   x == (q \div 1024) * p   y == (q % 1024) * p
                   l == (x % 64) * 1024 + y
               IN <<x \div 64 + l \div B16, l % B16>>
Bit(d0, k) ==
    LET d == Norm(d0)   p == Prob(d.m, k)   bd == Bound(d.r, p) IN
    IF WLt(d.c, bd) THEN [d EXCEPT !.r = bd, !.b = 0, !.m = (k :> p + ((2048 - p) \div 32)) @@ @]
    ELSE [d EXCEPT !.r = WSub(d.r, bd), !.c = WSub(d.c, bd), !.b = 1, !.m = (k :> p - p \div 32) @@ @]
\* n bits of equal probability; the value is in v
RECURSIVE Direct(_, _)
Direct(d0, n) ==
    IF n = 0 THEN d0
    ELSE LET d == Norm(d0)   h == WShr1(d.r)   one == ~WLt(d.c, h) IN
         Direct([d EXCEPT !.r = h, !.c = IF one THEN WSub(d.c, h) ELSE @, !.v = 2 * @ + (IF one THEN 1 ELSE 0)], n - 1)
\* a bit tree: v starts at 1
RECURSIVE Tree(_, _, _)
Tree(d, k, n) == IF n = 0 THEN d ELSE LET x == Bit(d, k + d.v) IN Tree([x EXCEPT !.v = 2 * @ + x.b], k, n - 1)
TreeV(d, k, n) == LET x == Tree([d EXCEPT !.v = 1], k, n) IN [x EXCEPT !.v = @ - 2^n]
\* reversed bit tree: node in t, value in v, weight w
RECURSIVE RTree(_, _, _, _, _)
RTree(d, k, n, t, w) == IF n = 0 THEN d ELSE LET x == Bit(d, k + t) IN RTree([x EXCEPT !.v = @ + w * x.b], k, n - 1, 2 * t + x.b, 2 * w)

Pos(s) == Len(s.out) - s.d0
Back(s, dist) == s.out[Len(s.out) - dist]     \* dist: distance less one
\* a literal after a match is coded relative to the byte at the last distance
RECURSIVE MatchedLit(_, _, _)
MatchedLit(d, k, mb) ==
    IF d.v >= 256 THEN d
    ELSE LET t == (mb \div 128) % 2   x == Bit(d, k + (1 + t) * 256 + d.v)   y == [x EXCEPT !.v = 2 * @ + x.b] IN
         IF t = x.b THEN MatchedLit(y, k, (mb * 2) % 256) ELSE y
RECURSIVE PlainLit(_, _)
PlainLit(d, k) == IF d.v >= 256 THEN d ELSE LET x == Bit(d, k + d.v) IN PlainLit([x EXCEPT !.v = 2 * @ + x.b], k)
Literal(s) ==
    LET pos == Pos(s)
        prev == IF pos = 0 THEN 0 ELSE s.out[Len(s.out)]
        k == KLit(((pos % 2^s.lp) * 2^s.lc) + prev \div 2^(8 - s.lc))
        s1 == [s EXCEPT !.v = 1]
    IN IF s.st >= 7 /\ s.rep[1] + 1 > pos THEN [s EXCEPT !.err = "literal match byte outside dictionary"]
       ELSE LET x == PlainLit(IF s.st >= 7 THEN MatchedLit(s1, k, Back(s, s.rep[1])) ELSE s1, k) IN
            [x EXCEPT !.out = Append(@, x.v - 256), !.st = IF @ < 4 THEN 0 ELSE IF @ < 10 THEN @ - 3 ELSE @ - 6]
\* match length 2..273 into len
LenCode(d, k, ps) ==
    LET c1 == Bit(d, k) IN
    IF c1.b = 0 THEN LET x == TreeV(c1, KLow(k, ps), 3) IN [x EXCEPT !.len = 2 + x.v]
    ELSE LET c2 == Bit(c1, k + 1) IN
         IF c2.b = 0 THEN LET x == TreeV(c2, KMid(k, ps), 3) IN [x EXCEPT !.len = 10 + x.v]
         ELSE LET x == TreeV(c2, KHigh(k), 8) IN [x EXCEPT !.len = 18 + x.v]
\* distance less one into v
DistCode(d) ==
    LET x == TreeV(d, KSlot(d.len), 6)   slot == x.v   nb == slot \div 2 - 1 IN
    IF slot < 4 THEN x
    ELSE IF nb > 18 THEN [x EXCEPT !.v = HUGE]
    ELSE LET base == (2 + (slot % 2)) * 2^nb IN
         IF slot < 14 THEN RTree([x EXCEPT !.v = base], KSpec(slot), nb, 1, 1)
         ELSE LET y == Direct([x EXCEPT !.v = 0], nb - 4) IN RTree([y EXCEPT !.v = base + 16 * @], KAlign, 4, 1, 1)
RECURSIVE Copy(_, _, _)
Copy(out, dist, n) == IF n = 0 THEN out ELSE Copy(Append(out, out[Len(out) - dist]), dist, n - 1)
\* the match in len, rep: legal, then copied
CopyMatch(s, end, dict) ==
    IF s.rep[1] + 1 > Pos(s) THEN [s EXCEPT !.err = "distance before dictionary reset"]
    ELSE IF s.rep[1] + 1 > dict THEN [s EXCEPT !.err = "distance beyond dictionary size"]
    ELSE IF s.len > end - Len(s.out) THEN [s EXCEPT !.err = "match crosses chunk end"]
    ELSE [s EXCEPT !.out = Copy(@, s.rep[1], s.len), !.max = IF s.rep[1] + 1 > @ THEN s.rep[1] + 1 ELSE @]
\* one packet
Packet(s, end, dict) ==
    LET ps == Pos(s) % 2^s.pb   a == Bit(s, KMatch(s.st, ps)) IN
    IF a.b = 0 THEN Literal(a)
    ELSE LET b == Bit(a, KRep(s.st)) IN
    IF b.b = 0
    THEN LET x == DistCode(LenCode([b EXCEPT !.st = IF @ < 7 THEN 7 ELSE 10], KLen, ps)) IN
         CopyMatch([x EXCEPT !.rep = <<x.v, @[1], @[2], @[3]>>], end, dict)
    ELSE IF Pos(s) = 0 THEN [b EXCEPT !.err = "rep match on empty dictionary"]
    ELSE LET c == Bit(b, KRep0(s.st)) IN
    IF c.b = 0
    THEN LET g == Bit(c, KRep0Long(s.st, ps)) IN
         IF g.b = 0 THEN CopyMatch([g EXCEPT !.len = 1, !.st = IF @ < 7 THEN 9 ELSE 11], end, dict)
         ELSE CopyMatch([LenCode(g, KRepLen, ps) EXCEPT !.st = IF @ < 7 THEN 8 ELSE 11], end, dict)
    ELSE LET f == Bit(c, KRep1(s.st))
             h == IF f.b = 0 THEN f ELSE Bit(f, KRep2(s.st))
             z == [h EXCEPT !.rep = IF f.b = 0 THEN <<@[2], @[1], @[3], @[4]>> ELSE IF h.b = 0 THEN <<@[3], @[1], @[2], @[4]>> ELSE <<@[4], @[1], @[2], @[3]>>]
         IN CopyMatch([LenCode(z, KRepLen, ps) EXCEPT !.st = IF @ < 7 THEN 8 ELSE 11], end, dict)
\* packets until the chunk's output is complete, then the end of the range coder
RECURSIVE Packets(_, _, _)
Packets(s, end, dict) ==
    IF s.err # "" THEN s
    ELSE IF Len(s.out) < end THEN IF s.over THEN [s EXCEPT !.err = "input exhausted"] ELSE Packets(Packet(s, end, dict), end, dict)
    ELSE LET x == Norm(s) IN
         IF x.over THEN [x EXCEPT !.err = "input exhausted"]
         ELSE IF x.i # x.e + 1 THEN [x EXCEPT !.err = "packed bytes left over"]
         ELSE IF x.c # Zero THEN [x EXCEPT !.err = "range coder not finished"] ELSE x
\* a chunk's payload: packed bytes from..to, producing ulen bytes
Payload(s, from, to, ulen, dict) ==
    IF to - from + 1 < 5 THEN [s EXCEPT !.err = "input exhausted"]
    ELSE IF s.in[from] # 0 THEN [s EXCEPT !.err = "first byte"]
    ELSE Packets([s EXCEPT !.i = from + 5, !.e = to, !.over = FALSE, !.r = <<65535, 65535>>,
                           !.c = <<s.in[from + 1] * 256 + s.in[from + 2], s.in[from + 3] * 256 + s.in[from + 4]>>], Len(s.out) + ulen, dict)
====
