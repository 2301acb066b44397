---- MODULE Lzma2 ----
(* The LZMA2 stream: property byte, chunks, end marker, checksum.  Decode(bytes, prop) is what a sequence of bytes
   means; prop = -1: the first byte is the property byte.  The result is
     st    "ok" (end marker reached), "trunc" (bytes end before it), "bad" (illegal)
     out   what the whole chunks up to there decode to,  used  bytes up to the end of the stream with its checksum
     hash  -1 no checksum, 1 right, 0 wrong, -2 cut short,  err  why it is illegal                                *)
EXTENDS Lzma

(* The grammar of chunks. g: which resets are still needed before a chunk may rely on the state they make.
   0 end; 1 copy after a dictionary reset; 2 copy; 128.. LZMA: bits 5 and 6 select no reset, state reset,
   state reset and new properties, all of these and a dictionary reset. *)
G0 == [dict |-> TRUE, prop |-> TRUE, state |-> TRUE]
Mode(c) == (c \div 32) % 4
ResetsDict(c) == c = 1 \/ c >= 224
GAfter(g, c) == LET h == IF ResetsDict(c) THEN [dict |-> FALSE, prop |-> TRUE, state |-> TRUE] ELSE g IN
                IF c < 128 THEN h ELSE IF Mode(c) >= 2 THEN [h EXCEPT !.prop = FALSE, !.state = FALSE]
                ELSE IF Mode(c) = 1 THEN [h EXCEPT !.state = FALSE] ELSE h
GLegal(g, c) == IF c = 0 THEN TRUE
                ELSE IF c > 2 /\ c < 128 THEN FALSE
                ELSE IF g.dict /\ ~ResetsDict(c) THEN FALSE
                ELSE IF c < 128 \/ Mode(c) >= 2 THEN TRUE
                ELSE ~g.prop /\ (Mode(c) = 1 \/ ~g.state)

(* XXH32 with seed 0 *)
P1 == <<40503, 31153>>  \* 2654435761
P2 == <<34283, 51831>>  \* 2246822519
P3 == <<49842, 44605>>  \* 3266489917
P4 == <<10196, 60207>>  \* 668265263
P5 == <<5718, 26545>>   \* 374761393
LE32(b, i) == <<b[i + 2] + 256 * b[i + 3], b[i] + 256 * b[i + 1]>>
Round(v, b, i) == WMul(WRotl(WAdd(v, WMul(LE32(b, i), P2)), 13), P1)
RECURSIVE Stripes(_, _, _)
Stripes(b, i, v) == IF i + 15 > Len(b) THEN [v |-> v, i |-> i]
                    ELSE Stripes(b, i + 16, <<Round(v[1], b, i), Round(v[2], b, i + 4), Round(v[3], b, i + 8), Round(v[4], b, i + 12)>>)
RECURSIVE Words(_, _, _)
Words(b, i, h) == IF i + 3 > Len(b) THEN [h |-> h, i |-> i] ELSE Words(b, i + 4, WMul(WRotl(WAdd(h, WMul(LE32(b, i), P3)), 17), P4))
RECURSIVE Rest(_, _, _)
Rest(b, i, h) == IF i > Len(b) THEN h ELSE Rest(b, i + 1, WMul(WRotl(WAdd(h, WMul(<<0, b[i]>>, P5)), 11), P1))
XXH32(b) ==
    LET s == Stripes(b, 1, <<WAdd(P1, P2), P2, Zero, WSub(Zero, P1)>>)
        h0 == IF Len(b) >= 16 THEN WAdd(WAdd(WRotl(s.v[1], 1), WRotl(s.v[2], 7)), WAdd(WRotl(s.v[3], 12), WRotl(s.v[4], 18))) ELSE P5
        w == Words(b, s.i, WAdd(h0, <<Len(b) \div B16, Len(b) % B16>>))
        h1 == Rest(b, w.i, w.h)
        h2 == WMul(WXor(h1, WShr(h1, 15)), P2)
        h3 == WMul(WXor(h2, WShr(h2, 13)), P3)
    IN WXor(h3, WShr(h3, 16))

DictBytes(q) == IF q >= 24 THEN HUGE ELSE (2 + (q % 2)) * 2^(q \div 2 + 11)

Fresh(s) == [s EXCEPT !.m = NoModel, !.st = 0, !.rep = <<0, 0, 0, 0>>]
S0(in) == [in |-> in, i |-> 1, e |-> 0, r |-> Zero, c |-> Zero, over |-> FALSE, b |-> 0, v |-> 0, len |-> 0, m |-> NoModel,
           st |-> 0, rep |-> <<0, 0, 0, 0>>, lc |-> 0, lp |-> 0, pb |-> 0, out |-> <<>>, d0 |-> 0, max |-> 0, err |-> ""]
Result(s, st, used) == [st |-> st, out |-> s.out, used |-> used, max |-> s.max, err |-> s.err, dict |-> 0, hash |-> -1]
RECURSIVE Chunks(_, _, _, _)
\* s the decoder, g the grammar, p the position of the control byte
Chunks(s, g, p, dict) ==
    LET n == Len(s.in)   stop(st) == Result(s, st, p - 1)   bad(why) == Result([s EXCEPT !.err = why], "bad", p - 1) IN
    IF p > n THEN stop("trunc")
    ELSE LET c == s.in[p] IN
    IF c = 0 THEN Result(s, "ok", p)
    ELSE IF ~GLegal(g, c) THEN bad("chunk sequence")
    ELSE LET s1 == IF ResetsDict(c) THEN [s EXCEPT !.d0 = Len(s.out)] ELSE s   g1 == GAfter(g, c) IN
    IF c < 128
    THEN IF p + 2 > n THEN stop("trunc")
         ELSE LET ul == s.in[p + 1] * 256 + s.in[p + 2] + 1 IN
              IF p + 2 + ul > n THEN stop("trunc")
              ELSE Chunks([s1 EXCEPT !.out = @ \o SubSeq(s.in, p + 3, p + 2 + ul)], g1, p + 3 + ul, dict)
    ELSE LET hdr == IF Mode(c) >= 2 THEN 6 ELSE 5 IN
         IF p + hdr - 1 > n THEN stop("trunc")
         ELSE LET ul == (c % 32) * 65536 + s.in[p + 1] * 256 + s.in[p + 2] + 1
                  pl == s.in[p + 3] * 256 + s.in[p + 4] + 1
                  pr == IF hdr = 6 THEN s.in[p + 5] ELSE 0
                  s2 == IF hdr = 6 THEN [s1 EXCEPT !.lc = pr % 9, !.lp = (pr \div 9) % 5, !.pb = pr \div 45] ELSE s1
              IN IF hdr = 6 /\ (pr >= 225 \/ s2.lc + s2.lp > 4) THEN bad("properties")
                 ELSE IF p + hdr - 1 + pl > n THEN stop("trunc")
                 ELSE LET x == Payload(IF Mode(c) >= 1 THEN Fresh(s2) ELSE s2, p + hdr, p + hdr + pl - 1, ul, dict) IN
                      IF x.err # "" THEN bad(x.err) ELSE Chunks(x, g1, p + hdr + pl, dict)
Decode(bytes, prop) ==
    LET q == IF prop >= 0 THEN prop ELSE bytes[1]   k == IF prop >= 0 THEN 0 ELSE 1   d == q % 64 IN
    IF prop < 0 /\ bytes = <<>> THEN [st |-> "trunc", out |-> <<>>, used |-> 0, hash |-> -1, err |-> "", max |-> 0, dict |-> 0]
    ELSE IF d > 40 THEN [st |-> "bad", out |-> <<>>, used |-> k, hash |-> -1, err |-> "dictionary property", max |-> 0, dict |-> 0]
    ELSE LET r == Chunks(S0(SubSeq(bytes, k + 1, Len(bytes))), G0, 1, DictBytes(d))   u == k + r.used IN
         [r EXCEPT !.used = IF r.st = "ok" /\ q >= 128 THEN IF u + 4 <= Len(bytes) THEN u + 4 ELSE Len(bytes) ELSE u,
                   !.dict = DictBytes(d),
                   !.hash = IF r.st # "ok" \/ q < 128 THEN -1 ELSE IF u + 4 > Len(bytes) THEN -2
                            ELSE LET h == XXH32(r.out) IN
                                 IF <<bytes[u + 1] * 256 + bytes[u + 2], bytes[u + 3] * 256 + bytes[u + 4]>> = h THEN 1 ELSE 0]
====
