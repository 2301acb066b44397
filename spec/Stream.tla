---- MODULE Stream ----
(* What a compressed stream is, as far as the compressor's contract (C01..C05) needs it: the summary
   an independent decoder gives of the bytes (see Lzma2.tla, Lzma.tla for what that decoder computes). *)
EXTENDS Params
\* 12-bit mantissa dictionary sizes of the LZMA2 property byte; 31 bits are enough here
DictOfProp(q) == IF q > 38 THEN 2147483647 ELSE (2 + (q % 2)) * Pow2(q \div 2 + 11)
PropOf(size) == CHOOSE q \in 0..38 : DictOfProp(q) >= size /\ (q = 0 \/ DictOfProp(q - 1) < size)
\* dictionary announced for parameter dictSize: the smallest encodable size not below it
MaxAnnounced(par) == IF par.dictSize <= DictOfProp(36) THEN DictOfProp(PropOf(par.dictSize)) ELSE 2147483647
EffLc(par) == IF par.lc + par.lp > 4 THEN 4 - par.lp ELSE par.lc
PropsByte(lc, lp, pb) == (pb * 5 + lp) * 9 + lc
ParByte(par) == PropsByte(EffLc(par), par.lp, par.pb)

(* A complete stream made from n bytes under parameters par; ref is the reference decoder's summary,
   size the stream's length, bytes the set of property bytes that were in force during it. *)
WellFormed(ref, par, size, bytes) ==
    /\ R({"C03"}, "legal chunk sequence", ref.st # "bad")
    /\ R({"C03"}, "starts with a dictionary reset", ref.nch = 0 \/ ref.first = 1 \/ ref.first >= 224)
    /\ R({"C03", "C11"}, "property byte hash flag", ref.hb = -1 \/ par.omit # 0 \/ ref.hb = par.hash)
    /\ R({"C03"}, "matches inside the announced dictionary", ref.maxdist <= Max(ref.dict, 4096))
    /\ R({"C03", "C11"}, "announced dictionary within the setting", par.omit # 0 \/ ref.hb = -1 \/ ref.dict <= MaxAnnounced(par))
    /\ R({"C03", "C11"}, "lc/lp/pb of chunks", \A i \in DOMAIN ref.props : ref.props[i] \in bytes)
    /\ R({"C03", "C11"}, "dictionary reset interval",
         par.reset = 0 \/ par.dictSize > 100000000 \/ ref.gap <= par.dictSize * par.reset)
    /\ R({"C03", "C11"}, "no dictionary reset while the overlap goes on",
         par.overlap = 0 \/ par.dictSize > 100000000
         \/ IF par.reset = 0 THEN ref.nres <= 1 ELSE ref.ming = 0 \/ ref.ming > par.dictSize * (par.reset - 1))
Complete(ref, par, n, size, bytes, ps) ==
    /\ R(ps, "stream decodes to its end", ref.st = "ok")
    /\ R(ps, "decoded length", ref.len = n)
    /\ R(ps, "decoded content", ref.eq = 1)
    /\ R(ps \cup {"C03"}, "nothing after the stream", ref.used = size)
    /\ R(ps \cup {"C03", "C11"}, "checksum present and right", (par.hash # 0 /\ par.omit = 0) => ref.hash = 1)
    /\ WellFormed(ref, par, size, bytes)
====
