---- MODULE ApiTrace ----
(* Validates recorded call histories of the real library against the contracts (Compress, Decompress).
   The file holds many histories; every unit of Units is the range of lines of one group of
   scenarios and is one (linear) behaviour of this specification: a unit is accepted when its last line is
   consumed, which prints DONE. "scenario" starts with fresh objects; the members of a group are
   compared with its first member (gold) where the script marks it. *)
EXTENDS Compress, Decompress, PoolContract, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
\* the preset level table, as the library reports it anywhere in the file
Tab == LET L == { i \in 1..N : Trace[i].e = "level" /\ Trace[i].r = "ok" }
           K == { <<Trace[i].h, Trace[i].l>> : i \in L }
       IN  [ k \in K |-> Trace[CHOOSE i \in L : <<Trace[i].h, Trace[i].l>> = k].lp ]
Starts == SelectSeq([i \in 1..N |-> i], LAMBDA i : Trace[i].e = "scenario" /\ Trace[i].cont = 0)
Units == 1..Len(Starts)
UEnd(u) == IF u = Len(Starts) THEN N ELSE Starts[u + 1] - 1

VARIABLES u, l, c, d, x, f, gold, gi, mk, p
vars == <<u, l, c, d, x, f, gold, gi, mk, p>>
Empty == [i \in {} |-> 0]
Init == /\ u \in Units /\ l = Starts[u]
        /\ c = Empty /\ d = Empty /\ x = Empty /\ f = Empty /\ gold = <<>> /\ gi = -1 /\ mk = 0 /\ p = Empty
E == Trace[l]
Put(m, k, v) == [i \in DOMAIN m \cup {k} |-> IF i = k THEN v ELSE m[i]]
Del(m, k) == [i \in DOMAIN m \ {k} |-> m[i]]
Is(k) == l <= UEnd(u) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED u
Same(vs) == UNCHANGED vs

\* comparison of the members of a group; gi = -1: recording, otherwise position compared next
Cmp(t) == IF mk = 0 THEN UNCHANGED <<gold, gi>>
          ELSE IF gi = -1 THEN gold' = Append(gold, t) /\ UNCHANGED gi
          ELSE /\ R({"C10", "C12", "C13", "C14", "C08"}, "same result as the reference member of the group", gi < Len(gold) /\ gold[gi + 1] = t)
               /\ gi' = gi + 1 /\ UNCHANGED gold
NoCmp == UNCHANGED <<gold, gi>>

Scenario ==
    /\ Is("scenario")
    /\ IF E.cont = 0 THEN gold' = <<>> /\ gi' = -1 ELSE gi' = 0 /\ UNCHANGED gold
    /\ c' = Empty /\ d' = Empty /\ x' = Empty /\ f' = Empty /\ mk' = 0 /\ p' = Empty
Mark == Is("mark") /\ mk' = E.on /\ UNCHANGED <<c, d, x, f, gold, gi>>

(* ---- compression objects ---- *)
C1 == c[E.o]
UC == UNCHANGED <<d, x, f, mk>>
Level == Is("level") /\ LevelOk(E) /\ Same(<<c, gold, gi>>) /\ UC
CreateC == Is("cnew") /\ CNewOk(E, Tab) /\ c' = (IF E.ok = 1 THEN Put(c, E.o, CNew(E)) ELSE c) /\ NoCmp /\ UC
Step(ok, to) == ok /\ c' = Put(c, E.o, to) /\ NoCmp /\ UC
SetParam == Is("cset") /\ Step(CSetOk(C1, E, Tab), CSetTo(C1, E))
GetParam == Is("cget") /\ Step(CGetOk(C1, E), C1)
OneShot == /\ Is("comp") /\ CompOk(C1, E, Tab) /\ c' = Put(c, E.o, CompTo(C1, E)) /\ UC
           /\ Cmp(<<"comp", E.r, E.v, E.digest>>)
OneShotFree == Is("comp1") /\ Comp1Ok(E, Tab) /\ Same(<<c>>) /\ UC /\ Cmp(<<"comp1", E.r, E.v, E.digest>>)
\* want = 1: two contexts with the same parameters; 0: a parameter that changes the search must change something
CmpBuf == /\ Is("cmpb") /\ Same(<<c>>) /\ UC /\ NoCmp
          /\ IF E.want = 1 THEN R({"C11", "C12"}, "equal parameters give equal bytes", E.same = 1)
             ELSE R({"C11"}, "the parameter has an effect", E.same = 0)
InitStream == Is("sinit") /\ Step(SInitOk(C1, E, Tab), SInitTo(C1, E))
SetTimeout == Is("stimeout") /\ Step(STimeoutOk(C1, E), STimeoutTo(C1, E))
Feed == Is("feed") /\ Step(FeedOk(C1, E), FeedTo(C1, E))
Copy == Is("copy") /\ Step(CopyOk(C1, E), CopyTo(C1, E))
NextSlice == Is("next") /\ Step(NextOk(C1, E), NextTo(C1, E))
Flush == Is("flush") /\ Step(FlushOk(C1, E), FlushTo(C1, E))
End == Is("end") /\ Step(EndOk(C1, E), EndTo(C1, E))
GetDict == Is("getdict") /\ Step(GetDictOk(C1, E), GetDictTo(C1, E))
Update == Is("update") /\ Step(UpdateOk(C1, E), UpdateTo(C1, E))
Wait == Is("wait") /\ Step(WaitOk(C1, E), WaitTo(C1, E))
Cancel == Is("cancel") /\ Step(TRUE, CancelTo(C1, E))
CheckStream == /\ Is("check") /\ CheckOk(C1, E) /\ Same(<<c>>) /\ UC /\ Cmp(<<"check", E.fed, E.out, E.digest>>)
FreeC == Is("cfree") /\ c' = Del(c, E.o) /\ NoCmp /\ UC

(* ---- memory ---- *)
K == 1024
EstStream == /\ Is("est") /\ Same(<<c, d, x, f, mk>>) /\ NoCmp
             /\ R({"C16"}, "memory within the estimate of the object", E.live <= E.ucs + Overhead(E.thr) /\ E.live <= E.ucc + Overhead(E.thr))
EstLevel == /\ Is("estl") /\ Same(<<c, d, x, f, mk>>) /\ NoCmp
            /\ IF E.el < 0 \/ E.el > MaxLevel
               THEN R({"C16"}, "no estimate for a level that does not exist", E.ecs = "bound" /\ E.ecc = "bound")
               ELSE E.ok = 1 =>
                  \* the estimate of a level is a budget for every level up to it
                  /\ R({"C16"}, "memory within the level estimate", E.ecs = "ok" /\ E.ecc = "ok" /\ E.kpeak * K <= E.kcs * K + Overhead(E.t))
                  /\ R({"C16"}, "memory within the estimate by parameters", E.l = E.el /\ E.l > 0 => E.kpeak * K <= E.kpcs * K + Overhead(E.t))
                  /\ R({"C16"}, "memory within the estimate of the object", E.kpeak * K <= E.kucs * K + Overhead(E.t))
EstDec == /\ Is("estd") /\ Same(<<c, d, x, f, mk>>) /\ NoCmp
          /\ R({"C16"}, "memory within the decoder estimate", E.peak <= E.dctx + Overhead(E.t))
MemEv == Is("mem") /\ Same(<<c, d, x, f, mk>>) /\ NoCmp

(* ---- decompression ---- *)
Ref == /\ Is("refdec") /\ f' = Put(f, E.b, [st |-> E.st, len |-> E.len, used |-> E.used, hash |-> E.hash, size |-> E.size, dict |-> E.dict])
       /\ Same(<<c, d, x, mk>>) /\ NoCmp
\* short streams: what the bytes mean by the format itself, byte by byte
L2 == INSTANCE Lzma2
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
FmtOk(e, t) ==
    /\ R({"C01", "C03", "C06", "C07"}, "the reference decoder follows the format", e.st = t.st /\ e.ref = t.out /\ (t.hash = -1 => e.used = t.used))
    /\ R({"C01", "C06", "C07"}, "one-shot decoding follows the format",
         IF t.st = "ok" /\ t.hash \in {-1, 1} THEN e.one = "ok" /\ e.oneout = t.out ELSE e.one # "ok")
    /\ R({"C01", "C06", "C07", "C08"}, "streamed decoding follows the format",
         /\ Prefix(e.strout, t.out) \/ t.st # "ok"
         /\ IF t.st = "ok" /\ t.hash \in {-1, 1} THEN e.str = "ok" /\ e.left = 0 /\ e.strout = t.out /\ e.strused = t.used
            ELSE e.left # 0)
Format == Is("fmt") /\ FmtOk(E, L2!Decode(E.in, E.prop)) /\ Same(<<c, d, x, f, mk>>) /\ NoCmp
Mut == Is("mut") /\ f' = Del(f, E.o) /\ Same(<<c, d, x, mk>>) /\ NoCmp
Misc == (Is("dinit1") \/ Is("dfree") \/ Is("xmem") \/ Is("chunks")) /\ Same(<<c, d, x, f, mk>>) /\ NoCmp
CreateD == Is("dnew") /\ R({"C15"}, "creation fails only for lack of resources", (E.ok = 0 => E.flt > 0) /\ (E.ok = 0 => E.leak = 0))
           /\ Same(<<c, d, x, f, mk>>) /\ NoCmp
Decode == Is("ddec") /\ DDecOk(f[E.b], E) /\ Same(<<c, d, x, f, mk>>) /\ Cmp(<<"ddec", E.r, E.v>>)
SizeQuery == Is("usize") /\ USizeOk(f[E.b], E) /\ Same(<<c, d, x, f, mk>>) /\ NoCmp
DictProp == Is("dictprop") /\ DictPropOk(E) /\ Same(<<c, d, x, f, mk>>) /\ NoCmp
X1 == x[E.o]
F1 == f[X1.b]
XS(ok, to) == ok /\ x' = Put(x, E.o, to) /\ Same(<<c, d, f, mk>>)
CreateX == Is("xnew") /\ XNewOk(E) /\ x' = (IF E.ok = 1 THEN Put(x, E.o, XNew(E)) ELSE x) /\ Same(<<c, d, f, mk>>) /\ NoCmp
InitX == Is("xinit") /\ XS(XInitOk(X1, E), XInitTo(X1, E)) /\ NoCmp
SourceX == Is("xsrc") /\ XS(TRUE, [X1 EXCEPT !.b = E.b, !.at = E.at, !.in = E.at, !.sdict = IF E.b \in DOMAIN f /\ f[E.b].dict > @ THEN f[E.b].dict ELSE @]) /\ NoCmp
TimeoutX == Is("xtimeout") /\ XS(XTimeoutOk(X1, E), IF E.r = "ok" THEN [X1 EXCEPT !.tmo = E.ms] ELSE X1) /\ NoCmp
\* what earlier streams left allocated does not count against a limit set afterwards
LimitX == Is("xlimit") /\ XS(TRUE, [X1 EXCEPT !.lim = E.lim, !.base = IF X1.lv > @ THEN X1.lv ELSE @]) /\ NoCmp
DecodeX == Is("dec") /\ XS(DecOk(X1, F1, E) /\ MemLimit(X1, E), [XTo(X1, E) EXCEPT !.lv = E.live]) /\ NoCmp
WaitX == Is("dwait") /\ XS(WaitXOk(X1, F1, E), XTo(X1, E)) /\ NoCmp
CancelX == Is("xcancel") /\ XS(TRUE, [X1 EXCEPT !.st = "cancel"]) /\ NoCmp
CheckX == Is("dcheck") /\ XS(TRUE, X1) /\ Cmp(<<"dcheck", E.digest, E.tot>>)
FreeX == Is("xfree") /\ x' = Del(x, E.o) /\ Same(<<c, d, f, mk>>) /\ NoCmp

(* ---- thread pools (only p changes) ---- *)
P1 == p[E.o]
PS(ok, to) == ok /\ p' = Put(p, E.o, to) /\ Same(<<c, d, x, f, mk, gold, gi>>)
CreateP == Is("pnew") /\ PNewOk(E) /\ p' = (IF E.ok = 1 THEN Put(p, E.o, PNew(E)) ELSE p) /\ Same(<<c, d, x, f, mk, gold, gi>>)
AddP == Is("padd") /\ PS(PAddOk(P1, E), PAddTo(P1, E))
JobStart == Is("jstart") /\ PS(JStartOk(P1, E), JStartTo(P1, E))
JobEnd == Is("jend") /\ PS(JEndOk(P1, E), JEndTo(P1, E))
WaitP == Is("pwait") /\ PS(PWaitOk(P1, E), PWaitTo(P1, E))
BusyP == Is("pbusy") /\ PS(PBusyOk(P1, E), P1)
FreeP == Is("pfree") /\ PFreeOk(P1) /\ p' = Del(p, E.o) /\ Same(<<c, d, x, f, mk, gold, gi>>)
PoolAct == CreateP \/ AddP \/ JobStart \/ JobEnd \/ WaitP \/ BusyP \/ FreeP

(* the end of a scenario: everything was freed *)
Final == /\ Is("final") /\ Same(<<c, d, x, f, mk>>)
         /\ R({"C15", "C12", "C10", "C09"}, "freeing releases everything", E.live = 0 /\ E.nlive = 0 /\ E.badfree = 0)
         /\ R({"C15", "C12", "C10", "C09"}, "no thread survives", E.thr = 0)
         /\ R({"C10", "C12", "C13", "C14", "C08"}, "same number of results as the reference member", gi \in {-1, Len(gold)})
         /\ NoCmp

Act == \/ Level \/ CreateC \/ SetParam \/ GetParam \/ OneShot \/ CmpBuf \/ OneShotFree \/ InitStream \/ SetTimeout
        \/ Feed \/ Copy \/ NextSlice \/ Flush \/ End \/ GetDict \/ Update \/ Wait \/ Cancel \/ CheckStream \/ FreeC
        \/ EstStream \/ EstLevel \/ EstDec \/ MemEv \/ Ref \/ Format \/ Mut \/ Misc \/ CreateD \/ Decode \/ SizeQuery \/ DictProp
        \/ CreateX \/ InitX \/ SourceX \/ TimeoutX \/ LimitX \/ DecodeX \/ WaitX \/ CancelX \/ CheckX \/ FreeX
Next == TLCSet(7, <<u, l>>) /\ (PoolAct \/ ((Act \/ Final \/ Mark) /\ UNCHANGED p) \/ Scenario)
Spec == Init /\ [][Next]_vars
\* progress marks: read by the driver
Progressed == IF l = UEnd(u) + 1 THEN PrintT(<<"DONE", u>>) ELSE TRUE
====
