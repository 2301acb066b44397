"""Behaviours of the model CStreamImpl as call histories for the real library.

TLC enumerates the state graph of the model (-dump); walks over it that cover its edges become scenarios: one
unit of the model is 1024 bytes, so that the dictionary (4 units) is 4096 bytes and a block of several units is
compressed by two encoder threads in the hooked builds, exactly as in the model. The walks are validated by the
contract like any other history; in addition the return value the model predicts for every synchronous call is
compared with the real one, which shows whether the model describes the code (informational: reported in the
evidence, never a violation)."""
import os, re, shutil, tempfile, random
import runner, models
from runner import Group
U = 1024
NODE = re.compile(r'^(-?\d+) \[label="(.*?)",(?:tooltip=|style =)')
EDGE = re.compile(r'^(-?\d+) -> (-?\d+) \[label="(\w+)"')

class G: pass
CACHE = {}
STATS = []          # what was covered, for the evidence
def graph(**k):
    key = repr(sorted(k.items()))
    if key not in CACHE: CACHE[key] = graph_(**k)
    return CACHE[key]
def graph_(**k):
    """state graph of CStreamImpl: nodes {id: fields}, edges {id: [(action, id)]}, initial id"""
    d = tempfile.mkdtemp(prefix="mbt", dir=runner.WORK)
    try:
        rc, out = runner.tlc("CStreamImpl", models.cstream(live=False, **k), args=["-workers", "1", "-fp", "1", "-dump", "dot,actionlabels", os.path.join(d, "g.dot")], workdir=d, mem="3g", timeout=800)
        if "Model checking completed. No error" not in out: raise runner.InfraError("TLC on CStreamImpl (state graph): " + out[-800:])
        g = G(); g.nodes, g.edges, g.init = {}, {}, None
        fld = re.compile(r'(?:, |\[|\\n  | )(open|th|n|pos|sz|in|cap|op|ret|fed|st) \|-> (<<[^>]*>>|\\"\w*\\"|[-\w]+)')
        for line in open(os.path.join(d, "g.dot")):
            m = EDGE.match(line)
            if m:
                a, b, l = m.groups()
                if a != b: g.edges.setdefault(a, []).append((l, b))
                continue
            m = NODE.match(line)
            if m and m.group(1) not in g.nodes:
                t = m.group(2); f = {}
                for key, v in fld.findall(t):
                    f[key] = [int(x) for x in re.findall(r"-?\d+", v)] if v.startswith("<<") else v.strip('\\"') if v.startswith("\\") else v if v in ("TRUE", "FALSE") else int(v)
                f["pc"] = re.search(r'pc = \\"(\w+)\\"', t).group(1)
                f["rem"] = sum(f["sz"][f["th"]:f["n"]]) - f["pos"] if f["n"] > f["th"] else 0
                g.nodes[m.group(1)] = f
                if g.init is None: g.init = m.group(1)
        g.stats = runner.tlc_stats(out)
        return g
    finally: shutil.rmtree(d, ignore_errors=True)

def walks(g, rng, n, length):
    """n walks of about length edges; uncovered edges first"""
    left = {a: rng.sample(es, len(es)) for a, es in g.edges.items()}     # not yet taken
    taken = 0; out = []
    for _ in range(n):
        at, w = g.init, []
        while len(w) < length or g.nodes[at]["pc"] != "idle":
            todo = left.get(at)
            if todo: e = todo.pop(); taken += 1
            else:
                es = g.edges.get(at)
                if not es: break
                hot = [e for e in es if left.get(e[1])]
                e = rng.choice(hot or es)
            w.append((at,) + e); at = e[1]
        out.append(w)
        if not any(left.values()): break
    return out, taken, sum(map(len, g.edges.values()))

def cap_tok(c, rem):
    return "-1" if c < 0 else "0" if c == 0 else "1048576" if c >= 100 else "%d" % (40 * c) if c > rem else "rem*%d/%d" % (c, rem)

def script(g, w, rng, dual, timed):
    """the calls of one walk"""
    body, call, last = [], None, None
    for a, act, b in w:
        A, Bn = g.nodes[a], g.nodes[b]
        dl = A["rem"] - Bn["rem"]
        if act in ("InitStream", "JobDone"):
            if act == "InitStream": body.append(act)
            continue
        if act == "Cancel": body += ["cancel 0", "InitStream"]; continue
        if A["pc"] == "idle":
            if act == "Feed": c = Bn["cap"] + (dl if Bn["cap"] >= 0 else 0); call = "feed 0 %d %s" % (Bn["in"] * U, cap_tok(c, A["rem"]))
            elif act == "Dict": call = "dict 0 %d" % U
            elif act == "CopyOut": call = "copy 0 %s" % cap_tok(0 if dl == 0 else 100 if Bn["rem"] == 0 else dl, A["rem"])
            elif act == "Next1": call = "next 0"
            elif act == "WaitCall": call = "wait 0"
            else: c = Bn["cap"] + (dl if Bn["cap"] >= 0 else 0); call = "%s 0 %s" % ("flush" if act == "Flush" else "end", cap_tok(c, A["rem"]))
        elif act == "DShift" and Bn["pc"] == "d_update": call = "dict 0 %d" % (Bn["in"] * U)
        if Bn["pc"] == "idle" and call:
            p = {"0": "0", "1": "1", "timeout": "t", "none": ""}[Bn["ret"]]
            if p == "" : call = "dict 0 0"
            body.append(call + (" =" + p if p and not (dual or timed) else ""))
            if call.startswith("flush") and Bn["ret"] == "0" and rng.random() < 0.5: body.append("check 0")
            call = None
    return body

def groups(rng, tier, variants, dual=False, timed=False, n=200, length=60, F=5, ov=1, ri=2, sched=None, prefix="mb"):
    """scenario groups from the model; also returns statistics"""
    g = graph(D=4, OV=ov, RI=ri, dual=dual, timed=timed, F=F, slices=2, feeds="{1, 3, 4}", caps="CapsFew")
    ws, taken, total = walks(g, rng, n, length)
    gs = []
    for i, w in enumerate(ws):
        v = variants[i % len(variants)]
        ops = script(g, w, rng, dual, timed)
        thr = 2
        body = ["cnew 0 %d %d" % (thr, int(dual)), "cset 0 dictSize 4096", "cset 0 overlap %d" % (4 * ov), "cset 0 reset %d" % ri, "cset 0 strategy %d" % rng.randrange(3), "cset 0 bufres 0"]
        if timed: body.append("stimeout 0 1")
        import gen
        spec = rng.choice([gen.data(rng, 16 * U), "t:%d:%d" % (16 * U, i), "b:%d:40:%d" % (16 * U, i), "r:%d:%d" % (16 * U, i)])
        for o in ops:
            if o == "InitStream": body += ["sinit 0 0", "data 1 " + spec, "src 0 1"]
            else: body.append(o)
        body += ["endall 0 1048576", "waitall 0", "endall 0 1048576", "check 0", "cfree 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, sched(rng) if sched and v == "ctl" else "")], v))
    STATS.append(dict(model="CStreamImpl", dual=dual, timed=timed, F=F, overlap=ov, reset=ri, states=g.stats[1], edges=total, edges_covered=taken, walks=len(ws)))
    return gs

# ---- decompression: behaviours of DStreamImpl ------------------------------------------------------
# The streams of the model are real ones: the harness makes them and reports their chunks; sizes are bytes. TLC
# produces random behaviours; those that reach a situation not seen before become call histories. Where in its input
# the decoder stands inside an LZMA chunk is only approximated by the model, so that predicted positions may differ.
STREAMS = ["1,9 2,300 1,7", "224,700 224,900 224,300", "224,3000 128,2000 224,1500", "1,3000 2,2500 224,400", "224,60 1,1000 1,1100 224,200 160,77", "224,1200 224,1200 224,1200 224,1200 224,1200",
           "1,1021 1,1018 1,1024 1,1", "224,20 224,1 224,2 224,3 224,900 1,1 1,2 224,50", "224,6000 224,6000", "1,5000 224,5000 2,5000"]
KIND = lambda c: "R" if c == 1 else "C" if c == 2 else "X" if c >= 224 else "L"
VAL = re.compile(r'(\w+) \|-> (<<[^<>]*>>|"\w*"|[-\w]+)')

def dworlds(rng, bins, n):
    """streams made by the harness, and the chunks it finds in them"""
    mks = []
    for i in range(n): mks.append("mk 0 1 %d 0 %d 3 0 2 %s 0" % (rng.randrange(1 << 16), rng.choice([0, 1]), STREAMS[i % len(STREAMS)]))
    r = runner.run_chunk(0, [Group("dw%d" % i, [([m, "chunks 0"], "")], "fastc") for i, m in enumerate(mks)], bins, ["C08"], 60, keep=True)
    import json
    ev = [json.loads(l) for l in r["trace"].splitlines() if l.startswith('{"e":"chunks"')]
    if len(ev) != n: raise runner.InfraError("chunk tables: %d of %d" % (len(ev), n))
    return mks, ev

def dgroups(rng, tier, variants=("asanc", "fastc", "asan"), nworlds=10, num=150, depth=45, keep=120, limits=False, prefix="md"):
    import build
    bins = build.build(["fastc"], ["vh"])
    mks, ev = dworlds(rng, bins, nworlds)
    ws = []
    for i, e in enumerate(ev):
        ch = "<<%s>>" % ", ".join('<<"%s", %d, %d, %d>>' % (KIND(c), h, p, u) for c, h, p, u in e["ch"])
        for thr, lim in rng.sample([(1, 0), (2, 9560), (2, 10500), (2, 11200), (2, 12000), (2, 13500), (2, 20000), (3, 9600), (3, 12500), (3, 1000000), (2, 1000000), (2, 9000)][limits:], 6):
            ws.append((i, thr, lim, "[ch |-> %s, hash |-> %d, thr |-> %d, lim |-> %d, dict |-> 4096, trail |-> 0]" % (ch, 4 if e["prop"] >= 128 else 0, thr, lim)))
    find = {}
    for i, thr, lim, _ in ws:
        e = ev[i]; at = 1; k = [thr, lim, e["size"]]
        for c, h, p, u in e["ch"]: k += [at, p, u]; at += h + p
        find[tuple(sorted(map(str, k)))] = (i, thr, lim)
    d = tempfile.mkdtemp(prefix="mbd", dir=runner.WORK)
    try:
        with open(os.path.join(d, "DWorlds.tla"), "w") as f:
            f.write("---- MODULE DWorlds ----\nEXTENDS DStreamImpl\nWs == {%s}\n====\n" % ",\n".join(x[3] for x in ws))
        cfg = ("SPECIFICATION Spec\nCONSTANTS Req = 20\n Rci = 5\n Node = 1024\n NM = 1047\n Worlds <- Ws\n Ns = {0, 1, 19, 20, 21, 500, 1023, 1024, 2000}\n Caps = {0, 1, 100, 5000, 100000}\n Bug = \"none\"\n"
               "INVARIANTS NothingBad NoFailure Done Within Moves Drains NoRefusal Memory Finish\nCHECK_DEADLOCK FALSE\n")
        rc, out = runner.tlc("DWorlds", cfg, args=["-workers", "1", "-seed", str(rng.randrange(1 << 30)), "-simulate", "num=%d,file=%s" % (num, os.path.join(d, "b")), "-depth", str(depth)], workdir=d, timeout=600)
        if "Error:" in out or "states generated" not in out: raise runner.InfraError("TLC on DStreamImpl (simulation): " + out[-800:])
        gs, seen, steps_n = [], set(), 0
        files = [fn for fn in sorted(os.listdir(d)) if fn.startswith("b_")]
        for fn in files:
            if len(gs) >= keep: break
            states = open(os.path.join(d, fn)).read().split("STATE_")[1:]
            new = 0; calls = []
            for st in states:
                rt = dict(VAL.findall(st[st.index("ret = "):].split("/\\")[0]))
                tt = st[st.index("t = ["):].split("/\\ ret")[0]; fl = dict(VAL.findall(tt)); ov = int(fl["ovn"]); nt = int(fl["nt"])
                n, cap = int(rt["n"]), int(rt["cap"])
                sig = (fl["stage"], fl["fail"], fl["mt"], (ov > 0) + (ov >= 20) + (ov >= 40), nt, fl["st"], fl["cur"], min(tt.count("[b |->"), 4), fl["loop"], fl["ph"], fl["fl"], int(fl["uk"]) > 0, int(fl["spos"]) > 0, rt["r"], (n > 0) + (n >= 20) + (n > 1000), min(cap, 2))
                if sig not in seen: seen.add(sig); new += 1
                if rt["r"] != '""': calls.append("dec 0 %d %d =%s,%s,%s" % (n, cap, "e" if rt["r"] == '"buffer"' else rt["r"].strip('"'), rt["din"], rt["dout"]))
            if not new: continue
            wv = states[0][states[0].index("w = "):].split("/\\ t =")[0]
            key = tuple(re.findall(r'\b(?:thr|lim|at|p|u|size) \|-> (\d+)', wv)) ; key = tuple(sorted(key))
            i, thr, lim = find[key]
            steps_n += len(calls)
            v = variants[len(gs) % len(variants)]
            body = [mks[i], "refdec 0 0", "xnew 0 %d" % thr] + (["xlimit 0 %d" % lim] if thr > 1 else []) + ["xsrc 0 0", "xinit 0"] + calls
            if not calls or "=e" not in calls[-1]: body.append("decall 0 %d %d" % (rng.choice([1, 19, 500, 1 << 20]), rng.choice([1, 300, 1 << 20])))
            gs.append(Group("%s%d" % (prefix, len(gs)), [(body + ["xfree 0"], "")], v))
        STATS.append(dict(model="DStreamImpl", worlds=len(ws), behaviours=len(files), kept=len(gs), calls=steps_n, situations=len(seen)))
        return gs
    finally: shutil.rmtree(d, ignore_errors=True)
