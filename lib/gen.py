"""Scenario generators. Every generator returns a list of runner.Group; all randomness comes from the rng given."""
from runner import Group
K = 1024

def data(rng, n, segs=None):
    """data spec tokens for n bytes"""
    out, left = [], n
    k = segs or rng.choice([1, 1, 2, 3, 5])
    while left > 0:
        m = left if k <= 1 else min(left, max(1, int(left * rng.random())))
        s = rng.randrange(1 << 20)
        t = rng.choice("rztaplmbsbtc") if left != n else rng.choice("rztaplbsbt")
        out.append({"r": "r:%d:%d" % (m, s), "z": "z:%d:%d" % (m, rng.choice([0, 65, 255])), "t": "t:%d:%d" % (m, s),
                    "a": "a:%d:%d:%d" % (m, rng.choice([2, 3, 8, 26]), s), "p": "p:%d:%d:%d" % (m, rng.choice([1, 2, 3, 4, 7, 16, 100, 273, 274, 1000, 4096]), s),
                    "l": "l:%d:%d" % (m, s), "c": "c:%d:%d" % (m, rng.choice([1, 2, 3, 100, 1000, 4095, 4096, 5000])),
                    "m": "m:%d:%d:%d:%d" % (m, rng.choice([1, 4, 64, 500, 3000]), rng.choice([4, 30, 300]), s),
                    "b": "b:%d:%d:%d" % (m, rng.choice([3, 10, 40, 300]), s), "s": "s:%d:%d:%d" % (m, rng.choice([3, 20, 200]), s)}[t])
        left -= m; k -= 1
    return " ".join(out) if out else "z:0:0"

def dsize(rng, hooked):
    if hooked:
        return rng.choice([4096, 4096, 4096, 5000, 4097, 6144, 8192, 10007, 16384, 30000, 65536, 12345])
    return rng.choice([1 << 20, 1 << 20, (1 << 20) + 12345, 1500000])

def params(rng, hooked, ds=None, few=False):
    ds = ds or dsize(rng, hooked)
    p = {"dictSize": ds, "overlap": rng.choice([0, 1, 2, 2, 3, 8, 14]), "reset": rng.choice([0, 1, 1, 2, 3, 4, 4, 16]),
         "strategy": rng.choice([0, 1, 2])}
    if not few or rng.random() < 0.6:
        p["bufres"] = rng.randrange(5); p["depth"] = rng.choice([6, 7, 12, 16, 28, 42, 62, 63, 64, 100, 254])
        p["fastlen"] = rng.choice([6, 8, 32, 48, 128, 273]); p["divconq"] = rng.randrange(2)
        p["chainLog"] = rng.choice([4, 7, 9, 14]); p["cycles"] = rng.choice([1, 2, 8, 64])
    if rng.random() < 0.5:
        lc = rng.randrange(5); lp = rng.randrange(5 - lc); p["pb"] = rng.randrange(5)
        p["lc"], p["lp"] = lc, lp
        if rng.random() < 0.1: p["lc"], p["lp"] = 4, rng.randrange(1, 5)
    if rng.random() < 0.12: p["omit"] = 1
    if rng.random() < 0.2: p["hash"] = 0
    return p

def csets(o, p, rng=None):
    ks = list(p)
    if rng: rng.shuffle(ks)
    return ["cset %d %s %d" % (o, k, p[k]) for k in ks]

def sizes(rng, ds):
    return rng.choice([0, 1, 2, 5, 15, 16, 17, 100, 273, 1000, ds // 2, ds - 1, ds, ds + 1, 2 * ds - ds // 8, 2 * ds, 3 * ds + 7,
                       int(ds * rng.random() * 5), int(ds * rng.random() * 5)])

def decode_all(rng, b, mt=True, x0=0):
    """decode buffer b through several interfaces"""
    out = ["refdec %d 0" % b, "usize %d" % b, "dnew 0 1", "ddec 0 %d need" % b, "dfree 0"]
    t = rng.choice([2, 3, 4])
    if mt:
        out += ["dnew 1 %d" % t, "ddec 1 %d need" % b, "dfree 1"]
    return out

def xdecode(rng, b, thr, ni, cap, o=0, extra=()):
    return ["xnew %d %d" % (o, thr), *extra, "xsrc %d %d" % (o, b), "xinit %d" % o, "decall %d %d %d" % (o, ni, cap), "xfree %d" % o]

# ------------------------------------------------------------------------------------------------ one-shot
def oneshot(rng, n, variant, prefix="os"):
    hooked = not variant.startswith("real")
    gs = []
    for i in range(n):
        thr = rng.choice([1, 1, 2, 3, 4, 5])
        body = ["cnew 0 %d 0" % thr]
        for j in range(rng.choice([1, 1, 2, 3])):
            ds = dsize(rng, hooked)
            p = params(rng, hooked, ds, few=True)
            if rng.random() < 0.15: p = {"dictSize": ds, "strategy": rng.choice([0, 1, 2])}
            body += csets(0, p, rng)
            m = sizes(rng, ds)
            if not hooked: m = min(m, 3 << 20)
            body += ["data 1 " + data(rng, m)]
            caps = [rng.choice(["bound", "bound", "bound+100"])]
            r = rng.random()
            if r < 0.4: caps += ["need", "need-1"]
            if r < 0.15: caps += ["need-1", "need", "need-5", "need+1"]
            if rng.random() < 0.1: caps = [rng.choice(["0", "1", "2", "7", "100", "bound-1"])] + caps
            lvl = 0
            for cap in caps: body.append("comp 0 1 2 %s %d" % (cap, lvl))
            body.append("cget 0 " + rng.choice(["dictSize", "lc", "strategy", "level"]))
            if caps[-1] in ("need-1", "need-5"): body.append("comp 0 1 2 need 0")
            if p.get("omit"):
                body.append("refdec 2 0"); body.append("cset 0 omit 0")
                continue
            body += decode_all(rng, 2)
            if rng.random() < 0.5:
                body += xdecode(rng, 2, rng.choice([1, 2, 3]), rng.choice([1 << 30, 1000, 17, 61]) if m < 20000 else 1 << 30, rng.choice([1 << 22, 3000]))
        body.append("cfree 0")
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], variant))
    return gs

def oneshot_levels(rng, n, variant, prefix="lv"):
    """level presets, context-free functions"""
    gs = []
    for i in range(n):
        l = 1 + i % 10; thr = rng.choice([1, 2])
        m = rng.choice([0, 1, 100, 5000, 70000])
        body = ["data 1 " + data(rng, m), "comp1 %d 1 2 bound %d" % (thr, l)] + decode_all(rng, 2)
        body += ["cnew 0 %d 0" % thr, "cset 0 high %d" % rng.randrange(2), "comp 0 1 3 bound %d" % l] + decode_all(rng, 3) + ["cfree 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], variant))
    return gs

# ------------------------------------------------------------------------------------------------ streaming compression
def stream_ops(rng, ds, total, dual, tmo=0, flush=True, setp=True, cancel=False, maxops=14):
    """random call history of one stream (after sinit), ending in endall + check"""
    ops, left = [], total
    for _ in range(rng.randrange(2, maxops)):
        a = rng.random()
        amt = rng.choice([0, 1, 17, 100, ds // 3, ds - 1, ds, ds + 1, 2 * ds, int(ds * rng.random() * 1.5)])
        cap = rng.choice([-1, 0, 1, 7, 100, 1000, 1 << 20, 1 << 20])
        if a < 0.30: ops.append("feedall 0 %d %d %d" % (amt, cap, rng.choice([amt or 1, max(1, amt // 3), max(1, ds // 2)])))
        elif a < 0.42: ops.append("feed 0 %d %d" % (amt, cap if cap >= 0 else 50))
        elif a < 0.58: ops.append("dictall 0 %d %d" % (amt, rng.choice([amt or 1, max(1, ds // 5), 1000])))
        elif a < 0.62: ops.append("dict 0 %d" % amt)
        elif a < 0.70: ops.append("copy 0 %d" % rng.choice([0, 1, 13, 500, 1 << 20]))
        elif a < 0.75: ops.append("next 0")
        elif a < 0.80: ops.append("nextall 0")
        elif a < 0.92 and flush:
            ops.append(rng.choice(["flushall 0 %d" % rng.choice([-1, 50, 1000, 1 << 20]), "flush 0 %d" % rng.choice([0, 10, 1 << 20]), "flushall 0 1000000"]))
            if rng.random() < 0.7: ops.append("check 0")
        elif a < 0.95: ops.append("wait 0")
        elif setp and a < 0.98: ops.append("cset 0 %s %d" % (rng.choice(["lc", "lp", "pb"]), rng.randrange(3)))
        else: ops.append("cset 0 %s %d" % rng.choice([("dictSize", 8192), ("strategy", 1), ("level", 3), ("hash", 0), ("depth", 20)]))
    if rng.random() < 0.5: ops.append("feedall 0 %d 1000000 %d" % (total, total))
    return ops

def ender(rng):
    return rng.choice(["endall 0 1048576", "endall 0 1048576", "endall 0 100", "endall 0 7", "endall 0 -1"])

def cstreams(rng, n, variant, prefix="cs", dual=None, decode=True, tmo=False, reuse=True):
    hooked = not variant.startswith("real")
    gs = []
    for i in range(n):
        thr = rng.choice([1, 1, 2, 3, 4]); du = rng.randrange(2) if dual is None else dual
        body = ["cnew 0 %d %d" % (thr, du)]
        for j in range(rng.choice([1, 1, 2, 3]) if reuse else 1):
            ds = rng.choice([4096, 4096, 4096, 5000, 6144, 8192, 16384]) if hooked else rng.choice([1 << 20, (1 << 20) + 4321])
            p = params(rng, hooked, ds, few=True)
            if j > 0: p.setdefault("omit", 0)
            body += csets(0, p, rng)
            total = int(ds * rng.choice([0, 0.1, 0.9, 1, 1.5, 2, 3, 4, 6])) + rng.choice([0, 0, 1, 33])
            if tmo: body.append("stimeout 0 %d" % rng.choice([0, 1, 1, 2]))
            body += ["sinit 0 0", "data 1 " + data(rng, total), "src 0 1"]
            ops = stream_ops(rng, ds, total, du)
            if tmo and rng.random() < 0.5:      # the limit may be changed or lifted while a call that timed out goes on
                for _ in range(rng.choice([1, 2])): ops.insert(rng.randrange(len(ops) + 1), "stimeout 0 %d" % rng.choice([0, 0, 1, 2]))
            body += ops
            body += [ender(rng), "waitall 0" if tmo else "wait 0", "endall 0 1048576", "check 0"]
            if decode and not p.get("omit"):
                body += ["keep 0 4"] + decode_all(rng, 4, mt=rng.random() < 0.5)
                if rng.random() < 0.4:
                    body += xdecode(rng, 4, rng.choice([1, 2, 3]), rng.choice([1 << 30, 1000, 100]), rng.choice([1 << 22, 3000]))
        body.append("cfree 0")
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], variant))
    return gs
