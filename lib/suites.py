"""What each property's check runs: suite(prop, tier, rng) -> list of runner.Group."""
import random
import gen, gen_dec as gd, gen_pool as gp, mbt
from runner import Group

def ctl(gs, rng, modes=(1, 1, 3), horizon=100000):
    """the same scenarios under the controlled scheduler"""
    out = []
    for g in gs:
        out.append(Group("k" + g.id, [(b, "%d %d %d" % (rng.choice(modes), rng.randrange(1 << 30), horizon)) for b, _ in g.scen], "ctl"))
    return out

def sched_str(rng, mode=None):
    m = rng.choice([1, 1, 1, 2, 3]) if mode is None else mode
    if m == 2:
        h = rng.choice([3000, 30000, 200000])
        return "2 %d 0 %s" % (rng.randrange(1 << 30), " ".join(str(rng.randrange(h)) for _ in range(rng.randrange(1, 6))))
    return "%d %d %d" % (m, rng.randrange(1 << 30), rng.choice([2000, 20000, 200000]))

def same_under_schedules(rng, n, k, bodies, prefix):
    """groups whose member #0 runs without preemption and #1.. under k schedules; all must give the same results"""
    gs = []
    for i in range(n):
        body = ["mark 1"] + bodies(rng)
        sc = [(body, "0 0 0")] + [(body, sched_str(rng)) for _ in range(k)]
        gs.append(Group("%s%d" % (prefix, i), sc, "ctl"))
    return gs

# ------------------------------------------------------------------------------------------------ bodies
def b_oneshot_mt(rng):
    thr = rng.choice([2, 2, 3, 4]); ds = rng.choice([4096, 5000, 8192, 16384])
    p = gen.params(rng, True, ds, few=True); p["omit"] = 0
    n = rng.choice([ds // 2, ds, ds + 1, 2 * ds, 3 * ds, 4500, 9000])
    body = ["cnew 0 %d 0" % thr] + gen.csets(0, p) + ["data 1 " + gen.data(rng, n), "comp 0 1 2 bound+300 0"]
    if rng.random() < 0.5: body += ["comp 0 1 2 bound+300 0"]
    return body + ["cfree 0"]

def b_stream_sync(rng):
    thr = rng.choice([2, 2, 3, 4]); ds = rng.choice([4096, 5000, 8192])
    p = gen.params(rng, True, ds, few=True); p["omit"] = 0
    total = int(ds * rng.choice([0.5, 1, 1.5, 2, 3]))
    body = ["cnew 0 %d 0" % thr] + gen.csets(0, p) + ["sinit 0 0", "data 1 " + gen.data(rng, total), "src 0 1"]
    body += gen.stream_ops(rng, ds, total, 0, maxops=6) + ["endall 0 1048576", "check 0", "cfree 0"]
    return body

def b_decode_mt(rng):
    body = gd.comp_stream(rng, 0, thr=1, total=rng.choice([4096, 9000, 16000, 24000]), reset=1)
    if rng.random() < 0.3: body.append("mut 2 0 flip:%%%d:%d" % (rng.randrange(1 << 20), 1 << rng.randrange(8))); b = 2
    else: b = 0
    thr = rng.choice([2, 3, 4])
    body += ["refdec %d 0" % b]
    if rng.random() < 0.5 or b == 2: body += ["dnew 0 %d" % thr, "ddec 0 %d need" % b, "ddec 0 %d need" % b, "dfree 0"]
    if b == 0:
        body += ["xnew 0 %d" % thr] + (["xlimit 0 %d" % rng.choice([20000, 40000, 100000])] if rng.random() < 0.4 else []) + \
                ["xsrc 0 0", "xinit 0", "decall 0 %d %d" % (rng.choice([1 << 30, 1000, 100]), rng.choice([1 << 20, 5000, 700])), "dcheck 0", "xfree 0"]
    return body

def timed_pair(rng, i):
    """compression with a time limit under a schedule gives the bytes of the same calls without one"""
    thr = rng.choice([1, 2, 3]); ds = rng.choice([4096, 5000, 8192])
    p = gen.params(rng, True, ds, few=True); p["omit"] = 0
    total = int(ds * rng.choice([0, 0.5, 1, 2, 3]))
    ops = []
    for _ in range(rng.randrange(1, 5)):
        ops.append(rng.choice(["feedall 0 %d 1048576 %d" % (rng.choice([ds // 2, ds, 2 * ds]), rng.choice([ds // 3, ds, 2 * ds])), "dictall 0 %d %d" % (rng.choice([ds // 2, ds]), rng.choice([ds // 5, ds])), "flushall 0 1048576"]))
    tail = ["feedall 0 %d 1048576 %d" % (total, total), "endall 0 1048576", "waitall 0", "endall 0 1048576"]
    def body(tmo):
        return ["cnew 0 %d 0" % thr] + gen.csets(0, p) + (["stimeout 0 %d" % tmo] if tmo else []) + ["sinit 0 0", "data 1 z:0:0"][:1] + \
               ["data 1 " + dat, "src 0 1"] + ops + tail + ["mark 1", "check 0", "mark 0", "cfree 0"]
    dat = gen.data(rng, total)
    return Group("tp%d" % i, [(body(0), "0 0 0")] + [(body(1), sched_str(rng)) for _ in range(2)], "ctl")

def areas(rng, n, variant, prefix="ar", sched=None):
    """two areas: whole blocks, then requests that add nothing, then more input while the block is still being compressed"""
    gs = []
    for i in range(n):
        ds = rng.choice([4096, 5000, 8192]) if not variant.startswith("real") else 1 << 20
        p = gen.params(rng, True, ds, few=True); p["omit"] = 0; p["overlap"] = rng.choice([0, 0, 2]); p["reset"] = rng.choice([0, 1, 1, 2])
        k = rng.choice([3, 5])
        body = ["cnew 0 %d 1" % rng.choice([1, 2, 3])] + gen.csets(0, p) + (["stimeout 0 1"] if rng.random() < 0.2 else []) + ["sinit 0 0", "data 1 " + gen.data(rng, k * ds), "src 0 1"]
        body += rng.choice([[], ["dict 0 0"], ["dict 0 0"] * 2, ["flush 0 0"]])
        for _ in range(k - 1):
            body += [rng.choice(["feedall 0 %d %d %d" % (ds, rng.choice([7, 1000000]), rng.choice([ds, ds // 3])), "dictall 0 %d %d" % (ds, ds), "feed 0 %d 0" % ds, "feed 0 %d 1048576" % (ds - rng.choice([0, 0, 1, 16])), "flush 0 0"])]
            body += rng.choice([["dict 0 0"], ["dict 0 0"] * 2, ["dict 0 0"] * 3, ["dict 0 0", "copy 0 1000000", "dict 0 0"], ["feed 0 0 100", "dict 0 0"], ["dict 0 0", "wait 0"], []])
            body += rng.choice([["feed 0 %d 1048576" % rng.choice([1, 100, ds // 3])], ["dict 0 %d" % rng.choice([1, 100, ds // 3])], ["feed 0 %d 1048576" % ds], []])
        body += ["feedall 0 %d 1048576 %d" % (k * ds, k * ds), "endall 0 1048576", "waitall 0", "endall 0 1048576", "check 0", "cfree 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, sched(rng) if sched else "")], variant))
    return gs
def tmo_lift(rng, n, prefix="tl"):
    """the time limit lifted, and set again, whenever a call has timed out"""
    gs = []
    for i in range(n):
        ds = rng.choice([4096, 5000]); p = gen.params(rng, True, ds, few=True); p["omit"] = 0; k = rng.choice([2, 3, 5])
        body = ["cnew 0 %d %d" % (rng.choice([1, 2, 3]), rng.random() < 0.2)] + gen.csets(0, p) + ["stimeout 0 1", "sinit 0 0", "data 1 " + gen.data(rng, k * ds), "src 0 1"]
        for _ in range(k):
            body += [rng.choice(["feed 0 %d 1048576" % ds, "feed 0 %d 1048576" % rng.choice([ds + 100, ds // 2]), "flush 0 1048576", "dictall 0 %d 1000" % ds])]
            if rng.random() < 0.3: body.append(rng.choice(["flush 0 1048576", "flush 0 0", "copy 0 10"]))
            if rng.random() < 0.8: body.append("stimeout 0 0")
            if rng.random() < 0.3: body.append(rng.choice(["wait 0", "flush 0 100"]))
            if rng.random() < 0.7: body.append("stimeout 0 %d" % rng.choice([1, 1, 2]))
        body += ["endall 0 1048576", "waitall 0", "endall 0 1048576", "check 0", "cfree 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], "asan"))
    return gs
def cancels(rng, n, prefix="cc"):
    """compression cancelled (or freed, or re-initialised) at some moment, then used again"""
    gs = []
    for i in range(n):
        thr = rng.choice([1, 2, 3]); du = rng.randrange(2)
        body = ["cnew 0 %d %d" % (thr, du)]
        for j in range(rng.choice([2, 3])):
            ds = rng.choice([4096, 5000, 8192]); p = gen.params(rng, True, ds, few=True); p["omit"] = 0
            body += gen.csets(0, p)
            if rng.random() < 0.6: body.append("stimeout 0 %d" % rng.choice([0, 1, 1]))
            total = int(ds * rng.choice([0.3, 1, 2, 3]))
            body += ["sinit 0 0", "data 1 " + gen.data(rng, total), "src 0 1"] + gen.stream_ops(rng, ds, total, du, maxops=6, setp=False)
            if rng.random() < 0.3: body.append("stimeout 0 %d" % rng.choice([0, 0, 1]))
            e = rng.random()
            if e < 0.5: body += ["cancel 0"]
            elif e < 0.6: body += ["cancel 0", "cancel 0"]
            elif e < 0.7: body += ["end 0 100", "cancel 0"]
            elif e < 0.8: body += ["endall 0 1048576", "waitall 0", "endall 0 1048576", "check 0"]
            if e < 0.7:
                body += rng.choice([[], [], ["feed 0 100 50"], ["dict 0 100"], ["cset 0 depth 20", "feed 0 100 50"]])
                if rng.random() < 0.4: body += ["cset 0 %s %d" % rng.choice([("level", 2), ("high", 1), ("strategy", 1), ("omit", 0)])]
            if rng.random() < 0.2 : body += ["data 1 " + gen.data(rng, 3000), "comp 0 1 2 bound+300 0"] + gen.decode_all(rng, 2, mt=False)
        ds = 4096; total = rng.choice([100, 4096, 9000])
        if rng.random() < 0.8:
            body += gen.csets(0, {"dictSize": ds, "hash": 1}) + ["sinit 0 0", "data 1 " + gen.data(rng, total), "src 0 1", "feedall 0 %d 1048576 %d" % (total, total),
                 "endall 0 1048576", "waitall 0", "endall 0 1048576", "check 0", "keep 0 4"] + gen.decode_all(rng, 4, mt=False)
        if rng.random() < 0.8: body.append("cfree 0")
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], "ctl"))
    return gs

# ---- C11
PK = ["level", "high", "dictLog", "dictSize", "overlap", "reset", "bufres", "chainLog", "cycles", "depth", "fastlen", "divconq", "strategy", "lc", "lp", "pb", "omit", "hash"]
PEDGE = {"level": [0, 1, 5, 6, 10, 11, 12, 99], "high": [0, 1, 2, 7], "dictLog": [0, 11, 12, 13, 14, 19, 20, 21, 30, 31, 27], "dictSize": [0, 1, 4095, 4096, 4097, 5000, 8192, 1048575, 1048576, 1048577, 1 << 27, 1 << 30, (1 << 30) + 1, 3 << 19],
         "overlap": [0, 1, 2, 13, 14, 15, 100], "reset": [0, 1, 4, 16, 17], "bufres": [0, 1, 4, 5], "chainLog": [3, 4, 9, 14, 15], "cycles": [0, 1, 8, 63, 64, 65, 1000],
         "depth": [5, 6, 42, 254, 255, 63, 64], "fastlen": [5, 6, 48, 272, 273, 274], "divconq": [0, 1, 2, 5], "strategy": [0, 1, 2, 3], "lc": [0, 3, 4, 5], "lp": [0, 1, 3, 4, 5], "pb": [0, 2, 4, 5], "omit": [0, 1, 3], "hash": [0, 1, 9]}
HUGE = ["0xffffffff", "0x100000000", "0x100000001", "18446744073709551615", "0x80000000"]
def param_set(rng, o=0):
    k = rng.choice(PK)
    return "cset %d %s %d" % (o, k, rng.choice(PEDGE[k]))
def params_hist(rng, n, variant, prefix="pp"):
    gs = []
    hooked = not variant.startswith("real")
    for i in range(n):
        body = ["cnew 0 %d %d" % (rng.choice([1, 2]), rng.randrange(2))]
        small = ["cset 0 dictSize %d" % (4096 if hooked else 1 << 20)]
        for _ in range(rng.randrange(3, 12)):
            a = rng.random()
            if a < 0.62: body += [param_set(rng) for _ in range(rng.randrange(1, 6))]
            elif a < 0.66: body.append("cset 0 %s %s" % (rng.choice(PK + ["77", "18", "1000"]), rng.choice(["0", "1"])))
            elif a < 0.74: body += ["cget 0 %s" % rng.choice(PK + ["77"]) for _ in range(3)]
            elif a < 0.82: body += small + ["data 1 " + gen.data(rng, rng.choice([0, 10, 3000])), "comp 0 1 2 %s %d" % (rng.choice(["bound+200", "bound+200", "0", "3"]), rng.choice([0, 0, 11, 1]) if not hooked else rng.choice([0, 0, 11]))]
            elif a < 0.95:
                body += ["cset 0 level %d" % rng.choice([1, 2])] if rng.random() < 0.2 else []
                body += small + ["sinit 0 %d" % rng.choice([0, 0, 0, 11, -1])]
                body += [param_set(rng) for _ in range(rng.randrange(0, 5))] + ["cset 0 %s %d" % (rng.choice(["lc", "lp", "pb"]), rng.randrange(6)) for _ in range(3)]
                body += ["data 1 " + gen.data(rng, 3000), "src 0 1", "feedall 0 3000 100000 1000"]
                body += [param_set(rng) for _ in range(2)]
                body += rng.choice([["endall 0 100000", "check 0"], ["endall 0 100000"], ["cancel 0"], [], ["end 0 3"], ["flushall 0 10000"]])
                body += [param_set(rng) for _ in range(3)]
            else: body += ["cancel 0"]
        body += ["cget 0 %s" % k for k in PK] + ["cfree 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], variant))
    return gs
EFFECT = {"depth": (6, 254), "fastlen": (6, 273), "strategy": (0, 1), "cycles": (1, 64), "chainLog": (4, 14), "overlap": (0, 14),
          "level": (1, 6), "high": (0, 1), "lc": (0, 4), "lp": (0, 2), "pb": (0, 4), "reset": (1, 0), "dictSize": (4096, 65536), "hash": (0, 1), "omit": (0, 1)}
def effects(rng, variant, prefix="ef"):
    """a parameter at the two ends of its range must make a difference on varied data, in one call and as a stream"""
    gs = []
    for k, (lo, hi) in EFFECT.items():
        for st in (0, 1):
            # always the same data: whether it makes a difference is settled
            body = ["data 0 m:60000:64:30:3 b:40000:40:1 m:80000:500:300:3 t:20000:1", "cnew 0 1 0"]
            base = {"dictSize": 16384 if k == "overlap" else 4096 if k == "reset" else 65536, "strategy": 2 if k in ("cycles", "chainLog") else 1}
            for j, v in enumerate((lo, hi)):
                body += ["cset 0 %s %d" % x for x in base.items() if x[0] != k] + ["cset 0 %s %d" % (k, v)]
                body += ["sinit 0 0", "src 0 0", "feedall 0 200000 1000000 50000", "endall 0 1000000", "check 0", "keep 0 %d" % (2 + 2 * j)] if st else ["comp 0 0 %d bound+3000 0" % (2 + 2 * j)]
            body += ["cmpb 2 4 0 " + k, "cfree 0"]
            gs.append(Group("%s%s%d" % (prefix, k, st), [(body, "")], variant))
    return gs
def routes(rng, n, variant, prefix="ro"):
    """the same parameters reached in different ways (preset, preset as an argument of the call, every value set by itself)"""
    gs = []
    for i in range(n):
        l = 1 + i % 10; h = rng.randrange(2); thr = rng.choice([1, 1, 2]); m = rng.choice([3000, 20000, 70000])
        body = ["data 1 " + gen.data(rng, m)] + ["cnew %d %d 0" % (o, thr) for o in range(3)] + ["cset %d high %d" % (o, h) for o in (0, 1)]
        tune = [param_set(rng, 0) for _ in range(rng.randrange(3))] if rng.random() < 0.4 else []
        tune = [t for t in tune if not any(x in t for x in ("level", "high", "dict", "omit", "buf"))]
        on = lambda o: [t.replace("cset 0", "cset %d" % o) for t in tune]
        body += ["cset 0 level %d" % l] + on(0) + (["cset 1 level %d" % l] + on(1) + ["comp 1 1 4 bound+3000 0"] if tune else ["comp 1 1 4 bound+3000 %d" % l])
        body += ["ccopy 2 0", "comp 0 1 2 bound+3000 0", "comp 2 1 6 bound+3000 0", "cmpb 2 4 1 argument", "cmpb 2 6 1 values"]
        # the same through a stream
        if rng.random() < 0.6:
            for o, lv in ((0, 0), (1, 0 if tune else l), (2, 0)):
                body += ["sinit %d %d" % (o, lv), "src %d 1" % o, "feedall %d %d 1000000 %d" % (o, m, 5000), "endall %d 1000000" % o, "check %d" % o, "keep %d %d" % (o, 8 + 2 * o)]
            body += ["cmpb 8 10 1 argument", "cmpb 8 12 1 values"]
        gs.append(Group("%s%d" % (prefix, i), [(body + ["cfree 0", "cfree 1", "cfree 2"], "")], variant))
    return gs
def params_exhaustive(variant, prefix="pe"):
    """every parameter with every edge value on a fresh context, idle and with a stream in progress"""
    gs = []
    for k in PK:
        body = ["cnew 0 1 0"]
        for v in PEDGE[k]: body += ["cset 0 %s %d" % (k, v), "cget 0 %s" % k]
        for v in HUGE: body += ["cset 0 %s %s" % (k, v)] if k not in ("high", "omit", "hash", "divconq") else []
        body += ["cset 0 dictSize %d" % (4096 if not variant.startswith("real") else 1 << 20), "cset 0 lc 3", "cset 0 lp 0", "sinit 0 0"]
        for v in PEDGE[k]: body += ["cset 0 %s %d" % (k, v), "cget 0 %s" % k]
        body += ["cfree 0"]
        gs.append(Group("%s_%s" % (prefix, k), [(body, "")], variant))
    body = ["cnew 0 1 0"]
    for h in (0, 1):
        for l in range(0, 12): body += ["cset 0 high %d" % h, "cset 0 level %d" % l, "cset 0 lc 1", "cset 0 depth 100", "cset 0 dictSize 1048576", "cset 0 level %d" % l, "cset 0 high %d" % (1 - h)]
    gs.append(Group(prefix + "_levels", [(body + ["cfree 0"], "")], variant))
    gs.append(Group(prefix + "_lv", [(["level %d %d %d" % (0, l, h) for l in range(0, 13) for h in (0, 1)], "")], variant))
    for a in range(5):
        gs.append(Group("%s_lclp%d" % (prefix, a), [(["cnew 0 1 0"] + [x for b in range(6) for x in ("cset 0 lc 0", "cset 0 lp 0", "cset 0 lc %d" % a, "cset 0 lp %d" % b, "cset 0 lc %d" % a)] + ["cfree 0"], "")], variant))
    return gs

# ---- C05
def caps_sweep(rng, n, variant, prefix="cp"):
    gs = []
    for i in range(n):
        thr = rng.choice([1, 1, 2, 3]); ds = gen.dsize(rng, not variant.startswith("real"))
        m = rng.choice([0, 1, 2, 3, 7, 16, 30, 60])
        body = ["cnew 0 %d 0" % thr] + gen.csets(0, {"dictSize": ds, "hash": rng.randrange(2), "omit": rng.choice([0, 0, 0, 1]), "strategy": rng.randrange(3)})
        body += ["data 1 " + gen.data(rng, m), "comp 0 1 2 bound 0"]
        body += ["comp 0 1 3 %d 0" % c for c in range(0, m + 16)]
        body += ["cfree 0"]
        if "cset 0 omit 1" not in body:
            body += ["refdec 2 0", "dnew 0 1", "dnew 1 2"]
            for c in range(0, m + 3): body += ["ddec 0 2 %d" % c, "ddec 1 2 %d" % c]
            body += ["dfree 0", "dfree 1"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], variant))
    for i in range(n):
        thr = rng.choice([1, 2, 3, 4]); ds = gen.dsize(rng, not variant.startswith("real"))
        m = gen.sizes(rng, ds)
        if variant.startswith("real"): m = min(m, 2 << 20)
        body = ["cnew 0 %d 0" % thr] + gen.csets(0, {"dictSize": ds, "reset": rng.choice([0, 1, 4]), "hash": rng.randrange(2), "strategy": rng.randrange(3)})
        body += ["data 1 " + rng.choice(["r:%d:%d" % (m, rng.randrange(99)), gen.data(rng, m)]), "comp 0 1 2 bound+300 0"]
        body += ["comp 0 1 3 need%+d 0" % -c for c in (1, 2, 3, 4, 5, 6, 8, 40, 400)] + ["comp 0 1 2 need 0", "comp 0 1 2 bound 0"]
        body += ["comp 0 1 3 %d 0" % rng.randrange(0, m + 10) for _ in range(4)] + ["comp 0 1 2 bound+300 0", "cfree 0", "refdec 2 0", "dnew 0 1", "dnew 1 %d" % rng.choice([2, 3])]
        for c in ["need", "need-1", "need-2", "need+1", "need-100", "1", "0", "need-4000"]: body += ["ddec 0 2 " + c, "ddec 1 2 " + c]
        body += ["ddec 0 2 need", "ddec 1 2 need", "dfree 0", "dfree 1"]
        gs.append(Group("%sb%d" % (prefix, i), [(body, "")], variant))
    return gs

# ---- C12
def c_histories(rng, n, variant, prefix="rh"):
    """member #0: a new object does X; #1..: objects with a past do X: same results"""
    gs = []
    for i in range(n):
        thr = rng.choice([1, 2, 3]); du = rng.randrange(2); ds = rng.choice([4096, 5000, 8192])
        P = gen.params(rng, True, ds); P["omit"] = 0; P.setdefault("hash", 1); P.setdefault("lc", 3); P.setdefault("lp", 0); P.setdefault("pb", 2)
        if P["lc"] + P["lp"] > 4: P["lc"] = 0
        total = int(ds * rng.choice([0.2, 1, 2, 3]))
        dat = gen.data(rng, total); kind = rng.random()
        lp_first = ["cset 0 lc 0", "cset 0 lp 0"]
        if kind < 0.5:
            X = lp_first + gen.csets(0, P) + ["sinit 0 0", "data 1 " + dat, "src 0 1"] + ["feed 0 0 %d" % rng.choice([0, 100])] * rng.choice([0, 0, 1, 2]) + (gen.stream_ops(rng, ds, total, 0, maxops=6, setp=False) if du == 0 else []) + \
                ["feedall 0 %d 1048576 %d" % (total, total), "endall 0 1048576", "wait 0", "endall 0 1048576"] + (["mark 1", "check 0", "mark 0"] if du == 0 else ["check 0"])
        else:
            X = lp_first + gen.csets(0, P) + ["data 1 " + dat, "mark 1", "comp 0 1 2 bound+300 0", "mark 0"]
        def past():
            # either other parameters and a cancel at the end (they are locked while a stream is open), or the
            # same parameters and whatever state the last operation left
            out = []; same = rng.random() < 0.5
            for _ in range(rng.choice([1, 1, 2, 3])):
                # not a larger dictionary: the buffers of one are kept and may change block boundaries (documented in DESIGN.md)
                ds2 = ds if rng.random() < 0.7 else rng.choice([d for d in (4096, 4097, 5000) if d <= ds])
                q = gen.params(rng, True, ds2); q["bufres"] = P["bufres"]
                q["dictSize"] = ds if "bufres" in P and rng.random() < 2 else ds2
                if same: q = P
                t2 = int(ds * rng.choice([0.3, 1, 2]))
                out += ["cset 0 lc 0", "cset 0 lp 0"] + gen.csets(0, q) + ["data 1 " + gen.data(rng, t2), "src 0 1"]
                e = rng.random()
                if e < 0.2: out += ["comp 0 1 3 %s 0" % rng.choice(["bound+300", "3", "50", "need-1"])]
                else:
                    if rng.random() < 0.3: out.append("stimeout 0 %d" % rng.choice([0, 1]))
                    out += ["sinit 0 0"] + gen.stream_ops(rng, ds, t2, du, maxops=5)
                    out += rng.choice([["endall 0 1048576"], ["endall 0 1048576", "wait 0", "endall 0 1048576"], ["cancel 0"], [], ["end 0 10"], ["flush 0 5"], ["end 0 0", "cancel 0"]] + [["feed 0 0 0"] * rng.choice([9, 10, 11, 12])] * 2)
            return out + (["waitall 0", "stimeout 0 0"] if same else ["cancel 0", "stimeout 0 0"])
        scen = [(["cnew 0 %d %d" % (thr, du), "stimeout 0 0"][:1] + X + ["cfree 0"], "")]
        for _ in range(2): scen.append((["cnew 0 %d %d" % (thr, du)] + past() + X + ["cfree 0"], ""))
        gs.append(Group("%s%d" % (prefix, i), scen, variant))
    return gs
def oneshot_reuse(rng, n, variant, prefix="or"):
    """one-shot compressions of different sizes (tables reduced and of either kind) and match buffer sizes in one
    context, then the same compression as in a new one"""
    gs = []
    for i in range(n):
        thr = rng.choice([1, 1, 2, 3]); ds = rng.choice([8192, 8192, 16384, 40000])
        P = gen.params(rng, True, ds); P["omit"] = 0; P["hash"] = 1; P["lc"], P["lp"], P["pb"] = 3, 0, 2; P["bufres"] = rng.randrange(5)
        size = lambda: rng.choice([300, 1000, 4000, 5400, 5600, 7000, ds - 1, ds, ds + 100, 2 * ds])
        def dat(m):
            if rng.random() < 0.5: return gen.data(rng, m)
            k = m // 3; s = rng.randrange(1 << 20)
            return "p:%d:%d:%d %s:%d:%d p:%d:%d:%d" % (k, rng.choice([1, 2, 3, 4, 5, 7]), s, rng.choice("rt"), k, s, m - 2 * k, rng.choice([1, 2, 3, 4, 6, 8, 12]), s)
        X = ["cset 0 lc 0", "cset 0 lp 0"] + gen.csets(0, P) + ["data 1 " + dat(rng.choice([300, 1500, 4000, 5400, size()])), "mark 1", "comp 0 1 2 bound+300 0", "mark 0"]
        def past():
            out = []
            for _ in range(rng.choice([1, 2, 3])):
                q = dict(P)
                if rng.random() < 0.5: q["bufres"] = rng.randrange(5)
                if rng.random() < 0.3: q["depth"] = rng.choice([6, 12, 254]); q["strategy"] = rng.randrange(3)
                out += ["cset 0 lc 0", "cset 0 lp 0"] + gen.csets(0, q) + ["data 1 " + dat(size()), "comp 0 1 2 bound+300 0"]
            return out
        new = ["cnew 0 %d 0" % thr]
        gs.append(Group("%s%d" % (prefix, i), [(new + X + ["cfree 0"], "")] + [(new + past() + X + ["cfree 0"], "") for _ in range(2)], variant))
    return gs
def d_histories(rng, n, variant, prefix="xh"):
    gs = []
    for i in range(n):
        thr = rng.choice([1, 2, 3, 4])
        prep = gd.comp_stream(rng, 0, hashv=rng.randrange(2), total=rng.choice([0, 100, 4096, 9000, 20000]))
        prep += [gd.mk(rng, 4, 5, [t for t in gd.grammar(rng, 1.0, 6) if t != "0"] + ["0"], hash_=rng.randrange(2))]
        prep += ["mut 6 0 flip:%%%d:%d" % (rng.randrange(1 << 20), 1 << rng.randrange(8)), "mut 7 4 trunc:%%%d" % rng.randrange(1 << 20), gd.mk(rng, 8, 9, gd.grammar(rng, 0.0, 6)), gd.mk(rng, 10, 11, gd.lowered(rng))]
        prep += ["refdec %d %d" % (b, k) for k, b in enumerate((0, 4, 6, 7, 8, 10))]
        X = []
        if rng.random() < 0.5:
            o = "xnew 0 %d" % thr
            b = rng.choice([0, 4, 0, 4, 10])
            X = ["xsrc 0 %d" % b, "xinit 0"] + ["dec 0 0 0"] * rng.choice([0, 0, 1, 2]) + ["decall 0 %d %d" % (rng.choice([1 << 30, 100]), rng.choice([1 << 20, 777])), "mark 1", "dcheck 0", "mark 0"]
            def past():
                out = []
                for _ in range(rng.choice([1, 2, 3])):
                    bb = rng.choice([0, 4, 6, 7, 8, 10])
                    out += ["xsrc 0 %d" % bb, "xinit 0"] + gd.splits(rng, 0, bb)
                    if rng.random() < 0.3: out += ["xlimit 0 %d" % rng.choice([0, 20000, 60000])]
                    if rng.random() < 0.3: out += ["xtimeout 0 %d" % rng.choice([0, 1])]
                    out += rng.choice([["decall 0 1000 1000"], ["decall 0 1073741824 1048576"], [], ["xcancel 0"], ["dec 0 0 0"] * rng.choice([2, 3, 4]), ["dec 0 0 0"] * rng.choice([2, 3, 4]), ["decall 0 100 100", "dec 0 100 100"]])
                return out + ["xcancel 0", "xtimeout 0 0", "xlimit 0 1000000000"]
        else:
            o = "dnew 0 %d" % thr
            b = rng.choice([0, 4, 6, 8, 10, 10])
            X = ["mark 1", "ddec 0 %d need" % b, "ddec 0 %d need" % rng.choice([0, 4]), "mark 0"]
            def past():
                out = []
                for _ in range(rng.choice([1, 2, 4])):
                    out += ["ddec 0 %d %s" % (rng.choice([0, 4, 6, 7, 8, 10]), rng.choice(["need", "need", "need-1", "0"]))]
                    if rng.random() < 0.2: out += ["dinit1 0 %d" % rng.choice([45, 127])]
                return out
        f = "xfree 0" if o[0] == "x" else "dfree 0"
        scen = [(prep + [o] + X + [f], "")] + [(prep + [o] + past() + X + [f], "") for _ in range(2)]
        gs.append(Group("%s%d" % (prefix, i), scen, variant))
    return gs

# ---- C15
def fault_bodies(rng):
    """(name, body before, body with the fault armed, body afterwards)"""
    ds = 4096
    small = gen.csets(0, {"dictSize": ds, "hash": 1})
    d1 = ["data 1 t:6000:5"]
    st = ["sinit 0 0", "src 0 1", "feedall 0 6000 100000 2500", "flushall 0 100000", "endall 0 100000"]
    stw = st + ["waitall 0", "endall 0 100000", "check 0"]
    bs = []
    for thr in (1, 3):
        bs.append(("os%d" % thr, d1, ["cnewif 0 %d 0" % thr] + small + ["comp 0 1 2 bound+200 0"], ["cnewif 0 %d 0" % thr] + small + ["comp 0 1 2 bound+200 0", "refdec 2 0", "dnew 0 1", "ddec 0 2 need", "dfree 0", "cfree 0"]))
        for du in (0, 1):
            bs.append(("st%d%d" % (thr, du), d1, ["cnewif 0 %d %d" % (thr, du)] + small + st, ["cnewif 0 %d %d" % (thr, du)] + small + stw + ["keep 0 4", "refdec 4 0", "dnew 0 1", "ddec 0 4 need", "dfree 0", "cfree 0"]))
    bs.append(("tm", d1, ["cnewif 0 2 0"] + small + ["stimeout 0 5"] + st, ["cnewif 0 2 0"] + small + ["stimeout 0 0"] + stw + ["cfree 0"]))
    bs.append(("re", d1 + ["cnew 0 3 0"] + small + ["comp 0 1 2 bound+200 0", "cset 0 dictSize 16384", "cset 0 strategy 2", "cset 0 chainLog 14", "cset 0 depth 254", "cset 0 bufres 4"], ["comp 0 1 2 bound+200 0", "sinit 0 0", "src 0 1", "feedall 0 6000 100000 2500", "endall 0 100000"], ["sinit 0 0", "src 0 1", "feedall 0 6000 100000 2500", "endall 0 100000", "check 0", "comp 0 1 2 bound+200 0", "cfree 0"]))
    bs.append(("lv", ["data 1 t:6000:5"], ["comp1 1 1 2 bound+200 1", "comp1 2 1 2 bound+200 1"], ["comp1 2 1 2 bound+200 1", "refdec 2 0", "dmt 2 2 need"]))
    prep = ["cnew 0 1 0", "cset 0 dictSize 4096", "cset 0 reset 1", "data 1 t:20000:9", "comp 0 1 0 bound+300 0", "cfree 0", "refdec 0 0"]
    for thr in (1, 3):
        bs.append(("dd%d" % thr, prep, ["dnewif 0 %d" % thr, "ddec 0 0 need", "dmt %d 0 need" % thr], ["dnewif 0 %d" % thr, "ddec 0 0 need", "dfree 0"]))
        for lim in (None, 30000):
            x = (["xlimit 0 %d" % lim] if lim else [])
            bs.append(("xx%d%s" % (thr, lim or ""), prep, ["xnewif 0 %d" % thr] + x + ["xsrc 0 0", "xinit 0", "decall 0 3000 5000"], ["xnewif 0 %d" % thr] + x + ["xsrc 0 0", "xinit 0", "decall 0 1073741824 100000", "xinit 0", "xsrc 0 0", "xinit 0", "decall 0 500 3000", "xfree 0"]))
    bs.append(("xt", prep, ["xnewif 0 3", "xtimeout 0 3", "xsrc 0 0", "xinit 0", "decall 0 3000 5000"], ["xnewif 0 3", "xtimeout 0 0", "xsrc 0 0", "xinit 0", "decall 0 1073741824 100000", "xfree 0"]))
    bs.append(("xp", prep, ["xnewif 0 3", "xsrc 0 0 1", "xinit 0 128", "decall 0 3000 5000"], ["xnewif 0 3", "xsrc 0 0", "xinit 0", "decall 0 3000 5000", "xfree 0"]))
    return bs
def faults(rng, variant, ks, sticky=(0, 1), names=None, prefix="fa"):
    gs = []
    for name, before, armed, after in fault_bodies(rng):
        if names and name not in names: continue
        for k in ks:
            for s in sticky:
                gs.append(Group("%s_%s_%d_%d" % (prefix, name, k, s), [(before + ["fail %d %d" % (k, s)] + armed + ["fail 0 0"] + after, "" if variant != "ctl" else "0 0 0")], variant))
    return gs
def fault_random(rng, n, variant, prefix="fr"):
    """a fault somewhere inside random histories; the scenario goes on with resources available"""
    gs = []
    for i in range(n):
        base = rng.choice([gen.cstreams, gen.oneshot])(rng, 1, variant)[0] if rng.random() < 0.6 else gd.dec_splits(rng, 1, variants=(variant,), limits=rng.random() < 0.5)[0]
        body = []
        for l in base.scen[0][0]:
            if l.startswith(("cnew", "dnew", "xnew")): body.append(l.replace("new ", "newif ", 1))
            else: body.append(l)
        pos = rng.randrange(len(body) + 1)
        body = body[:pos] + ["fail %d %d" % (1 + int(12 * rng.random() ** 2), rng.randrange(2))] + body[pos:]
        pos2 = rng.randrange(pos + 1, len(body) + 1)
        body = body[:pos2] + ["fail 0 0"] + body[pos2:]
        gs.append(Group("%s%d" % (prefix, i), [(body, "" if variant != "ctl" else sched_str(rng))], variant))
    return gs

# ---- C16
def estimates(rng, tier):
    gs = []
    ls = [0, 1, 2, 3, 4, 5, 6, 11, -1] + ([7, 8] if tier == "thorough" else [])
    for l in ls:
        gs.append(Group("el%d" % l, [(["estl %d %d %d" % (l, t, d) for t in ((1, 2, 4) if l < 6 else (1, 2)) for d in (0, 1)], "")], "real"))
    gs.append(Group("elb", [(["estl %d 2 %d %d" % (l, l % 2, e) for e in range(2, 8 if tier == "quick" else 11) for l in {1, e - 1}], "")], "real"))
    gs.append(Group("ed", [(["estd %d %d" % (t, d) for t in (1, 2, 3, 4, 8) for d in (4096, 1 << 20, 1 << 26)], "")], "real"))
    for i in range(30 if tier == "quick" else 200):
        hooked = i % 3 != 0
        v = "fast" if hooked else "real"
        ds = rng.choice([4096, 5000, 8192, 65536, 1 << 20, 3 << 19]) if hooked else rng.choice([1 << 20, 3 << 19, 1 << 22])
        body = ["cnew 0 %d %d" % (rng.choice([1, 2, 3, 4, 8]), rng.randrange(2))] + gen.csets(0, gen.params(rng, hooked, ds))
        if i % 4 == 3: body += ["cset 0 omit 0", "est 0", "data 1 " + gen.data(rng, min(ds, 20000)), "comp 0 1 2 bound+300 0", "est 0"]
        else: body += ["cset 0 omit 0", "peakreset", "sinit 0 0", "est 0", "data 1 " + gen.data(rng, min(ds, 20000)), "src 0 1", "feedall 0 %d 1000000 %d" % (ds, ds), "est 0", "endall 0 1000000", "est 0"]
        body += ["cfree 0"]
        gs.append(Group("es%d" % i, [(body, "")], v))
    for i in range(12 if tier == "quick" else 80):      # structured tables
        ds = rng.choice([6144, 8192, 16384, 65536, 1 << 20, 3 << 19])
        body = ["cnew 0 %d %d" % (rng.choice([1, 2, 4]), rng.randrange(2))] + gen.csets(0, dict(gen.params(rng, True, ds), omit=0))
        body += ["peakreset", "sinit 0 0", "est 0", "data 1 " + gen.data(rng, min(ds, 20000)), "src 0 1", "feedall 0 %d 1000000 %d" % (ds, ds), "est 0", "endall 0 1000000", "est 0"] if i % 2 else ["est 0", "data 1 " + gen.data(rng, ds), "comp 0 1 2 bound+300 0", "est 0"]
        gs.append(Group("et%d" % i, [(body + ["cfree 0"], "")], "fastc"))
    return gs

# ---- C17
def bodies_of(gs): return [[l for l in b if not l.startswith(("mark", "est", "peakreset", "fail"))] for g in gs for b, _ in g.scen]
def caller_kinds(rng, variant, small=False):
    """one caller's history, taken from the generators of the other properties"""
    if variant.startswith("real"):
        f = rng.choice([lambda: gen.oneshot(rng, 1, variant), lambda: gen.cstreams(rng, 1, variant), lambda: gen.oneshot_levels(rng, 1, variant), lambda: bigchunks(rng, 1)])
    elif small:
        f = rng.choice([lambda: [Group("", [(b_oneshot_mt(rng), "")], "")], lambda: [Group("", [(b_stream_sync(rng), "")], "")], lambda: [Group("", [(b_decode_mt(rng), "")], "")], lambda: cancels(rng, 1), lambda: flushes(rng, 1, "asan", "")])
    else:
        f = rng.choice([lambda: gen.oneshot(rng, 1, variant), lambda: gen.cstreams(rng, 1, variant, tmo=rng.random() < 0.3), lambda: flushes(rng, 1, variant, ""), lambda: mixchunks(rng, 1), lambda: resets(rng, 1),
                        lambda: params_hist(rng, 1, variant), lambda: gd.dec_splits(rng, 1, variants=(variant,), limits=rng.random() < 0.3, tmo=rng.random() < 0.3), lambda: gd.dec_damage(rng, 1, (variant,)),
                        lambda: gd.dec_grammar(rng, 1, (variant,)), lambda: caps_sweep(rng, 1, variant)[1:], lambda: c_histories(rng, 1, variant)])
    return rng.choice(bodies_of(f()))
def callers(rng, n, variant, prefix="th", k=(2, 2, 3), small=False, sched=None):
    """several threads, each with objects of its own: every one's history must be one the contract allows by itself"""
    gs = []
    for i in range(n):
        body = []
        for _ in range(rng.choice(k)): body += ["thread"] + caller_kinds(rng, variant, small)
        gs.append(Group("%s%d" % (prefix, i), [(body, sched(rng) if sched else "")], variant))
    return gs
def callers_same(rng, n, variant, prefix="ti", sched=None):
    """the same calls with the same results, made by one caller (member #0) and by several at the same time"""
    gs = []
    for i in range(n):
        b = ["mark 1"] + rng.choice([b_oneshot_mt, b_stream_sync, b_decode_mt])(rng)
        gs.append(Group("%s%d" % (prefix, i), [(b, "0 0 0" if sched else "")] + [((["thread"] + b) * rng.choice([2, 3]), sched(rng) if sched else "") for _ in range(2)], variant))
    return gs

def callers_free(rng, n, variant, prefix="tx", sched=None):
    """the functions that take no context, from several threads"""
    gs = []
    for i in range(n):
        body = []
        for _ in range(rng.choice([2, 3])):
            body += ["thread", "data 1 " + gen.data(rng, rng.choice([100, 3000, 6000]))]
            body += gd.comp_stream(rng, 0, total=rng.choice([4096, 9000]), reset=1, hashv=1) + ["refdec 0 0", gd.mk(rng, 4, 5, gd.grammar(rng, 1.0, 5)), "refdec 4 1"]
            for _ in range(rng.choice([1, 2, 3])): body += rng.choice([["dmt %d 0 need" % rng.choice([1, 1, 2, 3])], ["dmt 1 4 need"], ["usize 0", "usize 4"], ["level 0 %d %d" % (rng.randrange(1, 11), rng.randrange(2))]] + ([["comp1 %d 1 2 bound+200 %d" % (rng.choice([1, 1, 2]), rng.choice([1, 2])), "refdec 2 2", "dmt 1 2 need"]] if variant != "ctl" or rng.random() < 0.2 else []))
        gs.append(Group("%s%d" % (prefix, i), [(body, sched(rng) if sched else "")], variant))
    return gs
def callers_cores(rng, n, variant, prefix="tn", sched=None):
    """the number of threads left to the library, asked for by several callers at the same time"""
    gs = []
    for i in range(n):
        body = []
        for _ in range(rng.choice([2, 3, 4])):
            body += ["thread"] + ["data 1 z:10:1"] * rng.choice([0, 0, 1, 3])
            for _ in range(rng.choice([1, 2])): body += ["cnew 0 0 0" if rng.random() < 0.8 else "cnew 0 %d 0" % rng.randrange(4), "cfree 0"]
            if not sched or rng.random() < 0.5: body += ["cnew 0 0 %d" % rng.randrange(2), "cset 0 dictSize 4096", "data 1 " + gen.data(rng, 5000), "comp 0 1 2 bound+200 0", "cfree 0", "refdec 2 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, sched(rng) if sched else "")], variant))
    return gs

def callers_params(rng, n, variant, prefix="tp", sched=None):
    """levels and parameters set by several callers at the same time"""
    gs = []
    for i in range(n):
        body = []
        for _ in range(rng.choice([2, 2, 3])): body += ["thread"] + rng.choice(bodies_of(params_hist(rng, 1, variant)))
        gs.append(Group("%s%d" % (prefix, i), [(body, sched(rng) if sched else "")], variant))
    return gs

# ------------------------------------------------------------------------------------------------
# every caller's history is judged by the rules of the other properties
RULES = {"C17": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C17"]}
def suite(prop, tier, rng):
    q = tier == "quick"
    n = lambda a, b: a if q else b
    gs = []
    if prop == "C01":
        gs += gen.oneshot(rng, n(180, 1600), "asan", "osa") + gen.oneshot(rng, n(60, 500), "asanc", "osc") + gen.oneshot(rng, n(16, 150), "real", "osr")
        gs += gen.oneshot_levels(rng, n(10, 60), "real", "lvr") + ctl(gen.oneshot(rng, n(40, 300), "asan", "osk"), rng)
        gs += c_histories(rng, n(20, 150), "asan", "ho") + bigchunks(rng, n(16, 120)) + mixchunks(rng, n(24, 200)) + gd.fmt_real(rng, n(25, 300), prefix="frc")
    elif prop == "C02":
        gs += gen.cstreams(rng, n(150, 1300), "asan", "csa") + gen.cstreams(rng, n(40, 400), "asanc", "csc") + gen.cstreams(rng, n(30, 300), "asan", "cst", tmo=True)
        gs += ctl(gen.cstreams(rng, n(60, 500), "asan", "csk", dual=1), rng) + ctl(gen.cstreams(rng, n(50, 400), "asan", "ckt", tmo=True), rng) + gen.cstreams(rng, n(6, 60), "real", "csr")
        gs += bigchunks(rng, n(4, 40), "s") + mixchunks(rng, n(12, 100), "s") + areas(rng, n(60, 600), "ctl", "ark", sched_str) + areas(rng, n(6, 60), "real", "arr")
        gs += mbt.groups(rng, tier, ["ctl"], dual=True, n=n(80, 1000), F=n(4, 6), ov=0, ri=0, sched=sched_str, prefix="mo")
        gs += mbt.groups(rng, tier, ["fast", "fast", "asan"], n=n(250, 3000), F=n(5, 7), prefix="mb") + mbt.groups(rng, tier, ["ctl"], dual=True, n=n(120, 1500), F=n(4, 6), sched=sched_str, prefix="md")
    elif prop == "C03":
        gs += gen.oneshot(rng, n(120, 1000), "fast", "os") + gen.cstreams(rng, n(140, 1200), "fast", "cs") + gen.oneshot(rng, n(16, 150), "real", "osr") + gen.oneshot_levels(rng, n(20, 60), "real", "lvr")
        gs += resets(rng, n(40, 300)) + bigchunks(rng, n(8, 60)) + mixchunks(rng, n(12, 100)) + gd.fmt_real(rng, n(40, 500))
    elif prop == "C04":
        gs += flushes(rng, n(150, 1200), "asan", "fl") + ctl(flushes(rng, n(100, 800), "asan", "fk"), rng) + gen.cstreams(rng, n(40, 300), "asan", "cs")
        gs += mbt.groups(rng, tier, ["fast"], n=n(150, 2000), F=n(4, 6), ov=2, ri=3, prefix="mb") + mbt.groups(rng, tier, ["ctl"], dual=True, n=n(120, 1500), F=n(4, 6), sched=sched_str, prefix="md")
    elif prop == "C05":
        gs += caps_sweep(rng, n(45, 300), "asan", "cpa") + caps_sweep(rng, n(20, 150), "asanc", "cpc") + caps_sweep(rng, n(4, 40), "real", "cpr") + gen.cstreams(rng, n(60, 400), "asan", "cs")
        gs += gd.dec_damage(rng, n(40, 400), ("asan", "asanc")) + gd.dec_grammar(rng, n(40, 400), ("asan", "asanc")) + boundreal(rng, n(20, 120))
    elif prop == "C06":
        gs += gd.dec_damage(rng, n(150, 1200)) + gd.dec_cuts(rng, n(40, 300)) + gd.dec_grammar(rng, n(60, 600), legal=0.5) + gd.dec_edges(rng, n(30, 300)) + ctl(gd.dec_damage(rng, n(30, 200), ("asan",), "ddk"), rng)
        gs += damage_real(rng, n(8, 60)) + gd.fmt_grammar(rng, n(16, 200), prefix="fgd")
    elif prop == "C07":
        gs += gd.dec_edges(rng, n(90, 900)) + gd.dec_grammar(rng, n(200, 2000)) + gd.dec_grammar(rng, n(100, 1000), legal=0.3, prefix="dgi") + gd.dec_noprop(rng, n(60, 500)) + gd.dec_cuts(rng, n(24, 200)) + [gd.dictprops()[0]]
        gs += gd.dec_damage(rng, n(40, 400)) + chunk_enum(rng, 2 if q else 3) + gd.fmt_grammar(rng, n(40, 600)) + bigchunks(rng, n(12, 80))
    elif prop == "C08":
        gs += gd.dec_splits(rng, n(150, 1200)) + gd.dec_splits(rng, n(40, 300), limits=True, prefix="dl") + ctl(gd.dec_splits(rng, n(60, 400), ("asan",), "dk", tmo=True, limits=True), rng) + gd.dec_splits(rng, n(30, 200), tmo=True, prefix="dm")
        gs += split_enum(rng, n(24, 200)) + mbt.dgroups(rng, tier, num=n(300, 3000), keep=n(160, 1500), nworlds=n(10, 40))
    elif prop == "C09":
        gs += gp.pools(rng, n(200, 2000)) + gp.enum(rng, tier) + gp.real(rng, n(60, 400)) + gp.faults(rng, 1)
    elif prop == "C10":
        gs += ctl(gen.cstreams(rng, n(60, 500), "asan", "ct", tmo=True), rng) + ctl(cancels(rng, n(110, 900)), rng) + ctl(tmo_lift(rng, n(60, 600)), rng) + [timed_pair(rng, i) for i in range(n(40, 300))] + areas(rng, n(30, 300), "ctl", "ark", sched_str)
        gs += ctl(gd.dec_splits(rng, n(70, 500), ("asan",), "dc", tmo=True, cancel=True), rng) + gd.dec_splits(rng, n(40, 300), tmo=True, cancel=True, prefix="dcr")
        gs += mbt.groups(rng, tier, ["ctl"], timed=True, n=n(150, 2000), F=n(4, 6), sched=sched_str, prefix="mt") + mbt.groups(rng, tier, ["ctl"], dual=True, timed=True, n=n(120, 1500), F=n(4, 5), sched=sched_str, prefix="mu")
    elif prop == "C11":
        gs += params_exhaustive("asan", "pe") + params_exhaustive("real", "per") + params_hist(rng, n(200, 2000), "asan") + params_hist(rng, n(30, 300), "real", "pr")
        gs += effects(rng, "fast") + routes(rng, n(20, 120), "fast") + (effects(rng, "fastc", "efc") if not q else [])
    elif prop == "C12":
        gs += c_histories(rng, n(110, 800), "asan") + d_histories(rng, n(140, 1000), "asan") + ctl(c_histories(rng, n(40, 300), "asan", "rk"), rng) + ctl(d_histories(rng, n(30, 250), "asan", "xk"), rng)
        gs += d_histories(rng, n(40, 300), "asanc", "xhc") + oneshot_reuse(rng, n(30, 300), "asan") + oneshot_reuse(rng, n(60, 500), "asanc", "orc")
    elif prop == "C13":
        gs += same_under_schedules(rng, n(40, 300), n(6, 10), b_oneshot_mt, "so") + same_under_schedules(rng, n(40, 300), n(6, 10), b_stream_sync, "ss") + same_under_schedules(rng, n(50, 300), n(6, 10), b_decode_mt, "sd")
    elif prop == "C14":
        gs += gd.dec_splits(rng, n(140, 1000), limits=True) + limit_sweep(rng, n(40, 300)) + limit_total(rng, n(24, 200)) + limit_two(rng, n(40, 300)) + ctl(gd.dec_splits(rng, n(40, 300), ("asan",), "dk", limits=True), rng) + ctl(limit_sweep(rng, n(16, 100), "lk"), rng)
        gs += mbt.dgroups(rng, tier, num=n(250, 3000), keep=n(120, 1500), nworlds=n(10, 40), limits=True)
    elif prop == "C15":
        gs += faults(rng, "asan", range(1, n(26, 60))) + fault_random(rng, n(100, 900), "asan") + fault_random(rng, n(40, 300), "ctl", "frk")
    elif prop == "C16":
        gs += estimates(rng, tier) + gen.cstreams(rng, n(110, 900), "fast", "cs") + ctl(gen.cstreams(rng, n(40, 300), "asan", "csk"), rng) + gd.dec_splits(rng, n(60, 500), ("fast",), "ds") + ctl(gd.dec_splits(rng, n(30, 300), ("asan",), "dk", tmo=True), rng)
    elif prop == "C17":
        gs += callers(rng, n(60, 600), "asan") + callers(rng, n(30, 300), "asanc", "tc") + callers(rng, n(60, 600), "fast", "tf", (3, 4, 6)) + callers(rng, n(8, 80), "real", "tr")
        gs += callers(rng, n(60, 600), "ctl", "tk", small=True, sched=sched_str) + callers_same(rng, n(30, 300), "ctl", "ti", sched_str) + callers_same(rng, n(20, 200), "fast", "tj")
        gs += callers_free(rng, n(30, 300), "ctl", "tx", sched_str) + callers_free(rng, n(30, 300), "fast", "ty") + callers_free(rng, n(6, 60), "asanc", "tz")
        gs += callers_cores(rng, n(40, 300), "ctl", "tn", lambda r: "%d %d 2000" % (r.choice([1, 1, 3]), r.randrange(1 << 30))) + callers_cores(rng, n(10, 100), "fast", "to")
        gs += callers_params(rng, n(40, 300), "ctl", "tp", lambda r: "%d %d 4000" % (r.choice([1, 1, 3]), r.randrange(1 << 30))) + callers_params(rng, n(20, 100), "fast", "tq")
    return gs

def resets(rng, n, prefix="rs"):
    """dictionary reset interval, dictionaries that do not fill, long streams of small dictionaries"""
    gs = []
    for i in range(n):
        ds = rng.choice([4096, 5000, 6144]); thr = rng.choice([1, 2])
        p = {"dictSize": ds, "reset": rng.choice([0, 1, 2, 3, 4, 7, 16]), "overlap": rng.choice([0, 2, 8, 14]), "strategy": rng.randrange(3)}
        body = ["cnew 0 %d %d" % (thr, rng.randrange(2))] + gen.csets(0, p)
        total = ds * rng.choice([4, 8, 12]) + rng.randrange(ds)
        body += ["data 1 " + gen.data(rng, total)]
        if rng.random() < 0.5: body += ["comp 0 1 2 bound+900 0"]
        body += ["sinit 0 0", "src 0 1"]
        left = total
        while left > 0:
            a = rng.choice([ds // 3, ds, 2 * ds, 3 * ds]); left -= a
            body.append(rng.choice(["feedall 0 %d 1000000 %d" % (a, rng.choice([a, ds // 2])), "dictall 0 %d %d" % (a, ds)]))
            if rng.random() < 0.3: body.append("flushall 0 1000000")
        body += ["endall 0 1000000", "wait 0", "endall 0 1000000", "check 0", "cfree 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], "fast"))
    return gs

def flushes(rng, n, variant, prefix):
    gs = []
    for i in range(n):
        thr = rng.choice([1, 1, 2, 3]); du = rng.randrange(2)
        ds = rng.choice([4096, 4096, 5000, 8192]); p = gen.params(rng, True, ds, few=True); p["omit"] = 0
        body = ["cnew 0 %d %d" % (thr, du)] + gen.csets(0, p)
        if rng.random() < 0.3: body.append("stimeout 0 1")
        total = int(ds * rng.choice([0.1, 1, 2, 4]))
        body += ["sinit 0 0", "data 1 " + gen.data(rng, total), "src 0 1"]
        for _ in range(rng.randrange(2, 9)):
            a = rng.choice([0, 1, 2, 5, 16, 100, ds // 3, ds - 1, ds, ds + 1, 2 * ds])
            body.append(rng.choice(["feedall 0 %d %d %d" % (a, rng.choice([0, 5, 1 << 20, -1]), a or 1), "feed 0 %d %d" % (a, rng.choice([0, 30, 1 << 20])), "dictall 0 %d %d" % (a, rng.choice([a or 1, 700])), "dict 0 %d" % a]))
            body += rng.choice([["flushall 0 1048576"], ["flushall 0 -1"], ["flushall 0 33"], ["flush 0 0", "flush 0 10", "flushall 0 500"], ["flush 0 1048576"], ["flush 0 1048576", "flush 0 1048576"]]) + ["check 0"]
        body += [gen.ender(rng), "waitall 0", "endall 0 1048576", "check 0", "cfree 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], variant))
    return gs

def boundreal(rng, n):
    """incompressible data in exactly the announced bound, real block sizes"""
    gs = []
    for i in range(n):
        m = rng.choice([1, 65535, 65536, 65537, 131072, 200000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 20) + 17, 1500000])
        thr = rng.choice([1, 2, 3, 4])
        body = ["cnew 0 %d 0" % thr] + gen.csets(0, {"dictSize": 1 << 20, "strategy": rng.randrange(3), "reset": rng.choice([0, 1, 4])})
        body += ["data 1 " + ("r:%d:%d" % (m, i) if rng.random() < 0.7 else gen.data(rng, m)), "comp 0 1 2 bound 0", "comp 0 1 2 need 0", "comp 0 1 3 need-1 0", "cfree 0"] + gen.decode_all(rng, 2)
        gs.append(Group("br%d" % i, [(body, "")], "real"))
    return gs

def damage_real(rng, n):
    gs = []
    for i in range(n):
        m = rng.choice([200000, 1 << 20, 3 << 20])
        body = ["cnew 0 %d 0" % rng.choice([1, 3])] + gen.csets(0, {"dictSize": 1 << 20, "strategy": rng.randrange(3), "reset": 1})
        body += ["data 1 " + gen.data(rng, m), "comp 0 1 0 bound 0", "cfree 0"]
        for _ in range(6):
            body += ["mut 2 0 %s" % rng.choice(["flip:%%%d:%d" % (rng.randrange(1 << 24), 1 << rng.randrange(8)), "trunc:%%%d" % rng.randrange(1 << 24), "trunc:e-%d" % rng.randrange(1, 9)])] + gd.everything(rng, 2, 0, caps=False, x=0)
            body += ["xnew 0 %d" % rng.choice([1, 2, 4]), "xsrc 0 2", "xinit 0", "decall 0 %d %d" % (rng.choice([1 << 30, 100000]), 1 << 20), "xfree 0"]
        gs.append(Group("dr%d" % i, [(body, "")], "real"))
    return gs

def bigchunks(rng, n, what="c", prefix="bc"):
    """megabytes of very compressible data: chunks of the largest size, real block sizes"""
    gs = []
    for i in range(n):
        v = ["real", "realc"][i % 2]; thr = rng.choice([1, 1, 2, 3])
        m = rng.choice([(1 << 20) + 3, (2 << 20) - 273, 2 << 20, (2 << 20) + 1, (2 << 20) + 300, 3 << 20, 4500000, 6 << 20])
        a = rng.randrange(1, m)
        dat = rng.choice(["z:%d:0" % m, "z:%d:65" % m, "p:%d:%d:%d" % (m, rng.choice([1, 2, 3, 5, 200, 70000]), i), "z:%d:1 r:%d:7 z:%d:1" % (a, rng.choice([1, 5, 300]), m - a), "s:%d:%d:%d" % (m, rng.choice([20000, 300000]), i), "r:5000:1 c:%d:5000" % m])
        p = {"dictSize": rng.choice([8 << 20, 3 << 20]), "strategy": [0, 0, 1, 2][i // 2 % 4] if i < 8 else rng.randrange(3), "reset": rng.choice([0, 1, 4])}
        if rng.random() < 0.4: p["fastlen"] = rng.choice([6, 48, 273])
        if rng.random() < 0.4: p["depth"] = rng.choice([6, 42, 254])
        body = ["cnew 0 %d 0" % thr] + gen.csets(0, p) + ["data 1 " + dat]
        if what == "s": body += ["sinit 0 0", "src 0 1", "feedall 0 %d 100000 %d" % (m, rng.choice([m, 1 << 20, 777777])), "endall 0 100000", "check 0", "keep 0 2"]
        else: body += ["comp 0 1 2 bound 0"]
        body += ["cfree 0"] + gen.decode_all(rng, 2) + gen.xdecode(rng, 2, rng.choice([1, 2, 3]), rng.choice([1 << 30, 1000]), rng.choice([1 << 23, 100000, 1 << 20]))
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], v))
    return gs

def mixchunks(rng, n, what="c", prefix="mx"):
    """segments of the size of a chunk that compress and that do not, in one slice: chunks stored between compressed ones"""
    gs = []
    for i in range(n):
        v = ["real", "fastc", "asan", "realc"][i % 4]; thr = rng.choice([1, 1, 1, 2])
        segs = []; total = 0
        for k in range(rng.choice([3, 4, 5])):
            m = rng.choice([30000, 66000, 90000, 140000, 200000]); s = rng.randrange(1 << 20)
            if k % 2: segs.append("r:%d:%d" % (m, s))
            else: segs.append(rng.choice(["t:%d:%d" % (m, s), "a:%d:%d:%d" % (m, rng.choice([26, 60, 120]), s), "s:%d:%d:%d" % (m, rng.choice([20, 200, 5000]), s), "z:%d:65" % m, "r:%d:%d c:%d:%d" % (m // 2, s, m - m // 2, m // 2)]))
            total += m
        p = {"dictSize": 1 << 20, "strategy": rng.randrange(3), "reset": rng.choice([0, 1, 4])}
        if rng.random() < 0.3: p["lc"], p["lp"], p["pb"] = rng.choice([(0, 0, 0), (4, 0, 4), (1, 2, 3)])
        body = ["cnew 0 %d 0" % thr] + gen.csets(0, p) + ["data 1 " + " ".join(segs)]
        if what == "s": body += ["sinit 0 0", "src 0 1", "feedall 0 %d 100000 %d" % (total, rng.choice([total, 77777])), "endall 0 100000", "check 0", "keep 0 2"]
        else: body += ["comp 0 1 2 bound 0"]
        body += ["cfree 0"] + gen.decode_all(rng, 2)
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], v))
    return gs

def chunk_enum(rng, depth):
    """every sequence of chunk kinds up to a length, decoded through every interface"""
    kinds = [1, 2, 0x80, 0xA0, 0xC0, 0xE0, 3]
    seqs = [[]]
    allseq = []
    for _ in range(depth):
        seqs = [s + [k] for s in seqs for k in kinds]
        allseq += seqs
    gs = []; batch = []
    for j, s in enumerate(allseq):
        toks = []
        for k in s:
            if k in (0xC0, 0xE0) and rng.random() < 0.3: toks.append("P%d%d%d" % rng.choice([(3, 0, 2), (0, 0, 0), (1, 2, 3)]))
            toks.append("%d,%d" % (k, rng.choice([1, 5, 60])))
        toks.append("0")
        b = [gd.mk(rng, 0, 1, toks, prop=0, hash_=1), "refdec 0 0", "fmt 0 0", "usize 0", "ddec 0 0 need", "ddec 1 0 need"]
        for o in (0, 1): b += ["xsrc %d 0" % o, "xinit %d" % o, "decall %d %d %d" % (o, rng.choice([1, 4, 1000]), rng.choice([3, 1000]))]
        batch += b
        if j % 8 == 7 or j == len(allseq) - 1:
            gs.append(Group("ce%d" % j, [(["dnew 0 1", "dnew 1 2", "xnew 0 1", "xnew 1 2"] + batch + ["dfree 0", "dfree 1", "xfree 0", "xfree 1"], "")], rng.choice(["asan", "asanc"]))); batch = []
    return gs

def split_enum(rng, n):
    """short streams: every position of one split of the input, and of the output"""
    gs = []
    for i in range(n):
        toks = [t for t in gd.grammar(rng, 1.0, 4, True) if t != "0"] + ["0"]
        body = [gd.mk(rng, 0, 1, toks, prop=0, hash_=rng.randrange(2)), "mut 2 0 app:3:1", "refdec 2 0", "xnew 0 1", "xnew 1 2"]
        for k in range(0, 60, 1):
            for o in (0, 1):
                body += ["xsrc %d 2" % o, "xinit %d" % o]
                if k % 2: body += ["dec %d %d 1000" % (o, k // 2), "decall %d 1000 1000" % o]
                else: body += ["dec %d 1000 %d" % (o, k // 2), "decall %d 1000 1000" % o]
        body += ["xfree 0", "xfree 1"]
        gs.append(Group("se%d" % i, [(body, "")], rng.choice(["asan", "asanc"])))
    return gs

def limit_total(rng, n, prefix="lt"):
    """very compressible blocks: a limit that one or a few blocks fit, but not one for every thread"""
    gs = []
    for i in range(n):
        thr = rng.choice([4, 5, 6]); ds = rng.choice([32768, 65536, 65536]); k = rng.choice([6, 9, 14])
        d = rng.choice(["z:%d:%d" % (ds * k, rng.randrange(256)), "p:%d:%d:%d" % (ds * k, rng.choice([1, 4, 100]), rng.randrange(99)), "m:%d:400:300:%d" % (ds * k, rng.randrange(99))])
        body = ["cnew 0 1 0"] + gen.csets(0, {"dictSize": ds, "reset": rng.choice([1, 1, 2]), "overlap": 0, "strategy": 0, "hash": rng.randrange(2)}) + ["data 1 " + d, "comp 0 1 0 bound+3000 0", "cfree 0", "refdec 0 0", "xnew 0 %d" % thr]
        for mul in rng.sample([0.5, 1.1, 1.3, 2.1, 2.3, 3.2, 4.1, 5.5, 8], 4):
            body += ["xlimit 0 %d" % int(ds * mul), "xsrc 0 0", "xinit 0", "decall 0 %d %d" % (rng.choice([1 << 30, 1 << 30, 500]), rng.choice([1 << 22, 50000, 7000]))]
        gs.append(Group("%s%d" % (prefix, i), [(body + ["xfree 0"], "")], "fast"))
    return gs
def limit_two(rng, n, prefix="lw"):
    """streams of different dictionary sizes one after the other on one object, with and without a limit"""
    gs = []
    for i in range(n):
        thr = rng.choice([2, 3, 4]); body = ["cnew 0 1 0"]
        for b, ds in ((0, rng.choice([4096, 5000])), (4, rng.choice([16384, 32768, 65536]))):
            m = rng.choice([2, 4]) * ds
            body += gen.csets(0, {"dictSize": ds, "reset": rng.choice([1, 4]), "overlap": rng.choice([0, 2]), "strategy": 0, "hash": rng.randrange(2)}) + ["data 1 r:%d:%d c:%d:%d" % (ds * 3 // 4, i, m, ds * 3 // 4 - 1), "comp 0 1 %d bound+3000 0" % b]
        body += ["cfree 0", "refdec 0 0", "refdec 4 1", "xnew 0 %d" % thr]
        for b in rng.choice([(0, 4, 0), (4, 0, 4), (0, 0, 4, 4)]):
            lim = rng.choice([0, 1000, 10000, 1 << 28]) if rng.random() < 0.7 else 10000
            body += ["xlimit 0 %d" % lim, "xsrc 0 %d" % b, "xinit 0"] + rng.choice([["decall 0 %d %d" % (rng.choice([1 << 30, 3000, 500]), rng.choice([1 << 20, 5000]))], ["dec 0 1000 100"]])
        gs.append(Group("%s%d" % (prefix, i), [(body + ["xfree 0"], "")], "asan"))
    return gs
def limit_sweep(rng, n, prefix="ls"):
    """one multi-block stream, many limits on one reused object, switching while earlier blocks are still to be delivered"""
    gs = []
    for i in range(n):
        thr = rng.choice([2, 3, 4])
        if i % 3 == 2:      # the compressed input of one block is over the limit
            body = ["cnew 0 1 0"] + gen.csets(0, {"dictSize": 4096, "reset": rng.choice([4, 8, 16, 0]), "overlap": 2, "hash": rng.randrange(2)})
            m = rng.choice([70000, 100000]); body += ["data 1 " + rng.choice(["r:%d:%d" % (m, i), "b:%d:200:%d" % (m, i), "r:%d:%d z:%d:7" % (m, i, m)]), "comp 0 1 0 bound+3000 0", "cfree 0"]
        else: body = gd.comp_stream(rng, 0, total=rng.choice([9000, 20000, 33000]), reset=1, ds=rng.choice([4096, 5000, 8192]), hashv=rng.randrange(2))
        body += ["mut 2 0 app:5:1", "refdec 2 0", "xnew 0 %d" % thr]
        for lim in rng.sample([0, 1, 100, 1000, 4096, 5000, 8000, 10000, 13000, 17000, 20000, 25000, 30000, 40000, 50000, 70000, 100000], 7):
            body += ["xlimit 0 %d" % lim, "xsrc 0 2", "xinit 0"] + gd.splits(rng, 0, 2, rng.randrange(0, 4)) + ["decall 0 %d %d" % (rng.choice([1 << 30, 3000, 500, 61]), rng.choice([1 << 20, 5000, 1000]))]
        body += ["xfree 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], "asan"))
    return gs
