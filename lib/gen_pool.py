"""Call histories of the thread pool (C09)."""
from runner import Group

def history(rng, nested=False):
    thr = rng.choice([1, 1, 2, 2, 3, 4, 6])
    body = ["pnew 0 %d %d" % (thr, rng.choice([0, 0, 1, 2, 5]))]
    if nested: body.append("pnew 1 %d %d" % (rng.choice([1, 2, 3]), rng.choice([0, 1])))
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        q = 6 if nested else rng.randrange(6)
        a = rng.choice([0, 1, 1, 5]); k = 1 if nested else rng.choice([0, 1, 1, 2, 3, thr, thr + 1, 2 * thr + 1])
        body.append("padd 0 %d %d" % (q, a) if k == 1 and rng.random() < 0.6 else "prange 0 %d %d %d" % (q, a, a + k))
        if rng.random() < 0.3: body.append("pyield %d" % rng.randrange(1, 9))
        if rng.random() < 0.2: body.append("pbusy 0")
        r = rng.random()
        if r < 0.5: body.append("pwait 0 0")
        elif r < 0.9: body += ["pwait 0 %d" % rng.choice([1, 2])] * rng.randrange(1, 3) + ["pwaitall 0 %d" % rng.choice([0, 0, 1, 3])]
        else: break
        if rng.random() < 0.3: body += ["pwait 0 %d" % rng.choice([0, 1]), "pbusy 0"]
    if rng.random() < 0.9: body += ["pfree 0"]
    return body

def sched(rng):
    m = rng.choice([1, 1, 2, 3])
    if m == 2: return "2 %d 0 %s" % (rng.randrange(1 << 30), " ".join(str(rng.randrange(150)) for _ in range(rng.randrange(1, 5))))
    return "%d %d %d" % (m, rng.randrange(1 << 30), rng.choice([20, 100, 1000]))

def pools(rng, n, k=12):
    """members of a group are independent histories here; many schedules of one history per group"""
    gs = []
    for i in range(n):
        b = history(rng, nested=i % 5 == 4)
        gs.append(Group("po%d" % i, [(b, sched(rng)) for _ in range(k)], "ctl"))
    return gs

def enum(rng, tier):
    """systematic: every single preemption (and sampled or all pairs) of small histories"""
    gs = []
    bodies = [["pnew 0 1 1", "padd 0 0 1", "pwait 0 0", "padd 0 1 2", "pwait 0 1", "pwaitall 0 0", "pfree 0"],
              ["pnew 0 2 1", "prange 0 2 1 4", "pwait 0 0", "prange 0 3 0 2", "pwait 0 0", "pfree 0"],
              ["pnew 0 2 0", "prange 0 2 1 3", "pwait 0 1", "pwaitall 0 0", "padd 0 1 5", "pfree 0"],
              ["pnew 0 3 1", "prange 0 0 0 3", "pwait 0 2", "pwait 0 0", "prange 0 1 0 0", "pwait 0 0", "pbusy 0", "pfree 0"],
              ["pnew 0 2 0", "pfree 0"],
              ["pnew 0 1 1", "pnew 1 2 0", "padd 0 6 3", "pwait 0 1", "pwaitall 0 0", "pfree 0", "pfree 1"]]
    H = 170
    for bi, b in enumerate(bodies):
        pts = [[(t * 8 + ch)] for t in range(1, H) for ch in range(0, 4)]
        pairs = [[t * 8 + a, u * 8 + c] for t in range(1, H) for u in range(t + 1, H) for a in range(3) for c in range(3)]
        pts += rng.sample(pairs, 900 if tier == "quick" else 12000)
        if tier != "quick":
            for _ in range(6000): pts.append(sorted(rng.randrange(1, H) * 8 + rng.randrange(4) for _ in range(3)))
        for j in range(0, len(pts), 30):
            gs.append(Group("pe%d_%d" % (bi, j), [(b, "0 %d 0 %s" % (j, " ".join(map(str, q)))) for q in pts[j:j + 30]], "ctl"))
    return gs

def real(rng, n):
    return [Group("pr%d" % i, [(history(rng, nested=i % 4 == 3), "") for _ in range(3)], rng.choice(["asan", "fast"])) for i in range(n)]
def faults(rng, n):
    gs = []
    for thr in range(1, 6):
        for k in range(1, thr + 3):
            for st in (0, 1):
                b = ["fail %d %d" % (k, st), "pnew 0 %d 1" % thr, "fail 0 0", "prange 0 1 0 4", "pwait 0 0", "pfree 0", "pnew 0 %d 1" % thr, "prange 0 1 0 4", "pwait 0 0", "pfree 0"]
                gs.append(Group("pf%d_%d_%d" % (thr, k, st), [(b, sched(rng)) for _ in range(3)], "ctl"))
    return gs
