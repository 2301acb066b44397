"""Scenario generators for decompression. As in gen.py: lists of runner.Group, all randomness from rng."""
from runner import Group
import gen
KINDS_OK = [1, 2, 0x80, 0xA0, 0xC0, 0xE0]

def ulen(rng):
    return rng.choice([1, 2, 3, 7, 20, 64, 100, 255, 256, 257, 1000, 1500, 3000])

def grammar(rng, legal=0.7, maxch=7, small=False):
    """chunk tokens of one stream; the state a decoder needs is followed so that most streams are legal"""
    toks, need = [], "dict"      # dict: dictionary reset needed, props: properties needed, state: state reset needed, none
    lc, lp, pb = 3, 0, 2
    bad = rng.random() > legal
    n = rng.randrange(0, maxch)
    badat = rng.randrange(n + 1) if bad else -1
    for i in range(n):
        if rng.random() < 0.25:
            lc = rng.randrange(5); lp = rng.randrange(5 - lc); pb = rng.randrange(5)
            if need in ("dict", "props") or rng.random() < 0.3: toks.append("P%d%d%d" % (lc, lp, pb)); chg = True
            else: chg = False
        else: chg = False
        L = ulen(rng) if not small else rng.choice([1, 2, 3, 9, 30])
        if i == badat:
            r = rng.random()
            if r < 0.35: toks.append("%d,%d" % (rng.choice([1, 2, 3, 0x10, 0x7f, 0x80, 0xA0, 0xC0, 0xE0]), L)); 
            else: toks.append("%d,%d,%d" % (rng.choice([0x80, 0xA0, 0xC0, 0xE0]) if r < 0.5 else 0xE0, L, rng.choice([1, 2, 4, 8, 16, 32, 64, 128])))
            need = "none"; continue
        if need == "dict": k = rng.choice([1, 0xE0, 0xE0, 0xE0])
        elif need == "props": k = rng.choice([1, 2, 0xC0, 0xE0, 0xC0])
        elif need == "state": k = rng.choice([1, 2, 0xA0, 0xC0, 0xE0])
        else: k = rng.choice([1, 2, 0x80, 0x80, 0xA0, 0xC0, 0xE0])
        if chg and k in (0x80, 0xA0): k = 0xC0
        toks.append("%d,%d" % (k, L))
        if k == 1: need = "props"
        elif k >= 0xA0: need = "none"
        elif k == 2: need = need if need == "props" else "state" if rng.random() < 0 else need
    if rng.random() < 0.92: toks.append("0")
    return toks

def mk(rng, b, rb, toks, prop=None, hash_=None, pr=(3, 0, 2)):
    prop = rng.choice([0, 0, 1, 2, 5, 12, 40]) if prop is None else prop
    hash_ = rng.choice([0, 1, 1, 1, 2]) if hash_ is None else hash_
    return "mk %d %d %d %d %d %d %d %d %s" % (b, rb, rng.randrange(1 << 16), prop, hash_, *pr, " ".join(toks))

def splits(rng, o, b, n=None, big=False):
    """explicit dec calls with varying amounts, then decall to the end"""
    ops = []
    for _ in range(rng.randrange(0, 8) if n is None else n):
        ops.append("dec %d %d %d" % (o, rng.choice([0, 1, 1, 2, 3, 5, 6, 7, 20, 100, 1000, 1 << 20]), rng.choice([0, 1, 1, 2, 7, 50, 300, 5000, 1 << 16])))
    return ops

def xdec(rng, o, b, thr=None, tmo=0, limit=None, prop=None, explicit=True, keep=False):
    thr = thr or rng.choice([1, 1, 2, 2, 3, 4])
    out = [] if keep else ["xnew %d %d" % (o, thr)]
    if limit is not None: out.append("xlimit %d %d" % (o, limit))
    out += ["xsrc %d %d" % (o, b), "xinit %d%s" % (o, "" if prop is None else " %d" % prop)]
    if tmo: out.append("xtimeout %d %d" % (o, tmo))
    if explicit and not tmo: out += splits(rng, o, b)
    out.append("decall %d %d %d" % (o, rng.choice([1, 2, 13, 100, 1000, 1 << 30, 1 << 30]), rng.choice([1, 17, 300, 5000, 1 << 16, 1 << 20])))
    out.append("dec %d 0 100" % o)
    if not keep: out.append("xfree %d" % o)
    return out

def everything(rng, b, o=0, caps=True, x=2, mt=True, usize=True):
    """decode buffer b through all interfaces, with the reference verdict first"""
    out = ["refdec %d %d" % (b, o)] + (["usize %d" % b] if usize else [])
    out += ["dnew 0 1", "ddec 0 %d need" % b]
    if caps: out.append("ddec 0 %d %s" % (b, rng.choice(["need-1", "need+1", "need+1000", "0", "1", "need-5"])))
    out.append("dfree 0")
    if mt:
        out += ["dnew 1 %d" % rng.choice([2, 3, 4]), "ddec 1 %d need" % b]
        if caps and rng.random() < 0.5: out.append("ddec 1 %d %s" % (b, rng.choice(["need-1", "need+1", "0"])))
        out.append("dfree 1")
    for _ in range(x): out += xdec(rng, o, b)
    return out

# ------------------------------------------------------------------------------------------------
def dec_edges(rng, n, variants=("asan", "asanc", "real"), prefix="de"):
    """streams whose only fault is a distance just outside what the dictionary holds: at the start of a stream, after
    a later dictionary reset, in a chunk that continues one, and once more than a dictionary size has been produced"""
    gs = []
    for i in range(n):
        v = variants[i % len(variants)]
        w = rng.randrange(5); L = rng.choice([2, 3, 5, 9, 40, 300]); prop = rng.choice([0, 0, 0, 1, 3, 20])
        if w == 0: toks = ["224,%d,16" % L]
        elif w == 1: toks = ["224,%d" % rng.choice([1, 2, 700]), "224,%d,16" % L, "128,20"]
        elif w == 2: toks = ["1,%d" % rng.choice([1, 2, 5]), "192,%d,16" % L]
        elif w == 3: toks = ["224,%d" % rng.choice([1, 2, 5, 100]), "%d,%d,16" % (rng.choice([128, 160, 192]), L), "2,9"]
        else:
            toks = ["224,%d" % rng.choice([4090, 4096, 4097, 6000, 9000]), "%d,%d,16" % (rng.choice([128, 160]), rng.choice([L, 5000]))]
            prop = rng.choice([0, 0, 1])
        if rng.random() < 0.9: toks.append("0")
        body = [mk(rng, 0, 1, toks, prop=prop, hash_=rng.choice([0, 1, 1]))] + everything(rng, 0, x=1, mt=rng.random() < 0.3, usize=False)
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], v))
    return gs

def dec_grammar(rng, n, variants=("asan", "asanc"), prefix="dg", legal=0.7):
    gs = []
    for i in range(n):
        v = variants[i % len(variants)]
        pr = rng.choice([(3, 0, 2), (0, 0, 0), (4, 0, 4), (0, 4, 0), (2, 2, 2), (1, 3, 1)])
        toks = grammar(rng, legal)
        body = [mk(rng, 0, 1, toks, pr=pr)]
        body += everything(rng, 0)
        if rng.random() < 0.4:
            body += ["mut 2 0 app:%d:%d" % (rng.choice([1, 3, 50]), rng.randrange(99))] + everything(rng, 2, 1, usize=False, x=1)
        if rng.random() < 0.6:
            m = rng.choice(["trunc:%%%d" % rng.randrange(1 << 20), "trunc:e-%d" % rng.choice([1, 2, 3, 4, 5, 6, 7]), "flip:%%%d:%d" % (rng.randrange(1 << 20), 1 << rng.randrange(8)),
                            "del:%%%d:%d" % (rng.randrange(1 << 20), rng.choice([1, 2, 7])), "dup:%%%d:%d" % (rng.randrange(1 << 20), rng.choice([1, 2, 7, 50]))])
            body += ["mut 2 0 " + m] + everything(rng, 2, 1)
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], v))
    return gs

def comp_stream(rng, b, ds=None, total=None, thr=1, hashv=1, reset=None, omit=0):
    """compress into buffer b (raw in b+1); many independent blocks when reset is small"""
    ds = ds or 4096
    total = int(ds * rng.choice([0, 0.01, 0.3, 1, 1, 2, 3, 5])) if total is None else total
    p = {"dictSize": ds, "reset": rng.choice([1, 1, 1, 2, 4]) if reset is None else reset, "overlap": rng.choice([0, 2]), "hash": hashv}
    if omit: p["omit"] = 1
    return ["cnew 0 %d 0" % thr] + gen.csets(0, p) + ["data %d " % (b + 1) + gen.data(rng, total), "comp 0 %d %d bound+200 0" % (b + 1, b), "cfree 0"]

def lowered(rng):
    """a legal sequence of chunks whose first chunk (or the first after a dictionary reset) resets less than it must"""
    while True:
        t = [x for x in grammar(rng, 1.0, 6) if x != "0"]
        ch = [k for k, x in enumerate(t) if "," in x and int(x.split(",")[0]) in (1, 0xE0)]
        if not ch: continue
        k = ch[0]; kind, rest = t[k].split(",", 1)
        t[k] = "%d,%s" % (2 if kind == "1" else rng.choice([0xC0, 0xC0, 0xA0, 0x80]), rest)
        return t + ["0"]

def dec_damage(rng, n, variants=("asan", "asanc"), prefix="dd"):
    """real streams with a checksum, damaged or cut"""
    gs = []
    for i in range(n):
        v = variants[i % len(variants)]
        body = comp_stream(rng, 0, thr=rng.choice([1, 2, 3]), total=rng.choice([0, 1, 2, 10, 60, 400, 3000, 4096, 9000, 20000]))
        muts = []
        for _ in range(6):
            r = rng.randrange(1 << 20)
            muts.append(rng.choice(["trunc:%%%d" % r, "trunc:e-%d" % rng.randrange(1, 12), "trunc:%d" % rng.randrange(12), "flip:%%%d:%d" % (r, 1 << rng.randrange(8)),
                                    "flip:%%%d:%d" % (r, rng.randrange(1, 256)), "flip:e-%d:%d" % (rng.randrange(1, 8), 1 << rng.randrange(8)), "flip:%d:%d" % (rng.randrange(8), 1 << rng.randrange(8)),
                                    "del:%%%d:%d" % (r, rng.choice([1, 2, 100])), "dup:%%%d:%d" % (r, rng.choice([1, 2, 100])), "set:e-5:%d" % rng.choice([1, 2, 128, 255]), "set:%%%d:0" % r]))
        for m in muts:
            body += ["mut 2 0 " + m] + everything(rng, 2, 0, caps=False, x=1)
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], v))
    return gs

def dec_cuts(rng, n, variants=("asan", "asanc"), prefix="dt", x=True):
    """every truncation and every single-byte change of a short stream"""
    gs = []
    for i in range(n):
        v = variants[i % len(variants)]
        if rng.random() < 0.5: body = comp_stream(rng, 0, total=rng.choice([0, 1, 3, 20, 60]), thr=1)
        else: body = [mk(rng, 0, 1, [t for t in grammar(rng, 1.0, 4, True) if t != "0"] + ["0"], prop=0, hash_=1)]
        gs.append(Group("%s%d" % (prefix, i), [(body + ["sweep 0 %d %d" % (rng.choice([2, 3]), rng.randrange(256))], "")], v))
    return gs

def dec_splits(rng, n, variants=("asan", "asanc"), prefix="ds", tmo=False, limits=False, cancel=False):
    gs = []
    for i in range(n):
        v = variants[i % len(variants)]
        if rng.random() < 0.35: body = [mk(rng, 0, 1, [t for t in grammar(rng, 1.0, 9) if t != "0"] + ["0"], hash_=rng.choice([0, 1]))]
        else: body = comp_stream(rng, 0, thr=rng.choice([1, 2, 3]), hashv=rng.randrange(2), total=rng.choice([0, 1, 100, 4096, 9000, 20000, 40000]))
        b = 0
        if rng.random() < 0.5: body.append("mut 2 0 app:%d:%d" % (rng.choice([1, 4, 40]), rng.randrange(99))); b = 2
        body.append("refdec %d 0" % b)
        thr = rng.choice([1, 2, 2, 3, 4]); lim = None
        body.append("xnew 0 %d" % thr)
        for j in range(rng.choice([1, 2, 3])):
            if limits: lim = rng.choice([0, 1, 5000, 20000, 40000, 60000, 100000, 300000])
            body += xdec(rng, 0, b, thr=thr, tmo=rng.choice([0, 1, 1, 2]) if tmo else 0, limit=lim, keep=True)
            if cancel and rng.random() < 0.5:
                body += ["xsrc 0 %d" % b, "xinit 0"] + splits(rng, 0, b) + ["xcancel 0"]
            if cancel and tmo and rng.random() < 0.6:      # re-initialisation, or removal of the time limit, while a call may still run
                body += ["xsrc 0 %d" % b, "xinit 0", "xtimeout 0 1", "dec 0 %d %d" % (rng.choice([100, 2000, 1 << 20]), rng.choice([300, 1 << 16]))] + rng.choice([["xinit 0"], ["xinit 0"] * 3, ["xtimeout 0 0"], ["xinit 0", "xtimeout 0 0", "xinit 0"]])
        body.append("xfree 0")
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], v))
    return gs

def dec_noprop(rng, n, variants=("asan", "asanc"), prefix="dn"):
    """streams without property byte: initDCtx / initDStream_withProp"""
    gs = []
    for i in range(n):
        v = variants[i % len(variants)]
        toks = [t for t in grammar(rng, 0.85, 6) if t != "0"] + ["0"]
        prop = rng.choice([1, 2, 3, 12, 40])
        body = [mk(rng, 0, 1, toks, prop=-prop, hash_=0), "refdec 0 0", "dnew 0 %d" % rng.choice([1, 2, 3]), "ddec 0 0 need %d" % prop, "ddec 0 0 need-1 %d" % prop]
        if rng.random() < 0.5: body += ["ddec 0 0 need %d" % rng.choice([41, 45, 127])]
        body += ["ddec 0 0 need %d" % prop, "dfree 0"]
        body += xdec(rng, 0, 0, prop=prop)
        body += ["xnew 1 %d" % rng.choice([1, 2]), "xsrc 1 0", "xinit 1 %d" % rng.choice([41, 60, 100]), "xinit 1 %d" % prop, "decall 1 100 1000", "xfree 1"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], v))
    return gs
def dictprops():
    return [Group("dprops", [(["dictprop %d" % i for i in range(256)], "")], "asan")]

def fmt_grammar(rng, n, variants=("asan", "asanc", "real"), prefix="fg"):
    """short streams of arbitrary chunks whose meaning the format specification (Lzma2.tla) computes itself"""
    gs = []
    for i in range(n):
        body = []
        for k in range(4):
            pr = rng.choice([(3, 0, 2), (0, 0, 0), (4, 0, 4), (0, 4, 0), (2, 2, 2), (1, 3, 1)])
            body += [mk(rng, 0, 1, [("%s,%d%s" % (t.split(",")[0], rng.choice([1, 2, 5, 30, 100, 200, 350]), "," + t.split(",")[2] if t.count(",") == 2 else "")) if "," in t and rng.random() < 0.5 else t
                                    for t in grammar(rng, 0.75, 5, True)], prop=rng.choice([0, 0, 1, 3, None]), pr=pr), "fmt 0 0"]
            if rng.random() < 0.5:
                r = rng.randrange(1 << 20)
                body += ["mut 2 0 " + rng.choice(["trunc:%%%d" % r, "flip:%%%d:%d" % (r, 1 << rng.randrange(8)), "app:%d:%d" % (rng.choice([1, 3, 30]), r % 99), "flip:e-%d:1" % rng.randrange(1, 6)]), "fmt 2 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], variants[i % len(variants)]))
    return gs

def fmt_real(rng, n, variants=("asan", "asanc", "fast", "real", "realc"), prefix="fr"):
    """what the compressor makes of short inputs, by the format specification"""
    gs = []
    for i in range(n):
        v = variants[i % len(variants)]; body = []
        for k in range(3):
            total = rng.choice([0, 1, 2, 3, 8, 40, 100, 250, 400, 700, 1000])
            p = {"strategy": rng.randrange(3), "hash": rng.randrange(2), "dictSize": 1 << 20 if v.startswith("real") else 4096}
            if rng.random() < 0.6:
                lc = rng.randrange(5); p.update(lc=lc, lp=rng.randrange(5 - lc), pb=rng.randrange(5))
            if rng.random() < 0.15: p["omit"] = 1
            data = rng.choice([gen.data(rng, total), "b:%d:%d:%d" % (total, rng.choice([2, 3, 17]), i + k), "p:%d:%d:%d" % (total, rng.choice([1, 2, 3, 5, 9, 40]), i), "t:%d:%d" % (total, i)])
            body += ["cnew 0 %d %d" % (rng.choice([1, 1, 2]), rng.randrange(2))] + gen.csets(0, p) + ["data 1 " + data]
            if rng.random() < 0.5: body += ["comp 0 1 0 bound+200 0", "cfree 0", "fmt 0 0"]
            else:
                body += ["sinit 0 0", "src 0 1"]
                for _ in range(rng.randrange(1, 5)):
                    a = rng.randrange(total + 1)
                    body += [rng.choice(["feedall 0 %d %d %d" % (a, rng.choice([3, 1000]), a or 1), "dictall 0 %d %d" % (a, rng.choice([a or 1, 70]))])] + rng.choice([[], ["flushall 0 1000"], ["flushall 0 7"]])
                body += ["endall 0 1000", "check 0", "keep 0 0", "cfree 0", "fmt 0 0"]
        gs.append(Group("%s%d" % (prefix, i), [(body, "")], v))
    return gs
