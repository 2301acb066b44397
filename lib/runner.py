"""Runs scenario groups on the real code (harness vh) and validates the recorded traces with TLC."""
import json, os, re, subprocess, tempfile, time, shutil, sys
from concurrent.futures import ThreadPoolExecutor
import build as B
ROOT = B.ROOT
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPAR = int(os.environ.get("VH_JOBS", "8"))

class Group:
    """scenarios: list of (body lines, sched string or '')"""
    __slots__ = ("id", "scen", "variant", "tag")
    def __init__(self, gid, scen, variant, tag=""):
        self.id, self.scen, self.variant, self.tag = gid, scen, variant, tag
    def text(self):
        out = []
        for k, (body, sched) in enumerate(self.scen):
            out.append("scenario %s#%d%s" % (self.id, k, " sched " + sched if sched else ""))
            out += body
            out.append("end")
        return "\n".join(out) + "\n"

LEVELS = ["level 0 %d %d" % (l, h) for h in (0, 1) for l in range(1, 11)]

def tlc(module, cfg_text, env=None, args=(), timeout=800, workdir=None, mem="2g"):
    """runs TLC; returns (returncode, output)"""
    os.makedirs(WORK, exist_ok=True)
    d = workdir or tempfile.mkdtemp(prefix="tlc", dir=WORK)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f: f.write(cfg_text)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseSerialGC", "-Xmx" + mem, "-Xss16m", "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC", "-config", cfg,
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", *args, os.path.join(d if os.path.exists(os.path.join(d, module + ".tla")) else SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
    if workdir is None: shutil.rmtree(d, ignore_errors=True)
    return rc, out

def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def trace_cfg(props, variant):
    real = variant.startswith("real")
    return ("SPECIFICATION Spec\nCONSTANTS Props = {%s}\n DictLogMin = %d\n MaxLevel = 10\n MaxHighLevel = 10\nCONSTRAINT Progressed\nCHECK_DEADLOCK FALSE\n"
            % (", ".join('"%s"' % p for p in props), 20 if real else 12))

PRED = re.compile(r'"pred":"(.)(.)"')
class InfraError(Exception): pass

def unit_lines(tr):
    """the trace cut into units (one per group; "scenario" events with cont=0 start one)"""
    units = []
    with open(tr) as f:
        for line in f:
            if line.startswith('{"e":"scenario"') and '"cont":0}' in line: units.append([])
            if units: units[-1].append(line)
    return units

def run_chunk(k, groups, bins, props, tmo, module="ApiTrace", keep=False, prog="vh"):
    """one variant per chunk. returns dict(done=set of indices, rules, states, trans, events, rejected={index: lines})"""
    d = tempfile.mkdtemp(prefix="ck%d_" % k, dir=WORK)
    try:
        sc, tr = os.path.join(d, "s.txt"), os.path.join(d, "t.ndjson")
        head = "scenario levels\n" + "\n".join(LEVELS) + "\nend\n" if module == "ApiTrace" else ""
        off = 1 if module == "ApiTrace" else 0
        with open(sc, "w") as f:
            f.write(head)
            for g in groups: f.write(g.text())
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:log_path=" + os.path.join(d, "asan"))
        p = subprocess.run([bins[groups[0].variant][prog], sc, tr, str(tmo)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        if p.returncode != 0:
            raise InfraError("harness failed: %s\n%s" % (p.returncode, p.stderr[-2000:]))
        units = unit_lines(tr)
        nrun = len(units) - off                               # groups that were run (the harness stops after many crashes)
        live = list(range(nrun))
        res = dict(done=set(), rules=[], states=0, trans=0, events=sum(map(len, units)), kinds={}, nrun=nrun, rejected={}, evalerr=0, pred=[0, 0])
        for u in units:
            for line in u:
                kd = line[6:line.index('"', 6)]
                res["kinds"][kd] = res["kinds"].get(kd, 0) + 1
                m = PRED.search(line)
                if m: res["pred"][m.group(1) == m.group(2)] += 1
        errors = 0
        while live:
            if len(live) < nrun:
                with open(tr, "w") as f:
                    for u in ([0] if off else []) + [i + off for i in live]: f.writelines(units[u])
            rc, out = tlc(module, trace_cfg(props, groups[0].variant), env={"TRACE": tr}, args=["-workers", "1"], workdir=d)
            pos = lambda u: live[int(u) - 1 - off] if 0 <= int(u) - 1 - off < len(live) else -1
            rules = [(pos(a), int(b), n) for a, b, n in re.findall(r'<<\s*"RULE",\s*<<(\d+), (\d+)>>,\s*"([^"]*)"', out)]
            done = {pos(u) for u in re.findall(r'<<"DONE", (\d+)>>', out)} - {-1}
            gen, dist = tlc_stats(out)
            if "Model checking completed" in out:
                res["done"] |= done; res["rules"] += rules; res["states"] += dist; res["trans"] += gen - len(live) - off   # every behaviour is linear: one initial state each
                break
            # an event the contract cannot even be evaluated on (a field or object that should exist is missing)
            st = re.findall(r"^/\\ u = (\d+)", out, re.M)
            errors += 1
            if "OutOfMemory" in out or rc in (124, 137) or not st or pos(st[-1]) < 0 or errors > 12:
                if os.environ.get("VH_KEEP"): shutil.copytree(d, os.environ["VH_KEEP"], dirs_exist_ok=True)
                if errors > 12: break
                err = re.search(r"Error:.*", out, re.S)
                raise InfraError("TLC failed (%s)\n%s" % (rc, (err.group(0) if err else out)[:900]))
            bad = pos(st[-1])
            res["evalerr"] += 1
            res["rules"].append((bad, -1, "event the contract cannot be evaluated on: " + " ".join(re.search(r"Error:.*?(?=State 1|The behavior|$)", out, re.S).group(0).split())[:200]))
            live.remove(bad)
        res["rejected"] = {i: "".join(units[i + off]) for i in range(nrun) if i not in res["done"]}
        if keep:
            res["trace"] = "".join("".join(u) for u in units)
            asan = [f for f in os.listdir(d) if f.startswith("asan.")]
            if asan: res["asan"] = open(os.path.join(d, asan[0])).read()[:3000]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

class Result:
    def __init__(self):
        self.states = self.trans = self.accepted = self.events = self.groups = self.scenarios = 0
        self.kinds, self.viol, self.unconfirmed, self.samples = {}, [], [], []
        self.by_variant = {}
        self.rule_hits = {}
        self.rejected = 0
        self.pred = [0, 0]           # calls with a model prediction: [differs, agrees]

def confirm(g, bins, props, tmo, tries=4, module="ApiTrace", prog="vh", deadline=None):
    """re-runs one group; returns the run of a repeated rejection, else None"""
    for _ in range(tries):
        if deadline and time.time() > deadline: return None
        r = run_chunk(0, [g], bins, props, tmo, module=module, keep=True, prog=prog)
        if 0 not in r["done"]:
            return r
    return None

CRASH = re.compile(r'\{"e":"crash","o":0,"sig":(4|6|7|8|11)\}')
HARD = re.compile(r'\{"e":"(crash|hang)"')

def validate(prop, groups, props=None, tmo=60, res=None, variants_bins=None, budget=None, per_chunk=None, module="ApiTrace", prog="vh", max_viol=3):
    """runs all groups; rejections are repeated on the group alone"""
    props = props or [prop]
    os.makedirs(WORK, exist_ok=True)
    res = res or Result()
    need = sorted({g.variant for g in groups})
    bins = variants_bins or B.build(need, [prog])
    by = {}
    for g in groups: by.setdefault(g.variant, []).append(g)
    chunks = []
    for v, gs in by.items():
        n = max(1, min(len(gs), (NPAR * len(gs) + len(groups) - 1) // len(groups)))
        if per_chunk: n = max(n, (len(gs) + per_chunk - 1) // per_chunk)
        for i in range(n): chunks.append(gs[i::n])
    t0 = time.time(); hangs = []
    def one(a):
        k, gs = a
        if len(hangs) >= 2 or budget and time.time() - t0 > budget: return gs, None      # after hangs (each costs tmo) the rest is not run
        r = run_chunk(k, gs, bins, props, tmo, module=module, prog=prog)
        hangs.extend([k] * r["kinds"].get("hang", 0))
        return gs, r
    with ThreadPoolExecutor(NPAR) as ex: outs = list(ex.map(one, enumerate(chunks)))
    rejected = []
    for gs, r in outs:
        if r is None: continue
        res.states += r["states"]; res.trans += r["trans"]; res.events += r["events"]
        res.pred = [a + b for a, b in zip(res.pred, r["pred"])]
        res.groups += r["nrun"]; res.scenarios += sum(len(g.scen) for g in gs[:r["nrun"]])
        for k, v in r["kinds"].items(): res.kinds[k] = res.kinds.get(k, 0) + v
        for (i, ln, name) in r["rules"]:
            res.rule_hits.setdefault(name, set()).add(gs[i].id if 0 <= i < len(gs) else "?")
        v = gs[0].variant; res.by_variant[v] = res.by_variant.get(v, 0) + r["nrun"]
        for i, g in enumerate(gs[:r["nrun"]]):
            if i in r["done"]: res.accepted += 1
            else: rejected.append((g, r["rejected"][i], [(ln, n) for j, ln, n in r["rules"] if j == i]))
    # smallest first, one per failing rule before others; a few are repeated
    rejected.sort(key=lambda q: len(q[0].text()))
    seen = set(); first = []; rest = []
    for q in rejected:
        key = tuple(sorted({n for _, n in q[2]}))
        (rest if key in seen else first).append(q); seen.add(key)
    rejected = first + rest
    res.rejected = len(rejected)
    deadline = time.time() + 240
    for g, lines, rules in rejected[:10]:
        if len(res.viol) >= max_viol or time.time() > deadline: break
        c = confirm(g, bins, props, tmo * 2, module=module, prog=prog, deadline=deadline)
        if c is not None:
            res.viol.append(dict(group=g, rules=sorted({(ln, n) for i, ln, n in c["rules"] if i == 0}), trace=c["trace"], asan=c.get("asan"), repeated=True))
        elif (rules and not HARD.search(lines)) or CRASH.search(lines):
            # the recorded history itself breaks the contract, although the run did not repeat it (real threads)
            res.viol.append(dict(group=g, rules=sorted(set(rules)), trace=lines, asan=None, repeated=False))
        else: res.unconfirmed.append(g.id)
    if groups and len(res.samples) < 2:
        g = min(groups, key=lambda g: len(g.text()))
        res.samples.append(dict(group=g.id, variant=g.variant, scenario=g.text()[:1500]))
        g = groups[len(groups) // 2]
        res.samples.append(dict(group=g.id, variant=g.variant, scenario=g.text()[:1500]))
    return res
