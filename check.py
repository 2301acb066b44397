#!/usr/bin/env python3
"""check.py <property id> quick|thorough

Runs the property's suite of call histories on the library built from /repo's working tree, has TLC decide
for every recorded history whether the contract (spec/) allows it, and runs the property's models.
exit 0: everything explored is allowed; 1: VIOLATION line(s); 2: the check itself could not run."""
import json, os, random, re, sys, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner, suites, models, mbt
ROOT = runner.ROOT
EV = os.path.join(ROOT, "evidence")

def known():
    """known_findings.txt: 'finding: property=<id> rule=<failing rule> | <what fails>' (fixed: lines suppress nothing)"""
    out = []
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) rule=(.*?) \| (.*)", line.strip())
            if m: out.append(m.groups())
    except FileNotFoundError: pass
    return out

def save(prop, k, v, seed, tier):
    d = os.path.join(EV, "replay_%s_%d" % (prop, k))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    g = v["group"]
    json.dump(dict(property=prop, group=g.id, variant=g.variant, module=getattr(g, "module", "ApiTrace"), prog=getattr(g, "prog", "vh"), seed=seed, tier=tier,
                   rules=[list(r) for r in v["rules"]], repeated=v["repeated"]), open(os.path.join(d, "info.json"), "w"), indent=1)
    open(os.path.join(d, "scenario.txt"), "w").write(g.text())
    open(os.path.join(d, "trace.ndjson"), "w").write(v["trace"])
    if v.get("asan"): open(os.path.join(d, "asan.txt"), "w").write(v["asan"])
    return os.path.relpath(d, ROOT)

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    for f in os.listdir(EV):
        if f.startswith("replay_%s_" % prop): shutil.rmtree(os.path.join(EV, f), ignore_errors=True)
    rng = random.Random("%s/%s/%d" % (prop, tier, seed))
    quick = tier == "quick"
    try:
        mod = models.run(prop, tier)
        res = runner.Result()
        rounds = 0
        while True:
            groups = suites.suite(prop, tier, rng)
            runner.validate(prop, groups, props=suites.RULES.get(prop), res=res, tmo=60, budget=500 if quick else 2400, per_chunk=60)
            rounds += 1
            if res.viol or quick or time.time() - t0 > 1500: break
    except runner.InfraError as e:
        print("check could not run: %s" % e); sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc(); sys.exit(2)
    kf = known(); viol, listed = [], []
    for v in res.viol:
        names = {n for _, n in v["rules"]}
        hit = [k for k in kf if k[0] == prop and names == {k[1]}]
        (listed if hit else viol).append(v)
    for k in kf:
        if k[0] == prop: print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for m in mod["failed"]: viol.append(m)
    cov = dict(states=res.states + mod["states"], transitions=res.trans + mod["transitions"],
               traces_validated_against_impl=res.accepted,
               states_of_models=mod["states"], transitions_of_models=mod["transitions"],
               histories_run=res.groups, scenarios_run=res.scenarios, histories_rejected=res.rejected, events=res.events,
               event_kinds=res.kinds, by_build=res.by_variant, unconfirmed=res.unconfirmed, rounds=rounds, models=mod["runs"],
               samples=res.samples)
    if mbt.STATS: cov.update(model_walks=mbt.STATS[-4:], model_predictions=dict(differ=res.pred[0], agree=res.pred[1]))
    ev = dict(property=prop, tier="quick" if quick else "thorough", seed=seed, level="model_checking", coverage=cov,
              assumptions=["the independent decoder, encoder and event recorder of harness/ report what the library did",
                           "verification builds lower four size constants (FL2_VERIF_HOOKS); histories of the real* builds use the original ones"],
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)
    print("%s %s: %d histories (%d scenarios, %d events) run, %d accepted by the contract; %d states, %d model states; %.0f s" %
          (prop, tier, res.groups, res.scenarios, res.events, res.accepted, res.states, mod["states"], time.time() - t0))
    if res.unconfirmed: print("not repeated: %s" % res.unconfirmed)
    for k, v in enumerate(viol):
        if "model" in v:
            print("model %s: %s" % (v["model"], v["what"])); print("VIOLATION property=%s replay=%s" % (prop, v["model"])); continue
        p = save(prop, k, v, seed, tier)
        print("rejected history %s (%s): %s" % (v["group"].id, v["group"].variant, "; ".join("event %d: %s" % r for r in v["rules"]) or "an event no action admits: " + v["trace"].strip().splitlines()[-1][:200]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    sys.exit(1 if viol else 0)

if __name__ == "__main__": main()
