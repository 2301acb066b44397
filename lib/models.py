"""The models TLC checks exhaustively (no trace involved): run(prop, tier) -> dict(states, transitions, runs, failed)"""
import os, re, time
from concurrent.futures import ThreadPoolExecutor
import runner
def pool(T, K, B, bug="none", live=True):
    return ('SPECIFICATION Spec\nCONSTANTS T = %d\n K = %d\n Batches = %d\n Bug = "%s"\nINVARIANTS Inv OnlyHanded\n' % (T, K, B, bug)) + ("PROPERTIES WaitTerminates FreeTerminates\n" if live else "")
def cstream(D=3, OV=1, RI=2, dual=False, timed=False, F=6, slices=2, streams=1, feeds="{1, 2, 4}", caps="CapsFew", bug="none", live=True):
    b = lambda x: "TRUE" if x else "FALSE"
    return ('SPECIFICATION Spec\nCONSTANTS D = %d\n OV = %d\n RI = %d\n Dual = %s\n Timed = %s\n Slices = %d\n F = %d\n Streams = %d\n Feeds = %s\n Caps <- %s\n Bug = "%s"\n'
            'INVARIANTS NothingBad TypeOK FlushDone EndDone EndLast Accounted Returns Offers\n' % (D, OV, RI, b(dual), b(timed), slices, F, streams, feeds, caps, bug)) + ("PROPERTY CallsReturn\n" if live else "")
def cs(name, mustfail=False, **k): return ("CStreamImpl", name, cstream(**k), mustfail)
def grammar(n, bug="none"): return ("Lzma2MC", "all chunk sequences up to %d" % n if bug == "none" else "defect " + bug, 'SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Bug = "%s"\nINVARIANTS Meaning Sane\nCHECK_DEADLOCK FALSE\n' % (n, bug), bug != "none")
def dstream(worlds, bug="none", ns="{0, 1, 3, 20}", caps="{0, 1, 100}"):
    return ("DStreamMC", "defect " + bug if bug != "none" else "streams " + worlds, ('SPECIFICATION Spec\nCONSTANTS Req = 3\n Rci = 1\n Node = 8\n NM = 9\n Worlds <- %s\n Ns = %s\n Caps = %s\n Bug = "%s"\n'
            'INVARIANTS NothingBad NoFailure Done Within Moves Drains NoRefusal Memory Finish\nCHECK_DEADLOCK FALSE\n' % (worlds, ns, caps, bug)), bug != "none")
def encoder(blocks, slices, chunks, bug="none"):
    return ("EncoderMC", "defect " + bug if bug != "none" else "%d blocks, %d slices, %d chunks" % (blocks, slices, chunks),
            'SPECIFICATION Spec\nCONSTANTS Blocks = %d\n Slices = %d\n ChunksMax = %d\n Bug = "%s"\nINVARIANTS Readable Restart\nCHECK_DEADLOCK FALSE\n' % (blocks, slices, chunks, bug), bug != "none")
def build(T, L, B, bug="none"):
    return ("BuildMC", "defect " + bug if bug != "none" else "%d threads, %d lists, %d blocks" % (T, L, B),
            'SPECIFICATION Spec\nCONSTANTS T = %d\n L = %d\n Blocks = %d\n Bug = "%s"\nINVARIANTS Good Once NoneLeft Clean CancelWaits\nPROPERTIES CancelEnds Ends\n' % (T, L, B, bug), bug != "none")
ENCBUGS = ("no_restore", "props_once", "props_stored", "no_dict_reset")
DEF = dict(dict_no_comp=dict(timed=True, F=5), shift_no_wait=dict(timed=True, F=8), dict_no_wait=dict(timed=True, F=8), late_reset=dict(F=8), early_reset=dict(F=9), no_switch=dict(dual=True, F=8), double_switch=dict(dual=True, F=6, OV=0, RI=0), flush_no_wait=dict(dual=True), end_early={})
def csbug(b): return cs("defect " + b, True, bug=b, live=False, **DEF[b])
# prop -> tier -> [(module, name, cfg, must fail)]: models with a seeded defect must fail, or the properties say nothing
MODELS = {
  "C02": {"quick": [cs("synchronous", caps="CapsAll"), cs("two areas", dual=True), cs("two areas, no overlap", dual=True, OV=0, RI=0)] + [csbug(b) for b in ("end_early", "no_switch", "double_switch")],
          "thorough": [cs("synchronous, larger", D=4, F=10, caps="CapsAll"), cs("synchronous, two streams", streams=2, F=6), cs("two areas", dual=True, F=9), cs("time limit", timed=True, F=8),
                       cs("two areas, no overlap", dual=True, F=8, OV=0, RI=0), cs("time limit, overlap 2", timed=True, D=4, OV=2, F=8), cs("two areas and time limit", dual=True, timed=True, F=8)] +
                      [csbug(b) for b in ("end_early", "no_switch", "double_switch")]},
  "C07": {"quick": [grammar(5), grammar(4, "copy_keeps_props"), grammar(4, "props_only")], "thorough": [grammar(7), grammar(5, "copy_keeps_props"), grammar(5, "props_only")]},
  "C01": {"quick": [encoder(2, 2, 3)] + [encoder(2, 2, 2, b) for b in ENCBUGS], "thorough": [encoder(2, 3, 4), encoder(3, 2, 3)] + [encoder(2, 2, 2, b) for b in ENCBUGS]},
  "C13": {"quick": [build(2, 3, 2), build(3, 3, 2)] + [build(2, 2, 2, b) for b in ("plain_inc", "no_wait")], "thorough": [build(3, 4, 3), build(4, 4, 2)] + [build(2, 2, 2, b) for b in ("plain_inc", "no_wait")]},
  "C03": {"quick": [encoder(2, 2, 3), encoder(2, 2, 2, "props_once"), cs("synchronous, reset interval 2", F=9, feeds="{1, 3}", live=False), cs("synchronous, reset interval 3", F=12, RI=3, feeds="{2, 3}", live=False), cs("synchronous, no reset interval", F=9, RI=0, feeds="{1, 3}", live=False), csbug("late_reset"), csbug("early_reset")],
          "thorough": [encoder(3, 2, 3), encoder(2, 2, 2, "props_once")] + [cs("synchronous, reset interval %d, dictionary %d, overlap %d" % (ri, d, ov), D=d, OV=ov, RI=ri, F=3 * d + 1, live=False) for ri, d, ov in ((1, 3, 1), (2, 3, 2), (3, 3, 1), (2, 4, 1), (2, 4, 3))] +
                      [cs("two areas, reset interval 2", dual=True, F=10, live=False), cs("two areas, no reset interval", dual=True, F=9, RI=0, live=False), csbug("late_reset"), csbug("early_reset")]},
  "C04": {"quick": [cs("two areas", dual=True), cs("time limit", timed=True, F=5), csbug("flush_no_wait")],
          "thorough": [cs("two areas", dual=True, F=10), cs("time limit", timed=True, F=9), cs("synchronous", caps="CapsAll", F=10), csbug("flush_no_wait")]},
  "C10": {"quick": [cs("time limit", timed=True), cs("two areas and time limit", dual=True, timed=True, F=5), build(2, 3, 2)] + [build(2, 2, 2, b) for b in ("no_reset", "flag_early")] + [csbug(b) for b in ("shift_no_wait", "dict_no_wait", "dict_no_comp")],
          "thorough": [cs("time limit", timed=True, F=10), cs("two areas and time limit", dual=True, timed=True, F=9), cs("time limit, two streams", timed=True, F=5, streams=2),
                       cs("two areas and time limit, two streams", dual=True, timed=True, F=4, streams=2), build(3, 4, 3)] + [build(2, 2, 2, b) for b in ("no_reset", "flag_early")] + [csbug(b) for b in ("shift_no_wait", "dict_no_wait", "dict_no_comp")]},
  "C08": {"quick": [dstream("Small")] + [dstream("Small", b) for b in ("no_skip", "no_rewind", "end_shift")],
          "thorough": [dstream("Quick", ns="{0, 1, 3, 8, 20}", caps="{0, 1, 4, 100}"), dstream("All")] + [dstream("Small", b) for b in ("no_skip", "no_rewind", "end_shift")]},
  "C14": {"quick": [dstream("Small"), dstream("Small", "node_limit")], "thorough": [dstream("All"), dstream("Small", "node_limit")]},
  "C09": {"quick": [("PoolImpl", "2 threads, ranges up to 2, 2 batches", pool(2, 2, 2), False),
                    ("PoolImpl", "3 threads, ranges up to 2, 2 batches (safety)", pool(3, 2, 2, live=False), False)] +
                   [("PoolImpl", "defect " + b, pool(2, 1, 2, b), True) for b in ("if_wait", "no_queue_test", "timed_zero", "no_signal", "free_no_wake")],
          "thorough": [("PoolImpl", "2 threads, ranges up to 3, 2 batches", pool(2, 3, 2), False), ("PoolImpl", "3 threads, ranges up to 2, 1 batch", pool(3, 2, 1), False),
                       ("PoolImpl", "3 threads, ranges up to 3, 3 batches (safety)", pool(3, 3, 3, live=False), False), ("PoolImpl", "4 threads, ranges up to 3, 2 batches (safety)", pool(4, 3, 2, live=False), False)] +
                   [("PoolImpl", "defect " + b, pool(2, 2, 2, b), True) for b in ("if_wait", "late_busy", "no_queue_test", "timed_zero", "no_signal", "free_no_wake")]},
}
def run(prop, tier):
    out = dict(states=0, transitions=0, runs=[], failed=[])
    todo = MODELS.get(prop, {}).get(tier, [])
    def one(m):
        t = time.time()
        rc, o = runner.tlc(m[0], m[2], args=["-workers", "2" if tier == "quick" else "4"], timeout=1500, mem="4g")
        return m, rc, o, time.time() - t
    with ThreadPoolExecutor(4 if tier == "quick" else 2) as ex:
        for (mod, name, cfg, mustfail), rc, o, dt in ex.map(one, todo):
            gen, dist = runner.tlc_stats(o)
            viol = re.search(r"Error: (Invariant .* is violated|Temporal propert.* violated|Deadlock reached|Action property .* is violated)", o)
            if not viol and "Model checking completed. No error" not in o:
                raise runner.InfraError("TLC on %s (%s): %s" % (mod, name, o[-800:]))
            if not mustfail: out["states"] += dist; out["transitions"] += gen
            out["runs"].append(dict(module=mod, name=name, states=dist, generated=gen, seconds=round(dt, 1), result=viol.group(1) if viol else "holds", defect_seeded=mustfail))
            if bool(viol) != mustfail:
                out["failed"].append(dict(model="spec/%s.tla" % mod, what="%s: %s" % (name, viol.group(1) if viol else "a seeded defect is not detected")))
    return out
