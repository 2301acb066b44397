#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "TLC decides every recorded history of the real library against the TLA+ contract; assurance is bounded by the histories generated (seeded by VERIF_SEED). Trusted: event recorder, reference LZMA2 decoder/encoder, allocation/thread shims of harness/."
EXTRA = {
 "C01": "one-shot histories; data decoded by an independent decoder.",
 "C02": "streaming histories incl. dual buffering, time limits and controlled schedules.",
 "C03": "chunk grammar, distances, reset gaps, property bytes of every emitted stream.",
 "C04": "prefix decodability after every completed flush.",
 "C05": "capacity sweeps with guard zones and AddressSanitizer.",
 "C06": "every truncation and byte change of short streams, sampled damage of long ones.",
 "C07": "chunk-sequence enumeration and grammar-generated legal/illegal streams, C and assembly decoders, 1-4 threads.",
 "C08": "split positions enumerated for short streams and sampled for long ones.",
 "C09": "the pool runs under a controlled scheduler; the refinement model is checked exhaustively.",
 "C10": "controlled schedules of timed calls, waits and cancels.",
 "C11": "every parameter x edge value, idle and in a stream, plus random setter histories.",
 "C12": "new and used objects compared on the same operation.",
 "C13": "the same history under random, PCT and non-preemptive schedules must give identical results.",
 "C14": "limits swept on reused objects; allocations are measured.",
 "C15": "the k-th allocation or thread creation fails, for every k up to the bound, once and for good.",
 "C17": "several calling threads at once; each one's history is judged by the contract as if it were alone.",
 "C16": "counters after every call, allocations against every estimate function.",
}
CLAIM = [p for p in sorted(EXTRA) if p not in sys.argv[1:]]
m = dict(version=1, setup_cmd="python3 lib/build.py",
 hooks=dict(guard="FL2_VERIF_HOOKS", enable="lib/build.py compiles /repo/*.c itself with -DFL2_VERIF_HOOKS=1 (asan, fast) or =2 (asanc, fastc, ctl: structured match tables above 5500 bytes); the real/realc builds leave it undefined",
            source_commits=["95679c7", "800f9ee", "71fdeec"]),
 checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p, evidence_file="evidence/%s.json" % p,
              technique="TLA+ contract specification; TLC validates traces of the real code (and exhaustive TLC models)", level="model_checking", level_note=EXTRA[p] + " " + NOTE) for p in CLAIM],
 not_applicable=[dict(property=p, reason="under construction") for p in sys.argv[1:]],
 notes="See DESIGN.md. replay.py <path printed in a VIOLATION line> repeats a rejected history.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); print(len(CLAIM), "checks")
