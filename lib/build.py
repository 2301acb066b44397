"""Builds the harness programs from the current working tree of /repo into /verif/build (git-ignored)."""
import hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
H = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
HOOK = "-DFL2_VERIF_HOOKS=1"
HOOK2 = "-DFL2_VERIF_HOOKS=2"   # structured match tables above 5500 bytes
ASM = "-DLZMA2_DEC_OPT"
BASE = ["-D_FILE_OFFSET_BITS=64", "-pthread", "-std=gnu99", "-w", "-I", REPO, "-I", H]
LIBSKIP = {"util.c"}  # kept: fl2_threading uses UTIL_countPhysicalCores
VARIANTS = {
  # name: (cflags for library, harness flags, link flags, use asm, ctl)
  "asan":  (["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", HOOK, ASM], ["-O1", "-g", "-fsanitize=address", HOOK], ["-fsanitize=address"], True, False),
  "asanc": (["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", HOOK2], ["-O1", "-g", "-fsanitize=address", HOOK2], ["-fsanitize=address"], False, False),
  "fast":  (["-O2", "-g", HOOK, ASM], ["-O2", "-g", HOOK], [], True, False),
  "fastc": (["-O2", "-g", HOOK2], ["-O2", "-g", HOOK2], [], False, False),
  "real":  (["-O3", "-g", ASM], ["-O2", "-g"], [], True, False),
  "realc": (["-O3", "-g"], ["-O2", "-g"], [], False, False),
  "ctl":   (["-O1", "-g", HOOK2], ["-O2", "-g", HOOK2, "-DRT_CTL"], [], False, True),
}
# instrumented for the controlled scheduler: control code everywhere, the codec where threads share (rt_ctl.c)
CTL_PLAIN = {"lzma2_dec.c", "range_enc.c", "xxhash.c", "fl2_common.c"}
CTL_CODEC = {"radix_struct.c", "radix_bitpack.c", "lzma2_enc.c"}

def sources():
    return sorted(f for f in os.listdir(REPO) if f.endswith(".c"))

def tree_key():
    h = hashlib.sha256()
    for d in (REPO, H):
        for f in sorted(os.listdir(d)):
            if f.endswith((".c", ".h", ".S")):
                h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:16]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout + "\n")
        raise SystemExit(2)

def build(variants=None, programs=("vh",)):
    """returns {variant: {program: path}}"""
    variants = variants or list(VARIANTS)
    key = tree_key()
    out, jobs, renames, links = {}, [], [], []
    for v in variants:
        cf, hf, lf, asm, ctl = VARIANTS[v]
        d = os.path.join(BUILD, key, v)
        out[v] = {p: os.path.join(d, p) for p in programs}
        if all(os.path.exists(x) for x in out[v].values()): continue
        os.makedirs(d, exist_ok=True)
        objs = []
        for s in sources():
            o = os.path.join(d, s[:-2] + ".o"); objs.append(o)
            fl = list(cf)
            if ctl and s not in CTL_PLAIN: fl += ["-fsanitize=thread"]
            if ctl and s in CTL_CODEC:   # __tsan_* to __vhc_*
                renames.append(["sh", "-c", "nm -u '%s' | sed -n 's/^ *U __tsan_\\(.*\\)/__tsan_\\1 __vhc_\\1/p' >'%s.syms' && objcopy --redefine-syms='%s.syms' '%s'" % (o, o, o, o)])
            jobs.append(["gcc", *BASE, *fl, "-include", os.path.join(H, "vh_inject.h"), "-c", os.path.join(REPO, s), "-o", o])
        if asm:
            o = os.path.join(d, "lzma_dec_x86_64.o"); objs.append(o)
            jobs.append(["gcc", "-DLZMA2_DEC_OPT", "-DMS_x64_CALL=0", "-c", os.path.join(REPO, "lzma_dec_x86_64.S"), "-o", o])
        hs = ["vh_rt.c", "refdec.c"] + (["rt_ctl.c"] if ctl else [])
        hob = []
        for s in hs:
            o = os.path.join(d, "h_" + s[:-2] + ".o"); hob.append(o)
            jobs.append(["gcc", *BASE, *hf, "-Wno-builtin-declaration-mismatch", "-c", os.path.join(H, s), "-o", o])
        for p in programs:
            o = os.path.join(d, "m_" + p + ".o")
            jobs.append(["gcc", *BASE, *hf, "-c", os.path.join(H, p + ".c"), "-o", o])
            links.append(["gcc", o, *hob, *objs, *lf, "-pthread", "-lm", "-z", "noexecstack", "-o", os.path.join(d, p)])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs)); list(ex.map(run, renames)); list(ex.map(run, links))
    # keep at most two trees of builds
    if os.path.isdir(BUILD):
        ks = sorted((k for k in os.listdir(BUILD) if len(k) == 16), key=lambda k: os.path.getmtime(os.path.join(BUILD, k)))
        for k in ks[:-3]:
            if k != key: subprocess.run(["rm", "-rf", os.path.join(BUILD, k)])
    return out

if __name__ == "__main__":
    import time
    t = time.time(); print(build(sys.argv[1:] or None)); print("%.1fs" % (time.time() - t))
