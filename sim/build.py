#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree. Variants: sim, asan, gomp."""
import os, re, sys, hashlib, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(os.path.dirname(HERE), "build"))
RENAME = """malloc calloc realloc free posix_memalign aligned_alloc strdup rand srand random srandom rand_r drand48 srand48
time clock gettimeofday clock_gettime printf vprintf fprintf vfprintf puts putchar fputs fputc fwrite fflush perror
exit _exit abort __assert_fail atexit""".split()
# library globals of the sim variant go into sections of their own, so that the simulator can watch them; thread-local storage is simulated
GLOBALS = sum([["--rename-section", "%s=%s" % x] for x in ((".data", "libdata"), (".data.rel", "libdata"), (".data.rel.local", "libdata"), (".bss", "libbss"))], [])
LIBFLAGS = {
 "sim": ["clang", "-femulated-tls", "-O1", "-g", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fsanitize-coverage=trace-pc-guard", "-w"],
 "asan": ["clang", "-O1", "-g", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard", "-w"],
 "gomp": ["gcc", "-O0", "-g", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fopenmp", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-w"],
 "plain": ["gcc", "-O0", "-g", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fsanitize-coverage=trace-pc", "-w"],
}
CXX = ["clang++", "-std=gnu++17", "-O1", "-g", "-w", "-fno-omit-frame-pointer"]
def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(p); h.update(b"\0")
    return h.hexdigest()[:24]
def rd(p):
    with open(p, "rb") as f: return f.read()
def sources():
    t = rd(os.path.join(REPO, "src/CMakeLists.txt")).decode(errors="replace")
    m = re.search(r"set\s*\(\s*SOURCE_FILES\s+(.*?)\)", t, re.S)
    return [os.path.join(REPO, "src", s) for s in m.group(1).split()]
def build(variant):
    d = os.path.join(OUT, variant); os.makedirs(d, exist_ok=True)
    hdr = digest(*[rd(p) for p in sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/header/*.h"))])
    flags = LIBFLAGS[variant]; jobs = []; objs = []; keys = []
    redef = os.path.join(d, "redef.txt"); open(redef, "w").write("".join("%s sim_%s\n" % (s, s) for s in RENAME))
    def one(src):
        k = digest(rd(src), hdr, " ".join(flags), rd(redef)); o = os.path.join(d, os.path.basename(src) + "." + k + ".o")
        if not os.path.exists(o):
            t = o + ".%d.tmp.o" % os.getpid(); sh(flags + ["-I" + REPO + "/src", "-c", src, "-o", t]); sh(["objcopy", "--redefine-syms=" + redef] + (GLOBALS if variant == "sim" else []) + [t]); os.replace(t, o)
        return o, k
    hsrc = ["rt.cpp", "ops_core.cpp", "ops_model.cpp", "ops_misc.cpp", "ops_low.cpp", "ops_effect.cpp", "ref.cpp", "props.cpp", "main.cpp"]
    if variant in ("gomp", "plain"): hsrc.append("gomp.cpp")
    cxx = CXX + (["-fsanitize=address"] if variant == "asan" else [])
    hh = digest(*[rd(p) for p in sorted(glob.glob(HERE + "/*.h"))])
    def onecc(name):
        src = os.path.join(HERE, name); k = digest(rd(src), hh, hdr, " ".join(cxx)); o = os.path.join(d, name + "." + k + ".o")
        if not os.path.exists(o):
            t = o + ".%d.tmp.o" % os.getpid(); sh(cxx + ["-I" + REPO + "/src", "-I" + HERE, "-c", src, "-o", t]); os.replace(t, o)
        return o, k
    with ThreadPoolExecutor(8) as ex:
        hs = [ex.submit(onecc, n) for n in hsrc]; ls = [ex.submit(one, s) for s in sources()]
        res = [f.result() for f in hs + ls]
    objs = [o for o, _ in res]; key = digest(*[k for _, k in res])
    exe = os.path.join(d, "simctsa." + key)
    if not os.path.exists(exe):
        sh(["clang++", "-rdynamic", "-g"] + (["-fsanitize=address"] if variant == "asan" else []) + ["-o", exe + ".tmp%d" % os.getpid()] + objs + ["-lm", "-ldl", "-lpthread"])
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    keep = set(objs) | {exe, redef}
    for p in glob.glob(d + "/*"):
        if p not in keep and not p.endswith("tmp.o") and os.path.isfile(p):
            try: os.remove(p)
            except OSError: pass
    return exe
if __name__ == "__main__":
    for v in sys.argv[1:] or ["sim"]: print(build(v))
