#!/usr/bin/env python3
"""Builds one simulation binary from /repo's current working tree.

Objects are cached under /verif/build by a hash of the compiler command and the
preprocessor-visible inputs (all headers of /repo/src and /verif/sim), so a check
always sees the present tree and never rebuilds what did not change."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("CESIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("CESIM_BUILD", os.path.join(os.path.dirname(HERE), "build"))
LIB = ["util", "fst", "matrix", "pcm_reader", "decoder", "srfft", "fbank", "strlcpy", "cmvn", "nnet", "am",
       "vector", "symbol_table", "ce_stt", "hashtable", "configuration"]
FST = ["compat", "flags", "fst", "mapped-file", "properties", "symbol-table", "symbol-table-ops", "util", "weight"]
CORE = ["core.cc", "seams.cc", "sched.cc", "sub.cc"]
MATH = ["vector", "matrix", "util", "strlcpy"]
API = ["api.cc", "model.cc", "warm_blas.cc"]
# binary -> harness sources, first-party library sources, other parts of the repository
BIN = {
    "e2e": (API + ["props/utt.cc"], LIB, ["fst", "gemm"]),
    "hist": (API + ["props/hist.cc"], LIB, ["fst", "gemm"]),
    "load": (API + ["props/load.cc", "props/res.cc"], LIB, ["fst", "gemm"]),
    "conc": (API + ["props/conc.cc"], LIB, ["fst", "gemm", "fine"]),
    "cli": (API + ["props/cli.cc"], LIB, ["fst", "gemm", "main"]),
    "pool": (API + ["props/pool.cc"], LIB, ["fst", "gemm"]),
    "fbank": (["props/fbank.cc", "model.cc"], ["fbank", "srfft"] + MATH, ["gemm"]),
    "am": (["props/am.cc", "model.cc", "warm_blas.cc"], ["am", "nnet", "configuration"] + MATH, ["gemm"]),
    "lm": (["props/lm.cc", "model.cc"], ["fst", "symbol_table"] + MATH, ["gemm"]),
    "hash": (["props/hash.cc"], ["hashtable"], []),
    "gemm": (["props/gemm.cc"], [], ["gemm", "fine"]),
    "conv": (["props/conv.cc", "model.cc", "warm_blas.cc"], ["am", "nnet", "configuration", "fst", "symbol_table"] + MATH, ["gemm", "tools"]),
}
WRAP = """malloc calloc realloc free posix_memalign aligned_alloc fopen fopen64 fileno open open64 close read pread access
stat time clock gettimeofday clock_gettime rand random srand pthread_create pthread_join pthread_detach pthread_mutex_init
pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy
pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_once nanosleep clock_nanosleep
usleep sched_yield __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
__asan_memcpy __asan_memmove __asan_memset""".split()
CXX = "clang++"
COMMON = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize-address-use-after-return=never", "-w"]
SUT0 = COMMON + ["-std=c++11", "-O2"]
HAR = COMMON + ["-std=c++14", "-O2"]
# The simulator's own hot paths and the reference models: not under AddressSanitizer
PLAIN = ("sched.cc", "model.cc")
INC = ["-I" + REPO + "/src", "-I" + REPO + "/src/openfst/include", "-I" + REPO + "/src/gemmlowp"]


def headers_hash():
    h = hashlib.sha256()
    fs = []
    for root in (REPO + "/src", HERE):
        for d, _, names in os.walk(root):
            for n in names:
                if n.endswith((".h", ".hpp", ".inc")):
                    fs.append(os.path.join(d, n))
    for f in sorted(fs):
        h.update(f.encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()


# the interpreter of the converters: one that has numpy
PYTHON = next((p for p in ("/opt/veriftools/pyvenv/bin/python", "/usr/local/bin/python3-vt") if os.path.exists(p)), "/usr/bin/python3")


def stub_path():
    # started without site (-S), which costs more than a whole conversion
    np = glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")
    return ":".join([os.path.join(HERE, "conv/stub")] + np)


def shim():
    """The I/O seam of a converter process, a preloaded library."""
    src = os.path.join(HERE, "conv/shim.c")
    with open(src, "rb") as fp:
        so = os.path.join(OUT, "shim-%s.so" % hashlib.sha256(fp.read()).hexdigest()[:24])
    if not os.path.exists(so):
        tmp = so + ".%d.tmp" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise RuntimeError("shim: " + r.stdout.decode(errors="replace"))
        os.rename(tmp, so)
    return so


def build(name, verbose=False):
    os.makedirs(OUT, exist_ok=True)
    hh = headers_hash()
    srcs, libs, parts = BIN[name]
    jobs = []  # (source, flags)
    # "fine": every load and store is a scheduling point, not only every basic block
    SUT = SUT0 + (["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"] if "fine" in parts else ["-fsanitize-coverage=trace-pc-guard"])
    # what a converter process is run with
    tools = ["-DCESIM_%s=\"%s\"" % d for d in (("SHIM", shim()), ("STUB", stub_path()),
             ("TOOLS", REPO + "/tool"), ("PYTHON", PYTHON))] if "tools" in parts else []
    for f in CORE + srcs:
        jobs.append((os.path.join(HERE, f), [x for x in HAR if f not in PLAIN or not x.startswith("-fsanitize")] + INC + (tools if f == "props/conv.cc" else [])))
    for f in libs:
        jobs.append((REPO + "/src/%s.cc" % f, SUT + INC))
    if "fst" in parts:
        for f in FST:
            jobs.append((REPO + "/src/openfst/lib/%s.cc" % f, SUT + INC))
    if "gemm" in parts:
        jobs.append((REPO + "/src/gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc", SUT + INC))
    if "main" in parts:
        jobs.append((REPO + "/src/main.cc", SUT + INC + ["-Dmain=cesim_cli_main"]))

    def compile_one(job):
        src, flags = job
        h = hashlib.sha256()
        h.update(hh.encode())
        h.update(" ".join([CXX] + flags + [src]).encode())
        with open(src, "rb") as fp:
            h.update(fp.read())
        obj = os.path.join(OUT, os.path.basename(src).replace(".cc", "") + "-" + h.hexdigest()[:24] + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                return None, src + ":\n" + r.stdout.decode(errors="replace")
            os.rename(tmp, obj)
        return obj, ""

    # slow sources first
    jobs.sort(key=lambda j: -sum(k in j[0] for k in ("ce_stt", "decoder", "fst", "gemm", "props")))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, jobs))
    bad = [e for o, e in res if o is None]
    if bad:
        raise RuntimeError("compile failed\n" + "\n".join(bad)[:8000])
    # code under test first: where both have a copy of a template, the instrumented one is linked
    objs = [o for (o, _), j in sorted(zip(res, jobs), key=lambda x: x[1][0].startswith(HERE))]
    h = hashlib.sha256((" ".join(sorted(objs)) + "v1" + " ".join(WRAP)).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "sim-%s-%s" % (name, h))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        libs = ["-lopenblas"] if "matrix" in libs else []
        cmd = [CXX, "-fsanitize=address", "-static-libstdc++", "-pthread", "-o", tmp] + objs + \
              ["-Wl,--wrap=" + w for w in WRAP] + libs + ["-lm"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            # a component that has come to use further parts of the library: link all of it
            more = [REPO + "/src/%s.cc" % f for f in LIB] + [REPO + "/src/openfst/lib/%s.cc" % f for f in FST] + \
                   [REPO + "/src/gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc"]
            have = set(j[0] for j in jobs)
            with ThreadPoolExecutor(8) as ex:
                extra = [o for o, _ in ex.map(compile_one, [(f, SUT + INC) for f in more if f not in have]) if o]
            lib = tmp + ".a"
            subprocess.run(["ar", "rcs", lib] + extra, check=True)
            at = cmd.index("-Wl,--wrap=" + WRAP[0])
            cmd = cmd[:at] + [lib] + cmd[at:] + ([] if libs else ["-lopenblas"])
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            os.unlink(lib)
        if r.returncode != 0:
            raise RuntimeError("link failed\n" + r.stdout.decode(errors="replace")[:8000])
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    from table import TABLE
    for n in (sys.argv[1:] or sorted(set(t["bin"] for t in TABLE.values()))):
        print(build(n))
