"""Out-of-tree builds of /repo's working tree with instrumentation."""
import hashlib, os, re, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("UMF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8
ATOMICS = os.path.join(VERIF, "harness", "atomics.h")

INC = ["include", "src/utils", "src/base_alloc", "src/coarse", "src", "src/ravl",
       "src/critnib", "src/provider", "src/memspaces", "src/memtargets",
       "src/uthash", "src/ctl", "src/pool"]
DEFS = ['-DUMF_ALL_CMAKE_VARIABLES="VERIF"', "-DUMF_NO_CUDA_PROVIDER=1",
        "-DUMF_VERSION=0.0.0.verif", "-DUMF_SHARED_LIBRARY"]

COMMON = ["-g", "-fPIC", "-fno-omit-frame-pointer", "-Wno-everything"]
UB = "-fsanitize=undefined"
VARIANTS = {
    # name: (cc, cxx, compile flags for the library, compile flags harness, link flags)
    "asan": ("-O1 -fsanitize=address,undefined -fno-sanitize=function,vptr -fno-sanitize-recover=all",
             "-O1 -fsanitize=address -fno-omit-frame-pointer", "-fsanitize=address,undefined"),
    "ubsan": ("-O1 -fsanitize=undefined -fno-sanitize=function,vptr -fno-sanitize-recover=all",
              "-O1", "-fsanitize=undefined"),
    "plain": ("-O1", "-O1", ""),
    "tsan": ("-O1 -fsanitize=thread", "-O1 -fsanitize=thread", "-fsanitize=thread"),
    # every load/store/basic block of the library is a scheduling point
    "sched": ("-O1 -fsanitize=address -fsanitize-coverage=bb,trace-pc-guard,trace-loads,trace-stores,no-prune",
              "-O1 -fsanitize=address", "-fsanitize=address"),
    # real threads with delays injected at basic blocks of the library
    "tsand": ("-O1 -fsanitize=thread -fsanitize-coverage=bb,trace-pc-guard", "-O1 -fsanitize=thread", "-fsanitize=thread"),
    "asand": ("-O1 -fsanitize=address,undefined -fno-sanitize=function,vptr -fno-sanitize-recover=all -fsanitize-coverage=bb,trace-pc-guard",
              "-O1 -fsanitize=address -fno-omit-frame-pointer", "-fsanitize=address,undefined"),
    "cov": ("-O1 -fprofile-instr-generate -fcoverage-mapping", "-O1", "-fprofile-instr-generate"),
}

class BuildError(Exception):
    pass

def lib_sources():
    out = []
    for pat in ("src/*.c", "src/*/*.c", "src/*/*.cpp", "src/*.cpp"):
        out += glob.glob(os.path.join(REPO, pat))
    out = [f for f in out if "windows" not in os.path.basename(f)
           and "macosx" not in os.path.basename(f)
           and "/proxy_lib/" not in f and "utils_level_zero" not in f]
    return sorted(out)

def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "include"):
        for d, dn, fs in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".cpp", ".hpp", ".map", ".in")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def header_hash():
    h = hashlib.sha256()
    for root in ("src", "include"):
        for d, dn, fs in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".in")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def inc_flags():
    return ["-I" + os.path.join(REPO, i) for i in INC] + ["-I/usr/include/level_zero"]

def _compile(job):
    cmd, obj = job
    run(cmd)
    return obj

def build_lib(variant):
    """compile every library source for the variant; returns list of objects"""
    libflags, _, _ = VARIANTS[variant]
    key = hashlib.sha256((tree_hash() + libflags + " ".join(DEFS + COMMON) + open(ATOMICS).read()).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, variant, "lib")
    os.makedirs(d, exist_ok=True)
    stamp = os.path.join(d, "stamp")
    srcs = lib_sources()
    objs = [os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o") for s in srcs]
    if os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(o) for o in objs):
        return objs, key
    if os.path.exists(stamp):
        os.unlink(stamp)
    jobs = []
    hh = header_hash() + open(ATOMICS).read()
    inc_c = any(re.search(rb'#\s*include\s*"[^"]*\.c"', open(s, "rb").read()) for s in srcs)
    for s, o in zip(srcs, objs):
        cc = ["clang", "-std=gnu11"] if s.endswith(".c") else ["clang++", "-std=c++17"]
        pre = ["-include", ATOMICS] if variant in ("sched", "tsand", "asand") and s.endswith(".c") else []
        cmd = cc + libflags.split() + COMMON + DEFS + inc_flags() + pre + ["-c", s, "-o", o]
        ok = hashlib.sha256(repr((hh, cmd, key if inc_c else "")).encode() + open(s, "rb").read()).hexdigest()[:16]
        ost = o + ".stamp"
        if os.path.exists(o) and os.path.exists(ost) and open(ost).read() == ok:
            continue
        if os.path.exists(ost):
            os.unlink(ost)
        jobs.append((cmd, o, ok))
    def comp(j):
        run(j[0])
        with open(j[1] + ".stamp", "w") as f:
            f.write(j[2])
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(comp, jobs))
    with open(stamp, "w") as f:
        f.write(key)
    return objs, key

def build_harness(variant, name, srcs, wraps=(), extra_ld=(), defs=()):
    """build one harness executable against the instrumented library"""
    os.makedirs(os.path.join(BUILD, variant), exist_ok=True)
    objs, libkey = build_lib(variant)
    vlib, hflags, lflags = VARIANTS[variant]
    exe = os.path.join(BUILD, variant, name)
    h = hashlib.sha256()
    hd = os.path.join(VERIF, "harness")
    cuda, swapped = [], []
    # sources the repository's own build leaves out here, instead of their stubs, against the
    # declarations of a stand-in library
    for flag, src, inc, sdefs in (("-DWITH_CUDA", "src/provider/provider_cuda.c", "cuda", [d for d in DEFS if "NO_CUDA" not in d]),
                                  ("-DWITH_JE", "src/pool/pool_jemalloc.c", "jemalloc", DEFS + ["-DUMF_POOL_JEMALLOC_ENABLED=1"])):
        if flag not in defs:
            continue
        for root, _, fs in sorted(os.walk(os.path.join(hd, inc))):
            for f in sorted(fs):
                h.update(open(os.path.join(root, f), "rb").read())
        cuda = ["-I" + os.path.join(hd, inc)]
        stub = os.path.join(BUILD, variant, "lib", src.replace("/", "_") + ".o")
        real = exe + "." + os.path.basename(src) + ".o"
        objs = [real if o == stub else o for o in objs]
        assert real in objs
        swapped.append((src, real, sdefs))
    for f in sorted(os.listdir(hd)):
        if f.endswith((".hpp", ".h")):
            h.update(open(os.path.join(hd, f), "rb").read())
    for s in srcs:
        h.update(open(os.path.join(hd, s), "rb").read())
    h.update(repr((libkey, hflags, lflags, tuple(wraps), tuple(extra_ld), tuple(defs))).encode())
    key = h.hexdigest()[:16]
    st = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(st) and open(st).read() == key:
        return exe
    jobs = []
    hobjs = []
    for s in srcs:
        o = exe + "." + s.replace("/", "_") + ".o"
        hobjs.append(o)
        cc = ["clang", "-std=gnu11"] if s.endswith(".c") else ["clang++", "-std=c++17"]
        jobs.append((cc + hflags.split() + ["-g", "-fPIC", "-Wno-everything", "-DVARIANT_" + variant.upper()]
                     + list(defs) + DEFS + inc_flags() + cuda + ["-I" + hd, "-c", os.path.join(hd, s), "-o", o], o))
    for src, real, sdefs in swapped:
        jobs.append((["clang", "-std=gnu11"] + vlib.split() + COMMON + sdefs + inc_flags() + cuda
                     + ["-c", os.path.join(REPO, src), "-o", real], real))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(_compile, jobs))
    cmd = ["clang++"] + lflags.split() + hobjs + objs + ["-Wl,--wrap=" + w for w in wraps] + list(extra_ld) + \
          ["-rdynamic", "-lhwloc", "-ldl", "-lrt", "-lpthread", "-o", exe]
    run(cmd)
    with open(st, "w") as f:
        f.write(key)
    return exe

def build_shared(variant_flags, outdir):
    """real shared library libumf.so.0 (+ proxy) for LD_PRELOAD / dlopen workloads"""
    os.makedirs(outdir, exist_ok=True)
    key = hashlib.sha256((tree_hash() + variant_flags).encode()).hexdigest()[:16]
    st = os.path.join(outdir, "stamp")
    so = os.path.join(outdir, "libumf.so.0")
    px = os.path.join(outdir, "libumf_proxy.so.0")
    if os.path.exists(st) and open(st).read() == key and os.path.exists(so) and os.path.exists(px):
        return so, px
    srcs = lib_sources()
    pxs = [os.path.join(REPO, "src/proxy_lib", f) for f in sorted(os.listdir(os.path.join(REPO, "src/proxy_lib")))
           if f.endswith(".c") and "windows" not in f]
    pxcommon = [s for s in srcs if "/base_alloc/" in s or ("/utils/" in s and s.endswith(".c"))]
    jobs, objs, pobjs = [], [], []
    for s in srcs:
        o = os.path.join(outdir, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        cc = ["clang", "-std=gnu11"] if s.endswith(".c") else ["clang++", "-std=c++17"]
        jobs.append((cc + variant_flags.split() + COMMON + DEFS + ["-Dumf_EXPORTS"] + inc_flags() + ["-c", s, "-o", o], o)); objs.append(o)
    for s in pxs + pxcommon:
        o = os.path.join(outdir, "px_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
        jobs.append((["clang", "-std=gnu11"] + variant_flags.split() + COMMON + DEFS +
                     ["-DPROXY_LIB_USES_SCALABLE_POOL=1", "-Dumf_proxy_EXPORTS", "-I" + os.path.join(REPO, "src/proxy_lib")]
                     + inc_flags() + ["-c", s, "-o", o], o)); pobjs.append(o)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(_compile, jobs))
    run(["clang", "-shared", "-fPIC"] + variant_flags.split() + ["-Wl,--version-script=" + REPO + "/src/libumf.map", "-Wl,-z,relro,-z,now",
         "-Wl,-soname,libumf.so.0", "-o", so] + objs + ["-lhwloc", "-ldl", "-lrt"])
    run(["clang", "-shared", "-fPIC"] + variant_flags.split() + ["-Wl,--version-script=" + REPO + "/src/proxy_lib/proxy_lib.map",
         "-Wl,-z,relro,-z,now", "-Wl,-soname,libumf_proxy.so.0", "-Wl,-rpath," + outdir, "-o", px] + pobjs + [so, "-ldl", "-lrt"])
    with open(st, "w") as f:
        f.write(key)
    return so, px

PXNAMES = ["malloc", "calloc", "realloc", "free", "aligned_alloc", "malloc_usable_size"]
def build_pxmod(variant):
    """the proxy library with its entry points renamed (px_malloc, ...), to be opened by an instrumented harness"""
    libflags, _, _ = VARIANTS[variant]
    outdir = os.path.join(BUILD, variant, "pxmod")
    os.makedirs(outdir, exist_ok=True)
    shim = os.path.join(VERIF, "harness", "c21_shim.c")
    key = hashlib.sha256((tree_hash() + libflags + open(shim).read()).encode()).hexdigest()[:16]
    so = os.path.join(outdir, "pxmod.so")
    st = os.path.join(outdir, "stamp")
    if os.path.exists(so) and os.path.exists(st) and open(st).read() == key:
        return so
    srcs = lib_sources()
    pxs = [os.path.join(REPO, "src/proxy_lib", f) for f in sorted(os.listdir(os.path.join(REPO, "src/proxy_lib")))
           if f.endswith(".c") and "windows" not in f]
    common = [s for s in srcs if "/base_alloc/" in s or ("/utils/" in s and s.endswith(".c"))]
    jobs, objs = [], []
    for s in pxs + common + [shim]:
        o = os.path.join(outdir, os.path.basename(s) + ".o")
        ren = ["-D%s=px_%s" % (n, n) for n in PXNAMES] + ["-fno-builtin"] if s in pxs else []
        jobs.append((["clang", "-std=gnu11"] + libflags.split() + COMMON + DEFS + ren +
                     ["-DPROXY_LIB_USES_SCALABLE_POOL=1", "-Dumf_proxy_EXPORTS", "-I" + os.path.join(REPO, "src/proxy_lib")]
                     + inc_flags() + ["-c", s, "-o", o], o)); objs.append(o)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(_compile, jobs))
    vs = os.path.join(outdir, "map")
    with open(vs, "w") as f:
        f.write("{ global: px_*; local: *; };\n")
    san = [x for x in libflags.split() if x.startswith("-fsanitize=")]
    run(["clang", "-shared", "-fPIC"] + san + ["-Wl,--version-script=" + vs, "-Wl,--wrap=dlsym", "-o", so] + objs + ["-ldl", "-lrt"])
    with open(st, "w") as f:
        f.write(key)
    return so

def build_program(name, srcs, flags, shared=False):
    """an uninstrumented program (or library) of the harness directory, to run under the proxy library"""
    outdir = os.path.join(BUILD, "shared")
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, name)
    paths = [os.path.join(VERIF, "harness", s) for s in srcs]
    h = hashlib.sha256(("".join(open(p).read() for p in paths) + repr(flags)).encode()).hexdigest()[:16]
    st = out + ".stamp"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h:
        return out
    run(["clang++", "-std=c++17", "-O1", "-g", "-fno-builtin"] + (["-shared", "-fPIC"] if shared else []) + list(flags)
        + inc_flags() + paths + ["-ldl", "-lpthread", "-o", out])
    with open(st, "w") as f:
        f.write(h)
    return out

if __name__ == "__main__":
    import time
    for v in sys.argv[1:]:
        t = time.time(); o, k = build_lib(v); print(v, len(o), k, "%.1fs" % (time.time() - t))
