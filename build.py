#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree.

For each library variant: every C and assembler source of /repo/src is compiled
as it is, the objects are combined, the libc names they use are redirected to
the simulator's entry points, and the result is linked with the harness.
Results are cached under /verif/build by a hash of all inputs.
"""
import hashlib, os, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

BASE = ["-Wall", "-U_FORTIFY_SOURCE", "-fno-pie", "-fno-omit-frame-pointer", "-g", "-pthread"]
TSAN = ["-fsanitize=thread", "-O1"]

def cfg(**kw):
    f = []
    for k, v in kw.items():
        f.append("-D%s" % k if v is True else "-D%s=%s" % (k, v))
    return f

COMMON = dict(CONFIG_STACK_OVERFLOW_DETECTION=1, CONFIG_MEMALLOC_SLICE_ALIGN=64, CONFIG_MEMALLOC_SLICE_MAX_SIZE=4096)
VARIANTS = {
    # the configuration the project ships, with its optimisation level, not instrumented
    "ship": (["-O3"] + cfg(ENABLE_STACK_OVERFLOW_DETECTION=True, ENABLE_MEMALLOC_SLICE=True, ENABLE_IO_SPLICE_SYSCALL=True,
             CONFIG_STACK_BACKEND="STACK_MMAP", CONFIG_MEMALLOC_SLICE_MAX_COUNT=1000, CONFIG_SCHED_CLOCK="CLOCK_NONE", **COMMON),
             "ship slice mmap splice_syscall"),
    # every memory access checked and a possible preemption point; plain allocator
    "inst": (TSAN + cfg(ENABLE_DEBUG=True, ENABLE_IO_SPLICE_SYSCALL=True, CONFIG_STACK_BACKEND="STACK_MMAP",
             CONFIG_MEMALLOC_SLICE_MAX_COUNT=1000, CONFIG_SCHED_CLOCK="CLOCK_NONE", **COMMON),
             "inst mmap splice_syscall"),
    # the other configuration choices: heap stacks, buffered splice, tiny slice cache, time based ageing
    "alt": (TSAN + cfg(ENABLE_DEBUG=True, ENABLE_MEMALLOC_SLICE=True, ENABLE_STACK_OVERFLOW_DETECTION=True, CONFIG_STACK_BACKEND="STACK_HEAP",
            CONFIG_MEMALLOC_SLICE_MAX_COUNT=3, CONFIG_SCHED_CLOCK="CLOCK_MONOTONIC", **dict(COMMON, CONFIG_STACK_OVERFLOW_DETECTION=2)),
            "inst slice heap splice_buffer sched_clock"),
}
def rename_sections(lib):
    """Writable data is reset for every run; constructors run inside the simulation."""
    r = []
    for l in run(["objdump", "-h", "-w", lib]).splitlines():
        w = l.split()
        if len(w) < 7 or not w[0].isdigit():
            continue
        for pre, to in ((".data", "hevdata"), (".bss", "hevbss"), (".init_array", "hevinit"), (".fini_array", "hevfini")):
            if (w[1] == pre or w[1].startswith(pre + ".")) and not w[1].startswith(".data.rel.ro"):
                r += ["--rename-section", "%s=%s" % (w[1], to)]
    return r
# libc spellings of the same call
ALIAS = {"open64": "open", "__open_2": "open", "__open64_2": "open", "openat64": "openat", "__openat_2": "openat",
         "__openat64_2": "openat", "fcntl64": "fcntl", "mmap64": "mmap", "creat64": "creat", "__poll_chk": "poll",
         "__read_chk": "read", "__recv_chk": "recv", "__recvfrom_chk": "recvfrom", "pread64": "pread", "memalign": "aligned_alloc",
         "_exit": "exit", "quick_exit": "exit", "__chk_fail": "__stack_chk_fail", "__strdup": "strdup"}

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:20]

def tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def prune(keep):
    # keep the cache small
    ents = sorted((os.path.join(BUILD, e) for e in os.listdir(BUILD) if e not in keep and not e.startswith(".")),
                  key=lambda p: os.path.getmtime(p))
    for e in ents[:-12]:
        shutil.rmtree(e, ignore_errors=True)

def harness(pool):
    srcs = tree(os.path.join(VERIF, "sim"), (".cc", ".c"))
    hdrs = tree(os.path.join(VERIF, "sim"), (".h",))
    # the public headers of the library are part of what the scenarios see
    pub = tree(os.path.join(REPO, "include"), (".h",))
    flags = ["-std=c++17", "-O1", "-g", "-Wall", "-Wextra", "-Wno-unused-parameter", "-U_FORTIFY_SOURCE", "-fno-pie",
             "-fno-stack-protector", "-fno-omit-frame-pointer", "-pthread",
             "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "sim")]
    common = h(*([open(f, "rb").read() for f in hdrs + pub] + flags))
    objs, jobs = [], []
    od = os.path.join(BUILD, "obj")
    os.makedirs(od, exist_ok=True)
    def one(s, o):
        run((["g++"] + flags if s.endswith(".cc") else ["gcc", "-Wno-stringop-overflow"] + flags[1:]) + ["-c", s, "-o", o + ".tmp%d" % os.getpid()])
        os.replace(o + ".tmp%d" % os.getpid(), o)
    for s in srcs:
        k = h(open(s, "rb").read(), common)
        o = os.path.join(od, os.path.basename(s).rsplit(".", 1)[0] + "-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(pool.submit(one, s, o))
        else:
            os.utime(o)
    for j in jobs:
        j.result()
    old = sorted((os.path.join(od, f) for f in os.listdir(od)), key=os.path.getmtime)
    for f in old[:-150]:
        os.unlink(f)
    return objs

def library(name, pool):
    flags, feat = VARIANTS[name]
    files = tree(os.path.join(REPO, "src"), (".c", ".S"))
    dep = tree(os.path.join(REPO, "src"), (".c", ".S", ".s", ".h")) + tree(os.path.join(REPO, "include"), (".h",))
    fl = BASE + flags + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    key = h(*([f.encode() + b"\0" + open(f, "rb").read() for f in dep] + fl))
    d = os.path.join(BUILD, "lib-%s-%s" % (name, key))
    out = os.path.join(d, "lib.o")
    if os.path.exists(out):
        os.utime(d)
        return out, key, feat
    t = d + ".tmp%d" % os.getpid()
    os.makedirs(t, exist_ok=True)
    def one(i, f):
        o = os.path.join(t, "%d.o" % i)
        run(["gcc"] + fl + ["-c", f, "-o", o])
        return o
    objs = [j.result() for j in [pool.submit(one, i, f) for i, f in enumerate(files)]]
    run(["ld", "-r", "-o", os.path.join(t, "all.o")] + objs)
    for o in objs:
        os.unlink(o)
    os.makedirs(d, exist_ok=True)
    os.replace(os.path.join(t, "all.o"), out)
    os.rmdir(t)
    return out, key, feat

def sim_symbols(objs):
    s = set()
    for l in run(["nm", "--defined-only"] + objs).splitlines():
        p = l.split()
        if len(p) == 3 and p[1] == "T" and p[2].startswith("sim_"):
            s.add(p[2])
    return s

def build(names=None, quiet=True):
    """returns {variant: path of simulator binary}"""
    names = names or list(VARIANTS)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(8) as pool, ThreadPoolExecutor(4) as outer:
            hf = outer.submit(harness, pool)
            lf = {n: outer.submit(library, n, pool) for n in names}
            objs = hf.result()
            libs = {n: f.result() for n, f in lf.items()}
            syms = sim_symbols(objs)
            res = {}
            def link(n):
                lib, key, feat = libs[n]
                d = os.path.join(BUILD, "bin-%s-%s" % (n, h(key, *objs)))
                exe = os.path.join(d, "sim-" + n)
                if os.path.exists(exe):
                    os.utime(d)
                    return exe
                os.makedirs(d, exist_ok=True)
                und = [l.split()[-1] for l in run(["nm", "-u", lib]).splitlines() if l.strip()]
                mp = os.path.join(d, "map")
                with open(mp, "w") as f:
                    for u in und:
                        b = ALIAS.get(u, u)
                        if "sim_" + b in syms:
                            f.write("%s sim_%s\n" % (u, b))
                ren = os.path.join(d, "lib.o")
                run(["objcopy", "--redefine-syms=" + mp] + rename_sections(lib) + [lib, ren])
                vc = os.path.join(d, "v.c")
                with open(vc, "w") as f:
                    f.write('const char *sim_variant_name = "%s", *sim_variant_features = "%s";\n' % (n, feat))
                    f.write('char sim_dummy_data[8] __attribute__((section("hevdata"))) = {1};\n')
                run(["gcc", "-fno-pie", "-c", vc, "-o", os.path.join(d, "v.o")])
                run(["g++", "-no-pie", "-pthread", "-o", exe + ".tmp"] + objs + [ren, os.path.join(d, "v.o")])
                os.unlink(ren)
                os.replace(exe + ".tmp", exe)
                return exe
            for n, f in [(n, pool.submit(link, n)) for n in names]:
                res[n] = f.result()
        prune({"obj"})
    return res

if __name__ == "__main__":
    try:
        for n, p in build(sys.argv[1:] or None).items():
            print(n, p)
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
