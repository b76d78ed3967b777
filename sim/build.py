#!/usr/bin/env python3
"""Builds the simulator: perl11/potion's own sources from /repo's working tree, compiled
with POTION_SIM and linked statically with the simulation runtime (sim/rt/simrt.c),
libuv and SQLite.  Output: /verif/build/<hash>/potsim (kept by content hash)."""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CORE = ("asm ast compile contrib gc internal lick mt19937ar number objmodel primitive string "
        "syntax table vm file load vm-x86 callcc").split()
LIBS = ["lib/aio", "lib/buffile", "lib/database", "lib/readline/readline", "lib/readline/linenoise"]
DEFS = ["-D_GNU_SOURCE", "-fno-strict-aliasing", "-msse2", "-DHAVE_LIBUV", "-DCGOTO",
        "-DNDEBUG", "-fno-stack-protector", "-DPOTION_SIM", "-w", "-g", "-fno-pie"]
OPT = {"O0": ["-O0"], "O3": ["-O3", "-finline"], "O0s": ["-O0", "-DPOTION_BIRTH_SIZE=(PN_SIZE_T<<15)"]}  # O0s: small generations, so collections come of themselves
WRAPS = """open open64 creat read write close stat lseek fcntl fcntl64 fstat64 lstat64 stat64 access
unlink remove mkstemp rename ftruncate64 fsync fdatasync pread64 pwrite64 mmap munmap malloc calloc realloc
fopen fseek fdopen freopen tmpfile fileno dlopen dlsym dlclose dlerror isatty tcgetattr tcsetattr ioctl
readlink mkdir rmdir getcwd geteuid getpid fchmod fchown utime nanosleep time gettimeofday
clock_gettime epoll_create1 epoll_ctl epoll_pwait eventfd socket bind listen accept4 connect shutdown
getsockname getpeername getsockopt setsockopt sendmsg recvmsg sendmmsg recvmmsg socketpair accept writev readv pipe pipe2 syscall
uv__work_submit potion_create potion_destroy""".split()

def units():
    """The compilation units: the ones known here and any the Makefile lists besides."""
    core, libs = list(CORE), list(LIBS)
    try: mk = open(os.path.join(REPO, "Makefile")).read()
    except OSError: mk = ""
    for l in mk.split("\n"):
        m = re.match(r"(SRC|PLIBS_SRC) *\+?= *(.*)", l)
        for f in (m.group(2).split() if m else ()):
            if f.endswith(".c") and not f.endswith(("vm-ppc.c", "vm-arm.c", "win32fixes.c")):
                u = f[:-2]
                if u.startswith("core/") and u[5:] not in core: core.append(u[5:])
                elif u.startswith("lib/") and u not in libs: libs.append(u)
    ok = lambda f: f == "core/syntax" or os.path.exists(os.path.join(REPO, f + ".c"))
    return [c for c in core if ok("core/" + c)], [l for l in libs if ok(l)]

def sources():
    out = []
    for d in ("core", "lib", "tools"):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".y", ".sh", ".mak", ".pn")):
                    out.append(os.path.join(r, f))
    out += [os.path.join(REPO, f) for f in ("config.mak", "Makefile", "dist.mak")]
    return out

def tree_hash():
    h = hashlib.sha256()
    for p in sources() + sorted(
            os.path.join(VERIF, "sim/rt", f) for f in os.listdir(os.path.join(VERIF, "sim/rt"))) + [os.path.abspath(__file__)]:
        if not os.path.exists(p): continue
        h.update(p.encode()); h.update(b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:20]

def run(cmd, cwd, **kw):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[-1500:]))
        raise SystemExit(3)

def build(variants=("O0", "O3")):
    os.makedirs(BUILD, exist_ok=True)
    h = tree_hash()
    d = os.path.join(BUILD, h)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        need = [v for v in variants if not os.path.exists(os.path.join(d, "potsim-" + v))]
        if not need:
            return d
        # drop old builds
        olds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if len(x) == 20), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        src = os.path.join(d, "src")
        if not os.path.exists(os.path.join(src, "core/syntax.c")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(src)
            for p in sources():
                if not os.path.exists(p): continue
                q = os.path.join(src, os.path.relpath(p, REPO))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copy2(p, q)
            os.makedirs(os.path.join(src, "bin"))
            env = dict(os.environ, LC_ALL="C", GIT_CEILING_DIRECTORIES="/")
            for k in ("CFLAGS", "LDFLAGS", "MAKEFLAGS", "DEBUG"): env.pop(k, None)
            for f in ("core/syntax.c",):
                try: os.unlink(os.path.join(src, f))
                except OSError: pass
            run(["make", "-s", "-f", "config.mak", "CC=clang", "AR=ar", "config"], src, env=env)
            g = ["clang", "-O1", "-DNDEBUG", "-w", "-Itools", "-o"]
            run(g + ["bin/greg0", "tools/greg.c", "tools/compile.c", "tools/tree.c"], src)
            run(["sh", "-c", "bin/greg0 tools/greg.y > tools/greg1.c"], src)
            run(g + ["bin/greg", "tools/greg1.c", "tools/compile.c", "tools/tree.c"], src)
            run(["sh", "-c", "bin/greg core/syntax.y > core/syntax.c.new && mv core/syntax.c.new core/syntax.c"], src)
        jobs = []
        core, libs = units()
        for v in need:
            o = os.path.join(d, "o-" + v); os.makedirs(o, exist_ok=True)
            inc = ["-Icore", "-Ilib", "-I."]
            for f in core:
                fl = ["-O0", "-fno-omit-frame-pointer"] + OPT[v][1:] if f == "callcc" else OPT[v]
                jobs.append(["clang", "-c"] + DEFS + fl + inc + ["-o", "%s/%s.o" % (o, f), "core/%s.c" % f])
            jobs.append(["clang", "-c"] + DEFS + ["-O0"] + OPT[v][1:] + ["-Dmain=potion_main"] + inc + ["-o", o + "/potion.o", "core/potion.c"])
            for f in libs:
                jobs.append(["clang", "-c"] + DEFS + OPT[v] + inc + ["-o", "%s/%s.o" % (o, os.path.basename(f) + "_lib"), f + ".c"])
            for f in sorted(os.listdir(os.path.join(VERIF, "sim/rt"))):
                if f.endswith(".c"):
                    jobs.append(["clang", "-c", "-D_GNU_SOURCE", "-DPOTION_SIM", "-fno-strict-aliasing", "-O1", "-g", "-w", "-fno-pie"] + OPT[v][1:] + [
                                 "-Icore", "-I" + os.path.join(VERIF, "sim/rt"), "-o", "%s/%s.o" % (o, "rt_" + f[:-2]),
                                 os.path.join(VERIF, "sim/rt", f)])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda c: run(c, src), jobs))
        for v in need:
            o = os.path.join(d, "o-" + v)
            objs = sorted(os.path.join(o, f) for f in os.listdir(o))
            run(["clang", "-static", "-no-pie", "-o", d + "/potsim-%s.tmp" % v] + objs +
                ["-Wl,--wrap=" + w for w in WRAPS] +
                ["-luv", "-lsqlite3", "-lm", "-lpthread", "-ldl"], src)
            os.rename(d + "/potsim-%s.tmp" % v, d + "/potsim-" + v)
            shutil.rmtree(o)
    return d

if __name__ == "__main__":
    print(build(sys.argv[1:] or ("O0", "O3")))
