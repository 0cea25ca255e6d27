#!/usr/bin/env python3
"""Builds the explorer for a variant (fast, asan) from /repo's current sources."""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

SYSCALLS = """read write readv writev posix_openpt getpt pipe pipe2 socketpair fork vfork close epoll_create epoll_create1
epoll_ctl epoll_wait epoll_pwait ioctl tcgetattr tcsetattr dup dup2 dup3 setsid sigprocmask pthread_sigmask signal sigaction grantpt
unlockpt ptsname ptsname_r open open64 fcntl fcntl64 exit _exit poll kill waitpid __errno_dummy""".split()
ALLOC = "malloc calloc realloc free strdup strndup reallocarray".split()

COMMON = ["-std=gnu99", "-D_GNU_SOURCE", "-D_POSIX_C_SOURCE=199309L", "-DNDEBUG", "-DTSM_VERIF_HOOKS",
          "-fno-strict-aliasing", "-fno-pie", "-fno-pic", "-fno-common", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
          "-fno-stack-protector", "-ffunction-sections", "-w", "-g1"]
FAST = ["gcc", "-O2"]
ASAN = ["clang", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow,function",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fsanitize-address-use-after-return=never",
        "-mllvm", "-asan-globals=0"]
CXX = ["g++", "-std=c++17", "-O2", "-fno-pie", "-Wall", "-Wno-unused-result", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def digest(paths, *extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(repr(e).encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for d in ("src/tsm", "src/shared", "external"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files if f.endswith((".c", ".h", ".sym", ".in"))]
    return out


def lib_sources():
    s = sorted(glob.glob(REPO + "/src/tsm/*.c")) + sorted(glob.glob(REPO + "/src/shared/*.c"))
    return s + [f for f in sorted(glob.glob(REPO + "/external/wcwidth/*.c")) if not os.path.basename(f).startswith("test")]


def config_header():
    os.makedirs(BUILD, exist_ok=True)
    p = os.path.join(BUILD, "vfconfig.h")
    text = "#define BUILD_HAVE_XKBCOMMON 1\n"
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    return p


def includes():
    return ["-include", config_header(), "-I" + REPO + "/src/tsm", "-I" + REPO + "/src/shared", "-I" + REPO + "/external",
            "-I" + REPO + "/external/wcwidth", "-I" + VERIF + "/src"]


def build_lib(variant, pool):
    src = lib_sources() + [VERIF + "/src/shim.c"]
    key = digest(repo_files() + [VERIF + "/src/shim.c", VERIF + "/src/shim.h"], variant, src, FAST, ASAN, COMMON, SYSCALLS, ALLOC, 2)
    out = os.path.join(BUILD, "lib-%s-%s.o" % (variant, key))
    if os.path.exists(out):
        return out
    d = os.path.join(BUILD, "tmp-%s-%s-%d" % (variant, key, os.getpid()))
    os.makedirs(d, exist_ok=True)
    cc = FAST if variant == "fast" else ASAN
    objs, jobs = [], []
    for i, s in enumerate(src):
        o = os.path.join(d, "%d-%s.o" % (i, os.path.basename(s)))
        objs.append(o)
        jobs.append(pool.submit(sh, cc + COMMON + includes() + ["-c", s, "-o", o]))
    for j in jobs:
        j.result()
    tmp = os.path.join(d, "lib.o")
    sh(["ld", "-r", "-o", tmp] + objs)
    args = ["objcopy"]
    for n in ALLOC:
        args += ["--redefine-sym", "%s=vf_%s" % (n, n)]
    for n in SYSCALLS:
        args += ["--redefine-sym", "%s=vfs_%s" % (n, n)]
    args += ["--rename-section", ".data=vfdata,alloc,load,data,contents",
             "--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section", ".bss=vfbss,alloc,load,data,contents", tmp]
    sh(args)
    os.replace(tmp, out)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    return out


def harness_objs(pool):
    files = sorted(glob.glob(VERIF + "/src/*.cpp"))
    deps = glob.glob(VERIF + "/src/*.h") + glob.glob(VERIF + "/src/*.hpp") + glob.glob(VERIF + "/src/*.inc") + [REPO + "/src/tsm/libtsm.h"]
    objs, jobs = [], []
    for s in files:
        key = digest([s] + deps, CXX)
        o = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(s), key))
        objs.append(o)
        if not os.path.exists(o):
            t = o + ".%d.tmp" % os.getpid()
            jobs.append((pool.submit(sh, CXX + includes()[2:] + ["-c", s, "-o", t]), t, o))
    for j, t, o in jobs:
        j.result()
        os.replace(t, o)
    return objs


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        hj = pool.submit(lambda: None)
        lib = None
        f = pool.submit  # keep flake quiet
        objs = harness_objs(pool)
        lib = build_lib(variant, pool)
        exe = os.path.join(BUILD, "vf-%s-%s" % (variant, digest(objs + [lib], "link1")))
        if not os.path.exists(exe):
            t = exe + ".%d.tmp" % os.getpid()
            if variant == "asan":
                sh(["clang++", "-no-pie", "-fsanitize=address,undefined", "-o", t] + objs + [lib, "-lpthread"])
            else:
                sh(["g++", "-no-pie", "-o", t] + objs + [lib, "-lpthread"])
            os.replace(t, exe)
    os.utime(exe)
    prune(keep={exe, lib} | set(objs))
    return exe


def prune(keep):
    """Old products are removed, the most recent ones stay."""
    fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith(("vf-", "lib-")) or f.endswith(".o")]
    fs = sorted((f for f in fs if f not in keep), key=lambda f: os.path.getmtime(f), reverse=True)
    for f in fs[60:]:
        try:
            if time.time() - os.path.getmtime(f) > 1800:  # nobody runs it any more
                os.unlink(f)
        except OSError:
            pass


def build_so(tag="so"):
    """The shared library as /repo links it, for the export check."""
    key = digest(repo_files(), "so1")
    out = os.path.join(BUILD, "libtsm-%s.so" % key)
    if not os.path.exists(out):
        t = out + ".%d.tmp" % os.getpid()
        sh(["gcc", "-O1", "-shared", "-fPIC", "-fvisibility=hidden", "-std=gnu99", "-D_GNU_SOURCE", "-D_POSIX_C_SOURCE=199309L", "-w"] + includes() +
           [s for s in lib_sources() if not s.endswith("shl-pty.c") and not s.endswith("shl-ring.c")] +
           ["-Wl,--version-script=" + REPO + "/src/tsm/libtsm.sym", "-o", t])
        os.replace(t, out)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["fast", "asan"]:
        print(build(v))
