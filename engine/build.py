"""Builds the engine and the harnesses from /repo's current working tree.

Every object is cached under /verif/.cache by the hash of its *preprocessed*
source and flags, so a check always sees what /repo contains now."""
import concurrent.futures as cf, fcntl, hashlib, os, re, shutil, subprocess, sys, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYM_REPO", "/repo")
CACHE = os.environ.get("SYM_CACHE", os.path.join(VERIF, ".cache"))
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
CLANG, OPT, GXX = "clang++-18", "opt-18", "g++-14"
SYMFLAGS = ["-std=gnu++23", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno",
            "-DEIGEN_DONT_VECTORIZE", "-DNDEBUG", "-fPIC", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
            "-fno-threadsafe-statics", "-U_OPENMP"]
NATFLAGS = ["-std=gnu++23", "-O2", "-DNDEBUG", "-fPIC", "-w"]
CHECKED = ["-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(ENG, "eigchk.h")]   # indices and shapes become obligations
if os.environ.get("SYM_UNCHECKED") != "1":
    SYMFLAGS += CHECKED; NATFLAGS += CHECKED


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-4000:]))
    return r.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def atomic(tmp, dst):
    os.replace(tmp, dst)


def ensure(path, fn):
    """build `path` by fn(tmp) once, also across concurrent checks"""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(path):
            tmp = path + ".tmp%d" % os.getpid()
            fn(tmp)
            atomic(tmp, path)
    try:
        os.unlink(path + ".lock")
    except OSError:
        pass
    return path


def plugin():
    src = os.path.join(ENG, "SymPass.cpp")
    out = os.path.join(CACHE, "SymPass-%s.so" % sha(rd(src)))
    def mk(tmp):
        fl = sh(["llvm-config-18", "--cxxflags"]).decode().split()
        sh([CLANG, "-fPIC", "-shared", "-O1", "-fno-rtti"] + fl + [src, "-o", tmp])
    return ensure(out, mk)


def rtobj(native):
    src = os.path.join(ENG, "rt_native.cpp" if native else "rt.cpp")
    out = os.path.join(CACHE, "rt-%s.o" % sha(rd(src), rd(os.path.join(ENG, "sym.h"))))
    return ensure(out, lambda tmp: sh([GXX, "-O2", "-std=gnu++20", "-w", "-fPIC", "-x", "c++", "-c", src, "-o", tmp]))


def geninc():
    """The header tree CMake would generate: verbatim copies plus helfem.h."""
    hs = []
    for d in ("libhelfem", "libhelfemqc"):
        for h in sorted(glob.glob(os.path.join(REPO, d, "include", "*.h"))):
            hs.append(h)
    key = sha(*[os.path.basename(h).encode() + b"\0" + rd(h) for h in hs])
    out = os.path.join(CACHE, "inc-" + key)
    if not os.path.isdir(out):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        for h in hs:
            b = os.path.basename(h)
            t = rd(h)
            if b == "helfem.source.h":
                b, t = "helfem.h", t.replace(b"${LIBHELFEM_VERSION}", b"verif")
            with open(os.path.join(tmp, b), "wb") as f:
                f.write(t)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def incflags():
    return ["-I" + ENG, "-I" + HAR, "-I" + os.path.join(HAR, "stubs"), "-I" + geninc(),
            "-I" + os.path.join(REPO, "libhelfem", "src"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src", "general"),
            "-isystem", "/usr/include/eigen3"]


def path_of(s):
    return s if s.startswith("/") else (os.path.join(HAR, s) if s.startswith("h_") or s.startswith("stubs/") else os.path.join(REPO, s))


def compile_one(src, native, extra=()):
    p = path_of(src)
    flags = (NATFLAGS if native else SYMFLAGS) + list(extra) + incflags()
    cc = GXX if native else CLANG
    pre = sh([cc] + flags + ["-E", "-P", p])
    if native:
        out = os.path.join(CACHE, "n-%s.o" % sha(pre, *NATFLAGS, *extra))
        def mk(tmp):
            sh([GXX] + flags + ["-c", p, "-o", tmp])
        return ensure(out, mk)
    out = os.path.join(CACHE, "s-%s.o" % sha(pre, rd(os.path.join(ENG, "SymPass.cpp")), *SYMFLAGS, *extra))
    pl = plugin()
    def mk(tmp):
        with tempfile.TemporaryDirectory(dir=CACHE) as td:
            bc, ib = [os.path.join(td, n) for n in ("a.bc", "b.bc")]
            sh([CLANG] + flags + ["-emit-llvm", "-c", p, "-o", bc])
            sh([OPT, "-load-pass-plugin=" + pl, "-passes=function(scalarizer),sym-instr,function(sccp,adce,simplifycfg)", bc, "-o", ib])
            sh([CLANG, "-O1", "-fPIC", "-c", ib, "-o", tmp])
    return ensure(out, mk)


def build(name, sources, native=False, extra=(), libs=()):
    """returns path of an executable"""
    os.makedirs(CACHE, exist_ok=True)
    if not native:
        plugin()
    geninc()
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("SYM_JOBS", os.cpu_count() or 4))) as ex:
        objs = list(ex.map(lambda s: compile_one(s, native, extra), sources))
    objs.append(rtobj(native))
    out = os.path.join(CACHE, "%s-%s-%s" % ("nat" if native else "sym", name, sha(*objs, *libs)))
    return ensure(out, lambda tmp: sh([GXX] + objs + ["-o", tmp, "-lquadmath", "-no-pie" if not native else "-pie", "-Wl,--allow-multiple-definition"] + list(libs)) )


def prune(limit=3 << 30):
    """keep the cache directory bounded"""
    try:
        fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(os.path.join(CACHE, "*")) if os.path.isfile(p)]
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for _, s, p in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(p); tot -= s
        except OSError:
            pass
