"""Driver: builds the code under test + harness to bitcode, runs the symbolic
executor, replays counterexamples natively, writes evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time, glob, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WSYM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WSYM = os.path.join(BUILD, "wsym")
NCPU = min(8, os.cpu_count() or 4)

CXXFLAGS = ["-std=c++17", "-g1", "-fno-strict-aliasing", "-fwrapv", "-include", os.path.join(VERIF, "rt", "include", "pre.h"),
            "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-msse4.2", "-w", "-ffp-contract=off",
            "-fno-access-control", "-DWSYM=1"]
BCFLAGS = ["-O1", "-fno-pic", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-builtin-printf", "-emit-llvm", "-c",
           "-fno-threadsafe-statics", "-fno-discard-value-names"]
NATFLAGS = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-c", "-DWSYM_NATIVE=1", "-fno-builtin"]


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def gen_config(dst):
    """WdtConfig.h, generated from /repo's template the way its CMake does."""
    txt = open(os.path.join(REPO, "WdtConfig.h.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    if not m:
        raise CheckError("cannot find the version in CMakeLists.txt")
    sub = {"WDT_VERSION_MAJOR": m.group(1), "WDT_VERSION_MINOR": m.group(2), "WDT_VERSION_PATCH": m.group(3),
           "WDT_VERSION_BUILD": m.group(3), "WDT_VERSION": ".".join(m.groups())}
    txt = re.sub(r"@(\w+)@", lambda k: sub.get(k.group(1), ""), txt)
    txt = re.sub(r"#cmakedefine\s+(\w+)(.*)", r"#define \1\2", txt)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(txt)


class Builder:
    def __init__(self, work):
        self.work = work
        self.inc = os.path.join(work, "inc")
        os.makedirs(self.inc, exist_ok=True)
        wdt = os.path.join(self.inc, "wdt")
        os.makedirs(wdt, exist_ok=True)
        gen_config(os.path.join(wdt, "WdtConfig.h"))
        # wdt/X -> /repo/X
        for e in sorted(os.listdir(REPO)):
            if e in (".git", "WdtConfig.h", "_build"):
                continue
            link = os.path.join(wdt, e)
            if not os.path.lexists(link):
                os.symlink(os.path.join(REPO, e), link)
        self.objs = {}

    def incs(self):
        return ["-I" + self.inc, "-I" + os.path.join(VERIF, "rt", "include"), "-I" + os.path.join(VERIF, "harness")]

    def path_of(self, src):
        for base in (os.path.join(self.inc, "wdt"), os.path.join(VERIF, "harness"), os.path.join(VERIF, "rt")):
            p = os.path.join(base, src)
            if os.path.exists(p):
                return p
        raise CheckError("no source file " + src)

    def compile(self, src, native=False, defs=()):
        p = self.path_of(src)
        key = hashlib.sha1((p + "|" + " ".join(defs)).encode()).hexdigest()[:8]
        out = os.path.join(self.work, re.sub(r"\W", "_", src) + "_" + key + (".o" if native else ".bc"))
        cmd = ["clang++"] + CXXFLAGS + (NATFLAGS if native else BCFLAGS) + self.incs() + ["-D" + d for d in defs] + [p, "-o", out]
        # compiled code is reused only for identical preprocessed source and flags
        rc, o = sh([c for c in cmd if c not in ("-emit-llvm", "-c")][:-2] + ["-E", "-o", out + ".i"])
        if rc:
            raise CheckError("compile failed: %s\n%s" % (src, o[-4000:]))
        k = hashlib.sha256(open(out + ".i", "rb").read() + repr([c for c in cmd if c not in (out, p) and not c.startswith("-I")]).encode()).hexdigest()
        os.unlink(out + ".i")
        cached = os.path.join(BUILD, "cache", k)
        if os.path.exists(cached):
            shutil.copyfile(cached, out)
            return out
        rc, o = sh(cmd)
        if rc:
            raise CheckError("compile failed: %s\n%s" % (src, o[-4000:]))
        os.makedirs(os.path.dirname(cached), exist_ok=True)
        shutil.copyfile(out, cached + ".%d" % os.getpid())
        os.rename(cached + ".%d" % os.getpid(), cached)
        return out

    def compile_all(self, srcs, native=False, defs=()):
        todo = [s for s in srcs if (s, native, tuple(defs)) not in self.objs]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s, o in zip(todo, ex.map(lambda s: self.compile(s, native, defs), todo)):
                self.objs[(s, native, tuple(defs))] = o
        return [self.objs[(s, native, tuple(defs))] for s in srcs]

    def link(self, name, srcs, defs=()):
        objs = self.compile_all(srcs, False, defs)
        out = os.path.join(self.work, name + ".linked.bc")
        rc, o = sh(["llvm-link-18", "-o", out] + objs)
        if rc:
            raise CheckError("llvm-link failed: " + o[-3000:])
        return out

    def native(self, name, srcs, entry, defs=()):
        objs = self.compile_all(srcs, True, defs)
        nat = os.path.join(self.work, "native_%s_%s.o" % (name, entry))
        rc, o = sh(["clang++"] + CXXFLAGS + NATFLAGS + self.incs() + ["-DWSYM_ENTRY=" + entry, os.path.join(VERIF, "rt", "native.cpp"), "-o", nat])
        if rc:
            raise CheckError("native.cpp: " + o)
        models = set()
        for ob in objs:
            rc, o = sh(["nm", "--defined-only", ob])
            for l in o.splitlines():
                n = l.split()[-1]
                if n.startswith("__model_"):
                    models.add(n[len("__model_"):])
        lst = os.path.join(self.work, "redefine_%s.txt" % name)
        # complete-object constructors may be referenced by their base-object alias
        extra = []
        for m in sorted(models):
            extra.append("%s __model_%s" % (m, m))
        open(lst, "w").write("\n".join(extra) + "\n")
        ren = []
        for ob in objs:
            r = ob + "." + name + ".ren.o"
            rc, o = sh(["llvm-objcopy-18", "--redefine-syms=" + lst, ob, r])
            if rc:
                raise CheckError("objcopy: " + o)
            ren.append(r)
        exe = os.path.join(self.work, "replay_%s_%s" % (name, entry))
        rc, o = sh(["clang++", "-fsanitize=address", "-o", exe] + ren + [nat, "-lpthread", "-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-all"])
        if rc:
            raise CheckError("native link: " + o[-3000:])
        return exe


def ensure_engine():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o = sh(["make", "-s", "-j8", "-C", os.path.join(VERIF, "engine")], timeout=1200)
    if rc or not os.path.exists(WSYM):
        raise CheckError("the engine did not build: " + o[-2000:])


def run_wsym(bc, entry, name, work, args=(), opts=(), tmo=800, mem_gb=12):
    out = os.path.join(work, name + ".json")
    cmd = [WSYM, bc, "--entry=" + entry, "--name=" + name, "--out=" + out, "--cexdir=" + work]
    cmd += ["--arg=%d" % a for a in args] + list(opts)
    if os.path.exists(out):
        os.unlink(out)
    import resource

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, preexec_fn=lim)
        log = p.stdout.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return {"harness": name, "complete": False, "engine_error": "timeout", "violations": [], "why_incomplete": "timeout"}
    if not os.path.exists(out):
        return {"harness": name, "complete": False, "engine_error": "no output rc=%s %s" % (rc, log[-500:]), "violations": []}
    r = json.load(open(out))
    r["log"] = log[-2000:]
    return r


def replay(exe, cex, args, kind, tmo=60):
    env = dict(os.environ)
    env["WSYM_CEX"] = cex
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=64:max_malloc_fill_size=1000000000:malloc_fill_byte=205:abort_on_error=0:exitcode=11:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:detect_odr_violation=0"
    try:
        p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, env=env)
        o = p.stdout.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        return ("hang" if kind == "hang" else "timeout"), (e.stdout or b"").decode("utf-8", "replace")[-2000:]
    if rc == 0 and "REPLAY-COMPLETED" in o:
        return "completed", o[-500:]
    if rc == 10 and "REPLAY-VIOLATION" in o:
        return "confirmed", o[-3000:]
    if rc == 11 or "AddressSanitizer" in o:
        return "confirmed", o[-3000:]
    if rc < 0:
        return "confirmed", "signal %d\n%s" % (-rc, o[-3000:])
    return "not reproduced (rc=%d)" % rc, o[-3000:]
