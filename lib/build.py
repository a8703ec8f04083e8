"""Builds /repo's working tree out of tree, in several flavours.

Every flavour is built by the repository's own CMakeLists with extra compiler
flags into /verif/build/<flavour>-<hash of /repo's sources>, so a build is
reused only for identical sources.  Harnesses are compiled against the object
files of that build.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = os.cpu_count() or 4

HOOK = "-DPRIMESUM_VERIF"
# float-cast-overflow is not part of -fsanitize=undefined
SAN = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow,"
       "float-divide-by-zero -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS")
FLAVOURS = {
    "rel":          dict(cxx="g++", flags=HOOK, type="Release"),
    "asan":         dict(cxx="g++", flags=HOOK + " -DNDEBUG " + SAN, type="None"),
    "tsan":         dict(cxx="g++", flags=HOOK + " -DNDEBUG -O1 -g1 -fsanitize=thread", type="None"),
    "nolibdivide":  dict(cxx="g++", flags=HOOK, type="Release", opts=["-DWITH_LIBDIVIDE=OFF"]),
    "nopopcnt":     dict(cxx="g++", flags=HOOK, type="Release", opts=["-DWITH_POPCNT=OFF"]),
    "noopenmp":     dict(cxx="g++", flags=HOOK, type="Release", opts=["-DWITH_OPENMP=OFF"]),
    "clang":        dict(cxx="clang++", flags=HOOK, type="Release"),
    "asserts":      dict(cxx="g++", flags=HOOK + " -O1 -D_GLIBCXX_ASSERTIONS", type="None"),
    "asserts_nolibdivide": dict(cxx="g++", flags=HOOK + " -O1 -D_GLIBCXX_ASSERTIONS", type="None",
                                opts=["-DWITH_LIBDIVIDE=OFF", "-DWITH_POPCNT=OFF"]),
    "asan_nolibdivide": dict(cxx="g++", flags=HOOK + " -DNDEBUG " + SAN, type="None",
                             opts=["-DWITH_LIBDIVIDE=OFF", "-DWITH_POPCNT=OFF"]),
    "plain":        dict(cxx="g++", flags="-g1", type="Release"),
}


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "MAKEFLAGS"):
        env.pop(k, None)
    env["LC_ALL"] = "C.UTF-8"
    return env


def _files(top, subdirs):
    for sub in subdirs:
        p = os.path.join(top, sub)
        if os.path.isfile(p):
            yield p
            continue
        for root, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                yield os.path.join(root, f)


_hash = None


def repo_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha1()
        for p in _files(REPO, ["CMakeLists.txt", "include", "src", "lib"]):
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
            h.update(b"\1")
        _hash = h.hexdigest()[:12]
    return _hash


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=_env(), **kw)
    if r.returncode:
        with open(log, errors="replace") as f:
            tail = f.read()[-3000:]
        raise BuildError("%s failed:\n%s" % (" ".join(cmd)[:200], tail))


def _prune(flavour, keep):
    """Keep only the newest few builds of a flavour."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)
              if d.startswith(flavour + "-") and len(d) == len(flavour) + 13]
    except FileNotFoundError:
        return
    ds = [d for d in ds if os.path.basename(d) != os.path.basename(keep)]
    ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
    for d in ds[2:]:
        if d.startswith(VERIF + "/build/"):
            shutil.rmtree(d, ignore_errors=True)


def flavour(name, targets=("primesum", "primesieve", "libprimesieve-static")):
    """Build a flavour; returns its build directory."""
    f = FLAVOURS[name]
    d = os.path.join(BUILD, "%s-%s" % (name, repo_hash()))
    with Lock(os.path.join(BUILD, "locks", name)):
        stamp = os.path.join(d, "verif.done")
        if os.path.exists(stamp):
            os.utime(d)
            return d
        _prune(name, d)
        if os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        log = os.path.join(d, "verif.log")
        cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=" + f["type"],
               "-DCMAKE_CXX_COMPILER=" + f["cxx"], "-DCMAKE_CXX_FLAGS=" + f["flags"],
               "-DBUILD_PRIMESIEVE=ON", "-DCMAKE_DISABLE_FIND_PACKAGE_Git=ON"] + f.get("opts", [])
        _run(cmd, log)
        _run(["ninja", "-C", d, "-j%d" % NPROC] + list(targets), log)
        open(stamp, "w").close()
    return d


def binary(d, name):
    if name == "primesum":
        return os.path.join(d, "primesum")
    for root, dirs, files in os.walk(d):
        if name in files and os.access(os.path.join(root, name), os.X_OK):
            return os.path.join(root, name)
    raise BuildError("no %s in %s" % (name, d))


def _objects(d, main=False):
    out = []
    for root, dirs, files in os.walk(os.path.join(d, "CMakeFiles", "primesum.dir")):
        for f in sorted(files):
            if f.endswith(".o") and (main or f not in ("main.cpp.o",)):
                out.append(os.path.join(root, f))
    return sorted(out)


def _lib(d):
    for root, dirs, files in os.walk(d):
        if "libprimesieve.a" in files:
            return os.path.join(root, "libprimesieve.a")
    raise BuildError("libprimesieve.a not found")


def harness(fl, name, sources, kind="primesum", extra=(), libs=(), optional=(), vgomp=False):
    """Compile the C++ sources (paths below /verif/harness) against flavour fl.

    kind: 'primesum' links primesum's objects and libprimesieve, 'primesieve' only
    the latter.  Sources in `optional` that do not compile are left out (their names
    are returned).  kind 'app' links the primesum program itself.  With vgomp the
    OpenMP run-time library is replaced by harness/vgomp.cpp.
    Returns (binary, [left out]).
    """
    f = FLAVOURS[fl]
    d = flavour(fl)
    h = hashlib.sha1()
    hdir = os.path.join(VERIF, "harness")
    sources = list(sources) + (["vgomp.cpp"] if vgomp else [])
    for p in sources + sorted(x for x in os.listdir(hdir) if x.endswith((".hpp", ".h"))):
        with open(os.path.join(hdir, p), "rb") as fh:
            h.update(p.encode() + fh.read())
    h.update(repr((sources, kind, extra, libs, vgomp)).encode())
    out = os.path.join(d, "h", name + "-" + h.hexdigest()[:10])
    with Lock(os.path.join(BUILD, "locks", fl + "-h-" + name)):
        if os.path.exists(out + ".done"):
            with open(out + ".done") as fh:
                return out, [x for x in fh.read().split("\n") if x]
        os.makedirs(out + ".d", exist_ok=True)
        opt = "-O2 " if f["type"] == "Release" else ""
        omp = [] if fl in ("noopenmp", "clang") else ["-fopenmp"]
        popcnt = [] if "-DWITH_POPCNT=OFF" in f.get("opts", []) or "nolibdivide" in fl else ["-mpopcnt"]
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "lib/primesieve/include"),
               "-I" + hdir]
        std = ["-std=gnu++17"]
        flags = (opt + f["flags"]).split()
        if f["type"] == "Release":
            flags.append("-DNDEBUG")
        procs, objs, failed = [], [], []
        for s in sources:
            o = os.path.join(out + ".d", s.replace("/", "_") + ".o")
            src = os.path.join(hdir, s)
            if s.endswith(".c"):
                cc = ["gcc" if f["cxx"] == "g++" else "clang", "-std=gnu11"]
            else:
                cc = [f["cxx"]] + std
            cmd = cc + flags + omp + popcnt + list(extra) + inc + ["-c", src, "-o", o]
            procs.append((s, o, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env())))
        for s, o, cmd, p in procs:
            txt = p.communicate()[0].decode(errors="replace")
            if p.returncode == 0:
                objs.append(o)
            elif s in optional:
                failed.append(s)
                with open(os.path.join(out + ".d", s.replace("/", "_") + ".err"), "w") as fh:
                    fh.write(" ".join(cmd) + "\n" + txt)
            else:
                for q in procs:
                    q[3].wait()
                raise BuildError("harness %s: %s\n%s" % (name, " ".join(cmd), txt[-3000:]))
        base = _objects(d, kind == "app") if kind in ("primesum", "app") else []
        cmd = [f["cxx"]] + flags + ([] if vgomp else omp) + objs + base + list(libs) + [_lib(d), "-pthread", "-o", out]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env())
        if r.returncode:
            raise BuildError("link of %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
        with open(out + ".done", "w") as fh:
            fh.write("\n".join(failed))
    return out, failed


def tool(name, sources, flags=("-O2", "-fopenmp")):
    """A program of the framework that uses nothing of the repository."""
    h = hashlib.sha1()
    hdir = os.path.join(VERIF, "harness")
    for p in _files(hdir, ["."]):
        if p.endswith((".cpp", ".hpp", ".c", ".h")):
            with open(p, "rb") as fh:
                h.update(p.encode() + fh.read())
    h.update(repr((sources, flags)).encode())
    out = os.path.join(BUILD, "tools", name + "-" + h.hexdigest()[:10])
    with Lock(os.path.join(BUILD, "locks", "tool-" + name)):
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            c = all(s.endswith(".c") for s in sources)
            cmd = (["gcc", "-std=gnu11"] if c else ["g++", "-std=gnu++17"]) + list(flags) + ["-I" + hdir] + \
                [os.path.join(hdir, s) for s in sources] + ["-o", out + ".tmp", "-pthread", "-ldl"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env())
            if r.returncode:
                raise BuildError("tool %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
            os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    t = time.time()
    for n in sys.argv[1:] or ["rel"]:
        print(n, flavour(n), "%.1f s" % (time.time() - t))
