"""Build Apophenia from /repo's working tree as an instrumented shared library.

 * stages the sources through m4 exactly as /repo/configure does
 * compiles every library source with gcc, AddressSanitizer and OpenMP
 * objects are cached by content hash, so a check recompiles only what changed
Outputs go to /verif/.cache (git-ignored); nothing is written in /repo.
"""
import hashlib, os, subprocess, sys, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CC = "gcc"
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
CFLAGS = ["-g1", "-O1", "-fPIC", "-fopenmp", "-DHAVE_CONFIG_H", "-std=gnu11", "-w"]
CFLAGS += ["-fno-strict-overflow"] if False else []
LIBS = ["-lgsl", "-lgslcblas", "-lsqlite3", "-lm", "-lpthread"]


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)


class BuildError(Exception):
    pass


def mysql():
    r = sh("mysql_config --include; mysql_config --libs", shell=True)
    toks = r.stdout.split()
    inc = [t for t in toks if t.startswith("-I")]
    lib = [t for t in toks if t.startswith("-L") or t.startswith("-l")]
    return inc, lib


def m4(path):
    r = sh(["m4", "-P", "install/prep_variadics.m4", path], cwd=REPO)
    if r.returncode:
        raise BuildError("m4 failed on %s: %s" % (path, r.stderr))
    return r.stdout


def stage():
    """dict of relative path -> text for everything the compiler needs."""
    out = {}
    names = sorted(os.path.basename(p) for p in glob.glob(REPO + "/*.c") + glob.glob(REPO + "/*.h"))
    m4s = [n for n in names if n.endswith((".m4.c", ".m4.h"))]
    with ThreadPoolExecutor(8) as ex:
        for n, t in zip(m4s, ex.map(m4, m4s)):
            if n == "apop.m4.h":
                out["apop.h"] = t.replace("@Autoconf_no_atomics@", "0")
            else:
                out[n.replace(".m4.", ".")] = t
    for n in names:
        if n not in m4s:
            out[n] = open(os.path.join(REPO, n), errors="surrogateescape").read()
    for d in ("model", "transform", "cmd"):
        for p in sorted(glob.glob(os.path.join(REPO, d, "*.[ch]"))):
            out[d + "/" + os.path.basename(p)] = open(p, errors="surrogateescape").read()
    out["config.h"] = open(os.path.join(VERIF, "lib", "config.h")).read()
    return out


def h(*xs):
    m = hashlib.sha256()
    for x in xs:
        m.update(x.encode("utf8", "surrogateescape"))
        m.update(b"\0")
    return m.hexdigest()[:24]


def build(verbose=False):
    """returns (path of shared library, dir of command-line programs)"""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(verbose)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def _build(verbose):
    st = stage()
    shim = open(os.path.join(VERIF, "lib", "shim.c")).read()
    inc, mlib = mysql()
    flags = CFLAGS + SAN + inc
    headers = h(*[k + "\1" + v for k, v in sorted(st.items()) if k.endswith(".h")])
    # .c files that are #included by another .c
    included = {}
    for k, v in st.items():
        for k2 in st:
            if k2.endswith(".c") and k2 != k and ('#include "%s"' % k2) in v:
                included.setdefault(k, []).append(k2)
    inc_all = {x for v in included.values() for x in v}
    src = [k for k in st if k.endswith(".c") and k not in inc_all and not k.startswith("cmd/")]
    progs = [k for k in st if k.startswith("cmd/") and k.endswith(".c")]
    full = h("v2", headers, shim, *flags, *[k + "\1" + st[k] for k in sorted(st) if k.endswith(".c")])
    outdir = os.path.join(CACHE, "out-" + full)
    lib = os.path.join(outdir, "libapop_verif.so")
    if os.path.exists(os.path.join(outdir, "done")):
        return lib, outdir
    sdir = os.path.join(CACHE, "stage-" + full)
    shutil.rmtree(sdir, ignore_errors=True)
    for d in ("", "model", "transform", "cmd"):
        os.makedirs(os.path.join(sdir, d), exist_ok=True)
    for k, v in st.items():
        with open(os.path.join(sdir, k), "w", errors="surrogateescape") as f:
            f.write(v)
    with open(os.path.join(sdir, "shim.c"), "w") as f:
        f.write(shim)
    odir = os.path.join(CACHE, "obj")
    os.makedirs(odir, exist_ok=True)
    st["shim.c"] = shim

    def comp(k):
        key = h(headers, k, st[k], *flags, *[st[i] for i in included.get(k, [])])
        o = os.path.join(odir, key + ".o")
        if not os.path.exists(o):
            tmp = "%s.%d.tmp" % (o, os.getpid())
            r = sh([CC] + flags + ["-I", sdir, "-ffile-prefix-map=%s/=" % sdir, "-c", os.path.join(sdir, k), "-o", tmp])
            if r.returncode:
                raise BuildError("compiling %s failed:\n%s" % (k, r.stderr[-3000:]))
            os.rename(tmp, o)
        return o

    todo = sorted(src + ["shim.c"] + progs, key=lambda k: -len(st[k]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = dict(zip(todo, ex.map(comp, todo)))
    tmpo = outdir + ".tmp"
    shutil.rmtree(tmpo, ignore_errors=True)
    os.makedirs(tmpo)
    libt = os.path.join(tmpo, "libapop_verif.so")
    r = sh([CC, "-shared", "-Wl,-soname,libapop_verif.so"] + SAN + ["-fopenmp", "-o", libt] + [objs[k] for k in src + ["shim.c"]] + mlib + LIBS)
    if r.returncode:
        raise BuildError("link failed:\n" + r.stderr[-3000:])
    for p in progs:
        b = os.path.join(tmpo, os.path.basename(p)[:-2])
        r = sh([CC] + SAN + ["-fopenmp", "-o", b, objs[p], libt, "-Wl,-rpath," + outdir] + mlib + LIBS)
        if r.returncode:
            raise BuildError("link of %s failed:\n%s" % (p, r.stderr[-3000:]))
    open(os.path.join(tmpo, "done"), "w").close()
    shutil.rmtree(outdir, ignore_errors=True)
    os.rename(tmpo, outdir)
    shutil.rmtree(sdir, ignore_errors=True)
    # keep the cache small: drop old outputs
    outs = sorted(glob.glob(os.path.join(CACHE, "out-*")), key=os.path.getmtime)
    for o in outs[:-6]:
        if o != outdir and not o.endswith(".tmp"):
            shutil.rmtree(o, ignore_errors=True)
    os_ = sorted(glob.glob(os.path.join(odir, "*.o")), key=os.path.getmtime)
    for o in os_[:-400]:
        os.unlink(o)
    if verbose:
        print("built", lib)
    return lib, outdir


if __name__ == "__main__":
    try:
        print(build(True))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
