"""Builds the simulator from /repo's current working tree.  Output: /verif/build/<key>/sim-{dbg,rel}.
The library's real sources are compiled unchanged; every symbol through which they reach the outside world is
redirected to the simulator (objcopy --redefine-sym X=sim_X for each undefined X for which sim_X exists)."""
import hashlib, os, re, subprocess, sys, shutil, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIMSRC = ["core.cpp", "kernel.cpp", "libc.cpp", "oracle.cpp", "work.cpp", "main.cpp"]
SPECIAL = {"__emutls_get_address": "sim_emutls", "__sanitizer_cov_trace_pc_guard": "sim_cov_guard",
           "__sanitizer_cov_trace_pc_guard_init": "sim_cov_init", "__sanitizer_cov_pcs_init": "sim_cov_pcs"}
CONFIG = """#define HAVE_ERR_H 1
#define HAVE_SYS_EVENTFD_H 1
#define HAVE_SYS_QUEUE_H 1
#define HAVE_SYS_SIGNALFD_H 1
#define HAVE_SYS_TIMERFD_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_LINUX_LIMITS_H 1
#define HAVE_LINUX_SOCKIOS_H 1
#define HAVE_LINUX_UNISTD_H 1
#define HAVE_SYSCALL_H 1
#define HAVE_EPOLLRDHUP 1
#define HAVE_NOTE_TRUNCATE 0
#define HAVE_DECL_PPOLL 1
#define HAVE_SYS_PIDFD_OPEN 1
#define HAVE_NOTE_REVOKE 0
"""

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def sources():
    """The library's Linux sources, as CMakeLists.txt lists them."""
    try:
        txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    except OSError:
        txt = ""
    out = []
    for f in re.findall(r"src/(?:common|linux)/[\w./-]+\.c", txt):
        if f not in out and os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    if not out:
        for d in ("src/common", "src/linux"):
            out += [d + "/" + f for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(".c")]
    return out

def version():
    m = re.search(r"VERSION\s+\"?(\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    return m.groups() if m else ("2", "6", "1")

def repo_files():
    fs = []
    for d in ("src/common", "src/linux", "src/posix", "include"):
        for r, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, n) for n in names if n.endswith((".c", ".h", ".in"))]
    fs.append(os.path.join(REPO, "CMakeLists.txt"))
    return sorted(f for f in fs if os.path.exists(f))

def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def libhash():
    return digest(repo_files())[:16]

def build(flavours=("dbg", "rel"), verbose=False):
    simfiles = [os.path.join(VERIF, "sim", f) for f in sorted(os.listdir(os.path.join(VERIF, "sim")))]
    key = digest(repo_files() + simfiles + [os.path.abspath(__file__)])[:20]
    simkey = digest(simfiles + [os.path.abspath(__file__), os.path.join(REPO, "include/sys/event.h")])[:20]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    out = os.path.join(BUILD, "b-" + key)
    res = {f: os.path.join(out, "sim-" + f) for f in flavours}
    if all(os.path.exists(p) for p in res.values()):
        return res, key
    for d in os.listdir(BUILD):      # keep the cache small
        if d.startswith("b-") and d != "b-" + key:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        if d.startswith("s-") and d != "s-" + simkey:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    gen = os.path.join(out, "gen"); os.makedirs(gen, exist_ok=True)
    open(os.path.join(gen, "config.h"), "w").write(CONFIG)
    a, b, c = version()
    open(os.path.join(gen, "version.h"), "w").write(
        '#ifndef _LIBKQUEUE_VERSION_H\n#define _LIBKQUEUE_VERSION_H\n#define LIBKQUEUE_VERSION ((%s << 16) | (%s << 8) | (%s))\n'
        '#define LIBKQUEUE_VERSION_STRING "%s.%s.%s"\n#define LIBKQUEUE_VERSION_MAJOR %s\n#define LIBKQUEUE_VERSION_MINOR %s\n'
        '#define LIBKQUEUE_VERSION_PATCH %s\n#endif\n' % (a, b, c, a, b, c, a, b, c))
    # the simulator itself (does not depend on the library's sources except the public header)
    sd = os.path.join(BUILD, "s-" + simkey); os.makedirs(sd, exist_ok=True)
    jobs = []
    for s in SIMSRC:
        o = os.path.join(sd, s + ".o")
        if not os.path.exists(o):
            jobs.append(["clang++", "-c", "-g", "-O1", "-std=gnu++17", "-Wall", "-Wno-unused-function", "-I" + os.path.join(REPO, "include"),
                         "-I" + os.path.join(VERIF, "sim"), os.path.join(VERIF, "sim", s), "-o", o + ".tmp"])
    to = os.path.join(sd, "touch.o")
    if not os.path.exists(to):
        jobs.append(["clang", "-c", "-g", "-O1", "-fsanitize=address", os.path.join(VERIF, "sim", "touch.c"), "-o", to + ".tmp"])
    libobjs = {}
    for fl in flavours:
        libobjs[fl] = []
        od = os.path.join(out, fl); os.makedirs(od, exist_ok=True)
        for s in sources():
            o = os.path.join(od, s.replace("/", "_") + ".o"); libobjs[fl].append(o)
            jobs.append(["clang", "-c", "-g", "-O1", "-std=gnu11", "-fPIC", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-femulated-tls",
                         "-fsanitize-coverage=trace-pc-guard,pc-table", "-ftrivial-auto-var-init=pattern", "-D_XOPEN_SOURCE=600"]
                        + (["-DNDEBUG"] if fl == "rel" else [])
                        + ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src/common"), "-I" + REPO,
                           os.path.join(REPO, s), "-o", o])
    ps = []; err = None
    def reap(p):
        nonlocal err
        txt = p[0].communicate()[0]
        if p[0].returncode:
            err = "%s\n%s" % (" ".join(p[1]), txt[-6000:])
        else:
            if verbose and txt: print(txt)
            if p[1][-1].endswith(".tmp"): os.rename(p[1][-1], p[1][-1][:-4])
    for j in jobs:
        ps.append((subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), j))
        if len(ps) >= 12:
            reap(ps.pop(0))
    for p in ps: reap(p)
    if err: raise BuildError(err)
    defined = set()
    for s in SIMSRC:
        for l in run(["nm", "--defined-only", "-g", os.path.join(sd, s + ".o")]).splitlines():
            defined.add(l.split()[-1])
    for fl in flavours:
        od = os.path.join(out, fl); comb = os.path.join(od, "lib.o"); red = os.path.join(od, "libsim.o")
        run(["ld", "-r", "-o", comb] + libobjs[fl])
        und = [l.split()[-1] for l in run(["nm", "-u", comb]).splitlines()]
        syms = []; real = []
        for u in und:
            if u in SPECIAL: syms.append((u, SPECIAL[u]))
            elif "sim_" + u in defined: syms.append((u, "sim_" + u))
            else: real.append(u)
        open(os.path.join(od, "redef"), "w").write("".join("%s %s\n" % x for x in syms))
        open(os.path.join(out, "seam-" + fl + ".txt"), "w").write("simulated: %s\npassed through: %s\n" % (" ".join(sorted(x[0] for x in syms if not x[0].startswith("__sanitizer"))), " ".join(sorted(r for r in real if not r.startswith(("__asan", "__sanitizer", "__start", "__stop"))))))
        run(["objcopy", "--redefine-syms=" + os.path.join(od, "redef"), comb, red])
        tmp = res[fl] + ".tmp"
        run(["clang++", "-g", "-fsanitize=address", "-no-pie", "-o", tmp] + [os.path.join(sd, s + ".o") for s in SIMSRC] + [to, red, "-lpthread"])
        shutil.rmtree(od, ignore_errors=True)
        os.rename(tmp, res[fl])
    return res, key

if __name__ == "__main__":
    try:
        print(build(verbose=True))
    except BuildError as e:
        print(e); sys.exit(3)
