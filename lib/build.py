"""Compile /repo's current sources to LLVM IR, link, and dump views of it.

A *view* is the whole program with every helper inlined into its callers,
except the functions on the view's opaque list (the program's own API and
library functions), so that the analyses see the API calls and system calls a
function makes, however its code is split into helpers.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AARD_REPO", "/repo")
COMPAT = "/opt/vp/compat/freebsd.h"
CFLAGS = ("-O0 -Xclang -disable-O0-optnone -g -std=gnu99 "
          "-DLIBBSD_NETBSD_VIS -isystem /usr/include/x86_64-linux-gnu/bsd "
          "-DLIBBSD_OVERLAY -w").split()


class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""


def repo_sources():
    mk = open(os.path.join(REPO, "Makefile")).read()
    srcs = []
    for m in re.finditer(r"^SRCS\s*\+?=\s*(.*)$", mk, re.M):
        srcs += m.group(1).split()
    srcs = [s for s in srcs if s.endswith(".c")]
    if len(srcs) < 10:
        raise AnalysisError("cannot find SRCS in Makefile")
    return srcs


def _hash():
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "tests"))
        for f in sorted(files):
            if f.endswith((".c", ".h")) or f == "Makefile":
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for f in (os.path.join(VERIF, "tools", "irdump.cpp"), __file__):
        h.update(open(f, "rb").read())
    h.update(" ".join(CFLAGS).encode())
    return h.hexdigest()[:24]


def tool():
    """The irdump tool, built on demand."""
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    out = os.path.join(VERIF, "build", "irdump")
    stamp = out + ".sum"
    want = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cxx = subprocess.check_output(["llvm-config", "--cxxflags"], text=True).split()
    cxx = [x for x in cxx if not x.startswith("-std=") and x != "-fno-exceptions"]
    ld = subprocess.check_output(["llvm-config", "--ldflags", "--libs"], text=True).split()
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["clang++", "-O1", "-std=c++17", "-fno-rtti"] + cxx + [src, "-o", tmp] + ld,
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build irdump:\n" + r.stderr)
    os.replace(tmp, out)
    open(stamp, "w").write(want)
    return out


def workdir():
    base = os.path.join(tempfile.gettempdir(), "aard-sa-%d" % os.getuid())
    os.makedirs(base, exist_ok=True)
    d = os.path.join(base, _hash())
    os.makedirs(d, exist_ok=True)
    # keep the scratch area small
    subs = sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)
    for x in subs[:-6]:
        if x != d:
            shutil.rmtree(x, ignore_errors=True)
    return d


def linked():
    d = workdir()
    out = os.path.join(d, "all.bc")
    if os.path.exists(out):
        return d, out
    tmpd = tempfile.mkdtemp(prefix="c", dir=d)
    srcs = repo_sources()

    def cc(s):
        o = os.path.join(tmpd, s.replace("/", "_") + ".bc")
        cmd = ["clang"] + CFLAGS + (["-include", COMPAT] if os.path.exists(COMPAT) else []) + \
            ['-DGITREV="x"', "-emit-llvm", "-c", os.path.join(REPO, s), "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
        if r.returncode:
            raise AnalysisError("cannot compile %s:\n%s" % (s, r.stderr[:2000]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, srcs))
    r = subprocess.run(["llvm-link"] + objs + ["-o", out + ".tmp%d" % os.getpid()], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("llvm-link: " + r.stderr[:2000])
    os.replace(out + ".tmp%d" % os.getpid(), out)
    shutil.rmtree(tmpd, ignore_errors=True)
    return d, out


def view(opaque):
    """JSON dump of the linked program with everything not opaque inlined."""
    d, bc = linked()
    names = "\n".join(sorted(opaque)) + "\n"
    k = hashlib.sha256(names.encode()).hexdigest()[:16]
    out = os.path.join(d, "view-%s.json" % k)
    if not os.path.exists(out):
        of = os.path.join(d, "opaque-%s-%d" % (k, os.getpid()))
        open(of, "w").write(names)
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([tool(), bc, tmp, of], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("irdump: " + r.stderr[:2000])
        os.replace(tmp, out)
        os.unlink(of)
    return json.load(open(out))
