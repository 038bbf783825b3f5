"""C04: results of archive-modifying system calls decide how the path goes on.
At every call that writes, positions for writing, flushes, closes, links,
renames or removes a silo, hold or index file, or creates an index file, the
analysis follows separately the case that it failed or transferred less than
asked for.  In that case no path may insert an index entry, install, rename or
remove archive or index files (after a failed write), exit with success, or
return normally from the function, unless a failure is returned (non-zero,
negative or NULL) or reported on stderr.  A descriptor or stream may be used
only where it is known to have been opened."""
from common import *
from c01 import desc

TITLE = "A failed or short archive write is never taken for success"
ASSUMES = ["an assertion that fails ends the process (VAS_Fail does not return)",
           "the cache file holds hints only and its writes may fail",
           "seeking relative to the current position or to the end of an open regular file does not fail"]

WR = {"write", "writev", "pwrite", "pwritev", "fwrite"}
ZERO = {"close", "fclose", "fflush", "fseeko", "fseek", "link", "rename", "unlink", "remove", "Wsilo_Store", "ftruncate",
        "fsync", "fputc"}
CLS = {"SILO", "HOLD", "INDEX"}
MUT = {"IDX_Insert", "link", "rename", "unlink", "Wsilo_Install", "Wsilo_Commit"}


class R04(FsRule):
    weak = frozenset(["fd", "opened"])

    def archive(self, A, st, c):
        """class of the file a descriptor call works on, if it matters here"""
        n = c.name
        if n in ("link", "rename", "unlink", "remove"):
            ks = [self.pathclass(A, st, a) for a in c.args]
            for k in ks:
                if k[0] in CLS:
                    return k[0]
            return None
        if n == "Wsilo_Store":
            return "HOLD"
        fd = c.args[3] if n == "fwrite" else c.args[1] if n == "fputc" else c.args[0]
        f = self.fdinfo(st, fd)
        if f is None:
            if fd[0] == "arg" and not A.fn.has_argv() and A.fn.name.startswith("Gzip"):
                return "PARAM"
            return None
        if f[0][0] == "SIDE" and n in WR:
            return "SIDE"
        if f[0][0] not in CLS:
            return None
        if f[1] is not None and not f[1] & O_ACCMODE:
            return None
        return f[0][0]

    def call(self, A, st, c):
        n = c.name
        self.pend = self.archive(A, st, c) if (n in WR or n in ZERO or n == "lseek") else None
        for x in has(st, "opened"):
            if n not in ("close", "fclose", "fprintf", "VAS_Fail") and any(a == x[1][1] for a in c.args):
                t = x[1][1]
                ok = A.nonnull(st, t) if x[2] else A.eval(st, rel_le0(sub(C(0), t))) is True
                if not ok:
                    A.report(st, c, "%s() uses the result of an open at %s that may have failed" % (n, x[3]))
                drop(st, x)
        f = one(st, "failed")
        if f is not None:
            if n == "fprintf" and self.isstderr(c.args[0]) or n in ("perror",):
                drop(st, f)
                put(st, *f[:4], True)
            if n == "IDX_Insert":
                A.report(st, c, "an index entry is made after %s() at %s failed" % (f[1], f[2]))
            elif f[3] and (n in ("link", "rename") or n in ("unlink", "remove") and not self.ishold(A, st, c)) \
                    and self.archive(A, st, c):
                A.report(st, c, "%s() although %s() at %s failed" % (n, f[1], f[2]))
            elif n == "exit" and c.args[0] == C(0):
                A.report(st, c, "exits successfully although %s() at %s failed" % (f[1], f[2]))
        return None

    def ishold(self, A, st, c):
        k = self.pathclass(A, st, c.args[0])
        return k[0] == "HOLD" or k[:2] == ("INDEX", "hold")

    def isstderr(self, t):
        return t[0] == "mem" and t[2] == ("g", "stderr")

    def after(self, A, st, c):
        n = c.name
        k = self.pend
        if n in ("open", "fopen"):
            FsRule.after(self, A, st, c)
            put(st, "opened", T(c.res), n == "fopen", c.loc())
            f = self.fdinfo(st, c.res)
            if f is not None and f[0][0] == "INDEX" and f[0][1] != "hold" and f[1] is not None and f[1] & O_CREAT:
                self.site("create", c)
                ok = neg(rel_eq(c.res, C(0))) if n == "fopen" else rel_le0(sub(C(0), c.res))
                return self.split(A, st, c, ok)
            return None
        r = FsRule.after(self, A, st, c)
        if k is None or r is not None:
            return r
        if n in WR:
            req, _ = reqlen(A, st, c)
            if n == "fwrite":
                req = c.args[2]
            ok = rel_eq(c.res, req) if req is not None else neg(rel_le0(add(c.res, C(1))))
        elif n == "lseek":
            if c.args[2] != C(0):
                return None
            ok = rel_eq(c.res, c.args[1])
        else:
            ok = rel_eq(c.res, C(0))
        self.site(n, c)
        return self.split(A, st, c, ok)

    def split(self, A, st, c, ok):
        if one(st, "failed"):
            return None
        out = A.assume(st.copy(), ok, True)
        for s in A.assume(st.copy(), ok, False):
            put(s, "failed", c.name, c.loc(), c.name in WR or c.name in ("fclose", "fflush", "close", "fseeko", "rename", "lseek"), False)
            out.append(s)
        return out

    def ret(self, A, st, val, i):
        f = one(st, "failed")
        if f is None or f[4]:
            return
        rt = A.fn.rettype
        if rt.startswith("i") and val is not None:
            if A.eval(st, rel_eq(val, C(0))) is False:
                return
        elif rt == "ptr" and val is not None and A.isnull(st, val):
            return
        A.report(st, f[2], "%s() may fail here and %s still ends as if it had not" % (f[1], A.fn.name))


def run(tier):
    p = Prog()
    names = WR | ZERO | {"open", "fopen", "lseek"}
    jobs = [k for k in p.callers(names) if not p.m.raw[k]["name"].startswith(("vsb_", "VSB_", "VLU", "VAS", "pan_"))]
    res = Result("C04")

    def job(k):
        r = Result("C04")
        r.run(p, k, R04(p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for kind, n in (("create", 1), ("write", 1), ("writev", 1), ("pwrite", 1), ("fwrite", 1), ("link", 1), ("rename", 1),
                    ("unlink", 1), ("Wsilo_Store", 1), ("close", 1), ("fclose", 1), ("fseeko", 1)):
        res.need(kind, n)
    return res
