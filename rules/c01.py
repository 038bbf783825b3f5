"""C01: who may create, open for writing, link, rename, remove or truncate which file.
Every file-system call site of the program is visited on every path; the file
name is resolved to a class (silo, hold, index file, side file, user file ...)
by tracking how the string was built, and the call must be one the class
allows: silos are only opened read-only or O_APPEND without O_CREAT/O_TRUNC,
only ever created by link() from their own hold file, never renamed, removed
or truncated; holds are only created with O_EXCL and not written any more once
linked to their silo."""
from common import *

TITLE = "Archived data is append-only"
ASSUMES = ["link(2) fails if the destination exists", "O_APPEND writes go to the end of the file",
           "names given by the user on the command line for output do not point into the archive"]

MUT = {"unlink", "remove", "unlinkat", "rename", "renameat", "link", "linkat", "truncate", "ftruncate",
       "pwrite", "pwritev", "mmap", "fcntl", "symlink", "rmdir"}
WRITES = {"write", "writev", "pwrite", "pwritev", "ftruncate", "Wsilo_Store", "Wsilo_Header", "Wsilo_Finish",
          "Gzip_WriteAa", "fwrite", "fprintf", "posix_fallocate"}


class R01(FsRule):
    def samenum(self, A, st, a, b):
        return samenum(A, st, a, b)

    def call(self, A, st, c):
        n = c.name
        if n in self.OPENS:
            self.opened(A, st, c)
        elif n in ("unlink", "remove"):
            self.site("remove", c)
            k = self.pathclass(A, st, c.args[0])
            if k[0] not in ("HOLD", "INDEX", "SIDE", "CACHE"):
                A.report(st, c, "%s() of %s: only hold files and the index's own files may be removed" % (n, desc(k)))
        elif n in ("rename",):
            self.site("rename", c)
            k1, k2 = self.pathclass(A, st, c.args[0]), self.pathclass(A, st, c.args[1])
            if k1[0] not in ("INDEX", "CACHE", "SIDE") or k2[0] not in ("INDEX", "CACHE", "SIDE"):
                A.report(st, c, "rename() of %s to %s can replace an existing file" % (desc(k1), desc(k2)))
        elif n in ("link",):
            self.site("link", c)
            k1, k2 = self.pathclass(A, st, c.args[0]), self.pathclass(A, st, c.args[1])
            if k2[0] == "SILO":
                if k1[0] != "HOLD":
                    A.report(st, c, "link() installs %s as a silo" % desc(k1))
                elif not self.samenum(A, st, k1, k2):
                    A.report(st, c, "link() installs the hold of one silo as another silo")
                else:
                    self.site("install", c)
            elif k1[0] != "INDEX" or k2[0] != "INDEX":
                A.report(st, c, "link() of %s to %s" % (desc(k1), desc(k2)))
        elif n in ("renameat", "renameat2", "linkat", "unlinkat", "symlink", "rmdir", "truncate"):
            k = [self.pathclass(A, st, a) for a in c.args if a[0] != "c"]
            if any(x[0] in ("SILO", "HOLD", "UNKNOWN") for x in k):
                A.report(st, c, "%s() applied to %s" % (n, ", ".join(desc(x) for x in k)))
        elif n in ("ftruncate", "pwrite", "pwritev", "fcntl"):
            f = self.fdinfo(st, c.args[0])
            if f is not None and f[0][0] == "SILO":
                A.report(st, c, "%s() on an installed silo" % n)
        elif n == "mmap":
            f = self.fdinfo(st, c.args[4])
            prot, flags = c.args[2], c.args[3]
            self.site("mmap", c)
            if f is not None and f[0][0] in ("SILO", "HOLD"):
                if not (is_c(prot) and not prot[1] & 2) and not (is_c(flags) and flags[1] & 2):
                    A.report(st, c, "writable shared mapping of a silo")
        if n in WRITES and one(st, "installed"):
            a = c.args[0] if n not in ("fwrite",) else c.args[3]
            f = self.fdinfo(st, a)
            if n.startswith("Wsilo_") or (f is not None and f[0][0] in ("HOLD", "SILO")):
                A.report(st, c, "%s() modifies the file after it was installed as a silo" % n)
        if n in WRITES:
            a = c.args[0] if n not in ("fwrite",) else c.args[3]
            f = self.fdinfo(st, a)
            if f is not None and f[0][0] in ("SILO", "HOLD"):
                self.site("silo write", c)
        return None

    def opened(self, A, st, c):
        k = self.pathclass(A, st, c.args[self.OPENS[c.name][0]])
        fl = self.openmode(A, st, c)
        self.site("open", c)
        wr = fl is None or (fl & O_ACCMODE) or (fl & O_TRUNC) or (fl & O_CREAT)
        if k[0] == "SILO":
            if fl is None:
                A.report(st, c, "a silo is opened with flags that cannot be determined")
            elif fl & (O_TRUNC | O_CREAT):
                A.report(st, c, "a silo is opened with O_TRUNC or O_CREAT")
            elif fl & O_ACCMODE and not fl & O_APPEND:
                A.report(st, c, "a silo is opened for writing without O_APPEND")
            elif fl & O_ACCMODE:
                self.site("append open", c)
        elif k[0] == "HOLD":
            if wr and (fl is None or not (fl & O_CREAT and fl & O_EXCL)):
                A.report(st, c, "a hold file is opened for writing without O_CREAT|O_EXCL")
            self.site("hold open", c)
        elif wr and k[0] in ("UNKNOWN", "PARAM", "SILODIR"):
            A.report(st, c, "file opened for writing whose name cannot be shown to differ from a silo (%s)" % desc(k))

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.name == "link":
            k2 = self.pathclass(A, st, c.args[1])
            if k2[0] == "SILO":
                put(st, "installed")
        if c.name == "Wsilo_Install":
            put(st, "installed")
        if c.name in ("Wsilo_New", "Wsilo_Next"):
            droptag(st, "installed")
        return None


def desc(k):
    k = [str(unhide(x)) if not isinstance(unhide(x), tuple) else "" for x in k]
    return " ".join(x for x in k if x).strip()


def samenum(A, st, k1, k2):
    a, b = k1[1], k2[1]
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] != "fieldno" and b[0] != "fieldno":
        return A.same(st, a, b)
    return False


def relevant(p, k):
    c = p.calls_in(k)
    return bool(c & (MUT | WRITES | set(FsRule.OPENS) | {"Wsilo_Install"}))


def run(tier):
    p = Prog()
    jobs = [k for k in p.entries() if relevant(p, k)]
    res = Result("C01")

    def job(k):
        r = Result("C01")
        r.run(p, k, R01(p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    res.need("open", 1)
    res.need("install", 1)
    res.need("append open", 1)
    res.need("hold open", 1)
    res.need("remove", 1)
    res.need("silo write", 1)
    return res
