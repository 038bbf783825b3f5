"""C10: the merge of the housekeeping snapshot keeps every entry.
In the function that removes the snapshot, on every path:
 (a) a chunk read from the snapshot is sorted whole, in entries of 32 bytes,
     and a cursor which starts at its beginning moves over an entry only by
     writing it to the new index or when it was just compared equal to an
     entry of the sorted index that is (to be) written as well; the cursor is
     known to have reached the end of what was read when the new index
     replaces the old one;
 (b) each entry read from the sorted index is written to the new one before
     the next is read, and the sorted index was read until fread() returned
     nothing without an error, or did not exist (ENOENT), when it is replaced;
     an entry is written only where it is known not to precede one still
     waiting, so that the new index is sorted;
 (c) the new index is created empty, its table is written again at its start
     after the last entry, and it is closed, before it is renamed;
 (d) the snapshot is removed only when it is known that a read from it
     returned end of file after the exclusive lock on it was taken, and every
     chunk was merged; the appendix only after it was linked to the snapshot;
     no other index file holding entries is ever removed or opened truncating;
 (e) a new entry is written to the appendix only under the shared lock and
     when the file is known to be linked still."""
from common import *

TITLE = "Housekeeping never loses an index entry"
ASSUMES = ["results of the writes are checked (decided by C04)", "fread/fwrite/qsort/flock behave as documented",
           "the entries in the files are whole (inserts are single 32 byte writes in append mode)"]

LOCK_SH, LOCK_EX = 1, 2
KEEP = ("sorted", "housekeep", "appendix")


class R10(FsRule):
    cursors = frozenset(["F", "cmp"])
    weak = frozenset(["fd"])
    dull = frozenset(["be64dec", "be32dec", "VSB_len"])

    def dullmem(self, addr):
        r = root(addr)
        return r is None or r[0] != "alloca"

    def cls(self, A, st, fdt):
        f = self.fdinfo(st, fdt)
        return f[0] if f is not None and f[0][0] == "INDEX" else (None, None)

    def before(self, A, st, c):
        n = c.name
        if n in ("read", "fread"):
            fdt = c.args[0] if n == "read" else c.args[3]
            suf = self.cls(A, st, fdt)[1]
            if suf == "housekeep":
                self.merged(A, st, c, "another chunk of the snapshot is read")
            elif suf == "sorted" and any(x[2][0] == "INDEX" and x[2][1].startswith("tmp") for x in has(st, "fd")):
                self.carried(A, st, c, "the next entry of the sorted index is read")

    def call(self, A, st, c):
        n = c.name
        if n == "fwrite":
            self.fwrite(A, st, c)
        elif n == "write":
            if self.cls(A, st, c.args[0])[1] == "appendix":
                self.site("insert", c)
                if not any(x[1][1] == c.args[0] and A.eval(st, rel_eq(x[2][1], C(0))) is True for x in has(st, "lksh")):
                    A.report(st, c, "an entry is written to the appendix without the shared lock")
                elif not any(x[1][1] == c.args[0] and A.le(st, C(1), x[2][1]) for x in has(st, "nlink")):
                    A.report(st, c, "an entry is written to the appendix although it may have been removed already")
        elif n in ("rename", "unlink", "link"):
            self.names(A, st, c)
        elif n == "fclose":
            suf = self.cls(A, st, c.args[0])[1]
            if suf and suf.startswith("tmp"):
                for x in has(st, "hdr"):
                    drop(st, x)
                    put(st, "hdrdone", x[1])
        elif n in ("open", "fopen", "truncate", "ftruncate", "creat"):
            self.opens(A, st, c)
        return None

    def opens(self, A, st, c):
        n = c.name
        if n == "ftruncate":
            suf = self.cls(A, st, c.args[0])[1]
            if suf in KEEP:
                A.report(st, c, "the index file %s is truncated" % suf)
            return
        k = self.pathclass(A, st, c.args[0])
        if k[0] == "INDEX" and k[1] in KEEP:
            if n == "truncate":
                A.report(st, c, "the index file %s is truncated" % k[1])
                return
            fl = self.openmode(A, st, c)
            if fl is None or fl & O_TRUNC or (fl & O_ACCMODE and not fl & O_APPEND):
                A.report(st, c, "the index file %s is opened in a way that can overwrite entries" % k[1])

    # -- chunks
    def merged(self, A, st, c, what):
        for x in has(st, "rd"):
            res = x[1][1]
            if A.le(st, res, C(0)):
                continue
            if not has(st, "inst"):
                A.report(st, c, "%s while the previous one is not merged" % what)
        if has(st, "rd"):
            for t in ("F", "inst", "sorted"):
                droptag(st, t)

    def end(self, st):
        for x in has(st, "rd"):
            return add(x[2][1], x[1][1])
        return None

    def fwrite(self, A, st, c):
        suf = self.cls(A, st, c.args[3])[1]
        if not suf or not suf.startswith("tmp"):
            return
        p = c.args[0]
        size = mulc(c.args[1], c.args[2][1]) if is_c(c.args[2]) else (mulc(c.args[2], c.args[1][1]) if is_c(c.args[1]) else None)
        if size is not None and not is_c(size):
            size = None
        F = one(st, "F")
        if F is not None and A.same(st, F[1][1], p):
            self.site("entry from the snapshot written", c)
            e = self.end(st)
            if size is None or size[1] % 32 or e is None or not A.le(st, add(p, C(size[1] - 31)), e):
                A.report(st, c, "what is written from the snapshot is not known to be within what was read of it")
            # entries of the sorted index that are still to come must not precede it
            for x in has(st, "rec"):
                if x[2] == "pending" and A.eval(st, rel_le0(x[3][1])) is not True:
                    if not self.ordered(A, st, x[1][1], p, 1):
                        A.report(st, c, "an entry of the snapshot is written although the entry read from the sorted index may precede it")
            drop(st, F)
            droptag(st, "cmp")
            if size is not None and is_c(size):
                put(st, "F", T(add(p, size)))
            droptag(st, "hdr")
            return
        for x in has(st, "rec"):
            if A.same(st, x[1][1], p):
                self.site("entry from the sorted index written", c)
                if size != C(32):
                    A.report(st, c, "an entry of the sorted index is written with a wrong size")
                if x[2] != "pending":
                    A.report(st, c, "an entry of the sorted index is written twice")
                e = self.end(st)
                if F is None or e is None or not (A.le(st, e, F[1][1]) or self.ordered(A, st, p, F[1][1], -1)):
                    A.report(st, c, "an entry of the sorted index is written although an entry of the snapshot may precede it")
                drop(st, x)
                put(st, "rec", x[1], "written", x[3])
                droptag(st, "hdr")
                return
        if size == C(8):
            self.site("table entry written", c)
            return
        A.report(st, c, "something other than an index entry is written to the new index")

    def ordered(self, A, st, rec, f, sign):
        """is memcmp(rec, f) known to be >= 0 (sign 1) / <= 0 (sign -1)?"""
        return any(x[2][1] == rec and A.same(st, x[1][1], f) and x[3] * sign >= 0 for x in has(st, "cmp"))

    def branch(self, A, st, i, cond):
        """remember what was learnt by comparing entries"""
        F = one(st, "F")
        if F is None:
            return
        for t in sorted(leaves(cond), key=repr):
            if t[0] != "pure" or t[1] not in ("memcmp", "bcmp") or t[2][2:3] != (C(32),):
                continue
            lo, hi = A.interval(st, t)
            a, b = t[2][0], t[2][1]
            rec = [r for r in has(st, "rec") if r[1][1] in (a, b) and r[2] == "pending"]
            if not rec:
                continue
            y = b if rec[0][1][1] == a else a
            if not A.same(st, y, F[1][1]):
                continue
            sg = 0 if lo == hi == 0 else 1 if lo >= 0 else -1 if hi <= 0 else None
            if sg is None:
                continue
            droptag(st, "cmp")
            r = rec[0][1][1]
            put(st, "cmp", T(y), T(r), sg if a == r else -sg)
            if sg == 0:
                self.site("duplicate dropped", i)
                drop(st, F)
                droptag(st, "cmp")
                put(st, "F", T(add(y, C(32))))
                # the chunk is sorted, what follows is not less
                put(st, "cmp", T(add(y, C(32))), T(r), -1)

    def carried(self, A, st, c, what):
        for x in has(st, "rec"):
            if x[2] == "pending" and A.eval(st, rel_eq(x[3][1], C(0))) is not True:
                A.report(st, c, "%s although the previous one may not have been written to the new index" % what)

    # -- names
    def names(self, A, st, c):
        n = c.name
        k = self.pathclass(A, st, c.args[0])
        k2 = self.pathclass(A, st, c.args[1]) if n != "unlink" else None
        if n == "rename" and k2[0] == "INDEX" and k2[1] == "sorted":
            self.site("replace", c)
            self.replace(A, st, c, k)
        elif n == "rename" and (k[0] == "INDEX" and k[1] in KEEP or k2[0] == "INDEX" and k2[1] in KEEP):
            A.report(st, c, "an index file holding entries is renamed or replaced")
        elif n == "unlink" and k[0] == "INDEX":
            if k[1] == "appendix":
                self.site("appendix removed", c)
                if not any(A.eval(st, rel_eq(x[1][1], C(0))) is True for x in has(st, "lnk")):
                    A.report(st, c, "the appendix is removed although it is not known to have been linked to the snapshot")
            elif k[1] == "housekeep":
                self.site("snapshot removed", c)
                x = one(st, "rd")
                if x is None or A.eval(st, rel_eq(x[1][1], C(0))) is not True:
                    A.report(st, c, "the snapshot is removed although it is not known to have been read to its end")
                elif not x[4]:
                    A.report(st, c, "the snapshot is removed although it was not read to its end after the insertions in progress were waited for")
                elif not self.open(st, x[3][1]):
                    A.report(st, c, "the lock on the snapshot was released before it is removed")
                droptag(st, "rd")
            elif k[1] not in ("hold",) and not k[1].startswith("tmp"):
                A.report(st, c, "index file %s is removed" % k[1])

    def open(self, st, fd):
        return any(x[1][1] == fd for x in has(st, "fd"))

    def replace(self, A, st, c, k):
        e = self.end(st)
        F = one(st, "F")
        if F is None or e is None:
            A.report(st, c, "the sorted index is replaced although nothing sorted was merged")
        elif not A.le(st, e, F[1][1]):
            A.report(st, c, "the sorted index is replaced although entries read from the snapshot may not have been written")
        if not (k[0] == "INDEX" and k[1].startswith("tmp")):
            A.report(st, c, "the sorted index is replaced by something else than the new index")
        for x in has(st, "fd"):
            if x[2][0] == "INDEX" and x[2][1].startswith("tmp"):
                A.report(st, c, "the new index is put in place before it was closed")
        if not has(st, "hdrdone"):
            A.report(st, c, "the new index is put in place without its final table having been written")
        src = has(st, "srt")
        if not src:
            A.report(st, c, "the sorted index is replaced without having been read")
        for x in src:
            f = x[1][1]
            if A.isnull(st, f):
                if A.eval(st, rel_eq(("mem", (), ("errno", x[2])), C(2))) is not True:
                    A.report(st, c, "a sorted index that could not be opened is taken for a missing one and replaced")
                continue
            self.carried(A, st, c, "the sorted index is replaced")
            if not any(r[2] in ("pending", "written") and A.eval(st, rel_eq(r[3][1], C(0))) is True for r in has(st, "rec")):
                A.report(st, c, "the sorted index is replaced although it may not have been read to its end")
            elif not any(A.eval(st, rel_eq(r[1][1], C(0))) is True for r in has(st, "ferr")):
                A.report(st, c, "a read error on the sorted index is taken for its end")
        for t in ("F", "rec", "srt", "ferr", "hdrdone"):
            droptag(st, t)
        put(st, "inst")

    # -- results
    def after(self, A, st, c):
        n = c.name
        out = None
        if n == "fopen":
            k = self.pathclass(A, st, c.args[0])
            FsRule.after(self, A, st, c)
            if k[0] == "INDEX" and k[1] == "sorted":
                droptag(st, "srt")
                droptag(st, "rec")
                droptag(st, "ferr")
                put(st, "srt", T(c.res), c.instr["id"])
            elif k[0] == "INDEX" and k[1].startswith("tmp"):
                droptag(st, "hdr")
                droptag(st, "hdrdone")
            return None
        FsRule.after(self, A, st, c)
        if n == "fclose":
            return None
        if n == "read":
            if self.cls(A, st, c.args[0])[1] == "housekeep":
                self.site("snapshot read", c)
                lk = any(x[1][1] == c.args[0] and A.eval(st, rel_eq(x[2][1], C(0))) is True for x in has(st, "lkex"))
                droptag(st, "rd")
                for t in ("F", "inst", "sorted"):
                    droptag(st, t)
                put(st, "rd", T(c.res), T(c.args[1]), T(c.args[0]), lk)
        elif n == "qsort":
            x = one(st, "rd")
            if x is not None and A.same(st, x[2][1], c.args[0]):
                self.site("chunk sorted", c)
                if c.args[2] != C(32) or not self.whole(A, st, c.args[1], x[1][1]):
                    A.report(st, c, "not all of the chunk read from the snapshot is sorted")
                droptag(st, "F")
                put(st, "F", T(x[2][1]))
        elif n == "fread":
            if self.cls(A, st, c.args[3])[1] == "sorted" and is_c(c.args[1]) and is_c(c.args[2]) and \
                    c.args[1][1] * c.args[2][1] == 32:
                self.site("sorted index read", c)
                droptag(st, "rec")
                droptag(st, "cmp")
                droptag(st, "ferr")
                put(st, "rec", T(c.args[0]), "pending", T(c.res))
        elif n == "ferror":
            if self.cls(A, st, c.args[0])[1] == "sorted":
                droptag(st, "ferr")
                put(st, "ferr", T(c.res))
        elif n == "flock" and is_c(c.args[1]):
            tag = {LOCK_SH: "lksh", LOCK_EX: "lkex"}.get(c.args[1][1])
            for t in ("lksh", "lkex"):
                for x in has(st, t):
                    if x[1][1] == c.args[0]:
                        drop(st, x)
            if tag:
                self.site("lock", c)
                put(st, tag, T(c.args[0]), T(c.res))
        elif n == "fstat":
            if self.cls(A, st, c.args[0])[1] == "appendix" and has(st, "lksh"):
                put(st, "nlink", T(c.args[0]), T(A.load(st, ("fld", c.args[1], "stat", "st_nlink"))))
        elif n == "link":
            k = self.pathclass(A, st, c.args[0])
            k2 = self.pathclass(A, st, c.args[1])
            if k[0] == "INDEX" and k[1] == "appendix" and k2[0] == "INDEX" and k2[1] == "housekeep":
                droptag(st, "lnk")
                put(st, "lnk", T(c.res))
        elif n in ("fseeko", "fseek"):
            suf = self.cls(A, st, c.args[0])[1]
            if suf and suf.startswith("tmp"):
                if c.args[1] == C(0) and c.args[2] == C(0):
                    droptag(st, "hdr")
                    put(st, "hdr", "t")
                else:
                    A.report(st, c, "the position in the new index is changed")
        elif n == "close":
            for t in ("lksh", "lkex", "nlink"):
                for x in has(st, t):
                    if x[1][1] == c.args[0]:
                        drop(st, x)
        elif n == "unlink":
            droptag(st, "lnk")
        return out

    def whole(self, A, st, n, res):
        if A.same(st, mulc(n, 32), res):
            return True
        return n[0] == "op" and n[1] in ("lshr", "ashr") and A.same(st, n[2], res) and n[3] == C(5) or \
            n[0] == "op" and n[1] in ("udiv", "sdiv") and A.same(st, n[2], res) and n[3] == C(32)

    def ret(self, A, st, val, i):
        pass


def run(tier):
    p = Prog()
    jobs = sorted(set(p.callers({"unlink", "rename", "flock", "truncate", "ftruncate", "qsort"})) |
                  {k for k in p.callers({"open", "fopen"})})
    res = Result("C10")

    def job(k):
        r = Result("C10")
        r.run(p, k, R10(p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for kind, n in (("replace", 1), ("snapshot removed", 1), ("appendix removed", 1), ("snapshot read", 1), ("chunk sorted", 1),
                    ("sorted index read", 1), ("entry from the snapshot written", 1), ("entry from the sorted index written", 1),
                    ("duplicate dropped", 1), ("insert", 1), ("lock", 1)):
        res.need(kind, n)
    return res
