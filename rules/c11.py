"""C11: lookups concurrent with housekeeping miss nothing.
The lookup (the function which opens the index files and hands entries to the
function it was given), on every path:
 (a) opens the appendix, then the snapshot, then the sorted index; a file is
     left out only if opening it failed with ENOENT; it returns before all
     three were visited only when the function it calls returned non-zero;
 (b) a file is left only at its end (fread() returned nothing and ferror() is
     known to be zero), when the function called returned non-zero, or, in the
     sorted index only, at an entry known to be beyond the key;
 (c) each entry read is whole, and handed to the function unless it is known to
     differ from the key within the length of the key (and of an entry's key).
Housekeeping makes entries visible in the next file before it removes them from
the previous: the appendix is removed only when it was linked as the snapshot, and
the snapshot only when a new sorted index was put in place after the last chunk
read from it, and that is done with rename(), so that there always is one."""
from common import *

TITLE = "Lookups concurrent with housekeeping miss nothing"
ASSUMES = ["the sorted index contains every merged entry (C10)", "entries in the sorted index are at or after the position predicted for their key (C30, not decided)"]
RANK = {"appendix": 0, "housekeep": 1, "sorted": 2}
ENOENT = 2
CMP = ("memcmp", "strncasecmp", "strncmp", "strcasecmp", "strcmp")


class R11(FsRule):
    dull = frozenset(["be64dec", "be32dec", "VSB_len", "strspn"])

    def dullmem(self, addr):
        return True

    def dullread(self, addr):
        return root(addr) == ("arg", 1)

    def cur(self, st):
        x = one(st, "cur")
        return (x[1], x[2][1]) if x is not None else (None, None)

    def leave(self, A, st, c, what):
        """on to the next file, or the end"""
        suf, f = self.cur(st)
        if suf is None:
            return
        if has(st, "closed") or has(st, "noent"):
            return
        if A.nonnull(st, f):
            A.report(st, c, "%s while index.%s has not been closed" % (what, suf))
        else:
            A.report(st, c, "%s although opening index.%s may have failed with another error than ENOENT" % (what, suf))

    def settle(self, A, st, c, what):
        """the entry read has been dealt with"""
        x = one(st, "read")
        if x is None:
            return
        droptag(st, "read")
        if A.le(st, x[1][1], C(0)):
            setone(st, "eof")
            return
        if not has(st, "dealt"):
            A.report(st, c, "%s although the entry read may match the key and was not handed on" % what)
        droptag(st, "dealt")

    def before(self, A, st, c):
        n = c.name
        if n == "fread":
            self.settle(A, st, c, "the next entry is read")
            droptag(st, "eof")
            droptag(st, "past")

    def call(self, A, st, c):
        n = c.name
        if c.fptr is not None and c.fptr == ("arg", 2):
            self.site("entry handed on", c)
            x = one(st, "read")
            if x is None or A.eval(st, rel_eq(x[1][1], C(32))) is not True and A.eval(st, rel_eq(x[1][1], C(1))) is not True:
                A.report(st, c, "an entry is handed on which may not have been read completely")
            setone(st, "dealt")
        elif n in ("fseek", "fseeko", "rewind", "fsetpos"):
            suf, f = self.cur(st)
            if c.args[0] == f and (suf != "sorted" or has(st, "read") or has(st, "dealt")) and \
                    not (n != "rewind" and c.args[1:] == [C(0), C(0)] and not has(st, "read")):
                A.report(st, c, "entries of index.%s are skipped" % suf)
        elif n == "fclose":
            self.settle(A, st, c, "the file is closed")
            suf, f = self.cur(st)
            if c.args[0] == f or A.same(st, c.args[0], f):
                self.site("file left", c)
                cb = one(st, "cb")
                done = cb is not None and A.eval(st, rel_eq(cb[1][1], C(0))) is False
                if has(st, "eof"):
                    if not has(st, "noerr"):
                        A.report(st, c, "index.%s is left although a read error may have ended it" % suf)
                elif has(st, "past") and suf == "sorted":
                    pass
                elif not done:
                    A.report(st, c, "index.%s is left although there may be further entries in it" % suf)
                setone(st, "closed")
        return None

    def after(self, A, st, c):
        n = c.name
        if n in ("fopen", "open"):
            cls = self.pathclass(A, st, c.args[0])
            if cls[0] != "INDEX":
                A.report(st, c, "the lookup opens something which is not known to be an index file")
                return None
            suf = cls[1]
            self.leave(A, st, c, "the next file is opened")
            self.site("file opened", c)
            self.site("visits index." + suf, c)
            p, _ = self.cur(st)
            if suf not in RANK:
                A.report(st, c, "the lookup opens index.%s" % suf)
            elif p is not None and RANK[suf] <= RANK[p]:
                A.report(st, c, "index.%s is visited after index.%s: entries may have migrated meanwhile" % (suf, p))
            put(st, "visited", suf)
            for t in ("closed", "noent", "eof", "past", "read", "dealt", "cb", "noerr"):
                droptag(st, t)
            setone(st, "cur", suf, T(c.res))
            setone(st, "errno", T(("mem", (), ("errno", c.instr["id"]))))
        elif n == "fread":
            if self.cur(st)[1] is not None and has(st, "cur") and c.args[3] == self.cur(st)[1]:
                # the header of the sorted index is read in pieces of 8 bytes
                if c.args[1] == C(8) or c.args[2] == C(8):
                    return None
                setone(st, "read", T(c.res))
                droptag(st, "dealt")
                setone(st, "buf", T(c.args[0]))
        elif c.fptr is not None and c.fptr == ("arg", 2):
            setone(st, "cb", T(c.res))
        elif n == "ferror":
            setone(st, "ferr", T(c.res))
        return None

    def branch(self, A, st, i, cond):
        suf, f = self.cur(st)
        if f is None:
            return
        e = one(st, "errno")
        if e is not None and A.isnull(st, f) and A.eval(st, rel_eq(e[1][1], C(ENOENT))) is True:
            setone(st, "noent")
        x = one(st, "ferr")
        if x is not None and A.isnull(st, x[1][1]):
            setone(st, "noerr")
        x = cond_about(cond)
        if x is None or not has(st, "read"):
            return
        for t in subterms(x):
            if t[0] == "pure" and t[1] in CMP and A.eval(st, rel_eq(t, C(0))) is False:
                a = t[2]
                part = ("arg", 1)
                if t[1] == "memcmp":
                    ok = self.within(A, st, mulc(a[2], 2), part)
                    b = one(st, "buf")
                    if A.le(st, C(1), t) and b is not None and a[0] == b[1][1] and ok:
                        setone(st, "past")
                else:
                    ok = len(a) == 3 and part in a[:2] and self.within(A, st, a[2], part)
                self.site("mismatch", i)
                if ok:
                    setone(st, "dealt")

    def within(self, A, st, n, part):
        """n characters are not more than the key given, nor than an entry has"""
        half = [t for t in subterms(n) if t[0] == "op" and (t[1] in ("sdiv", "udiv") and t[3] == C(2) or t[1] in ("ashr", "lshr") and t[3] == C(1))]
        if half and n == mulc(half[0], 2) and A.le(st, C(0), half[0][2]):
            n = half[0][2]
        if not A.le(st, n, C(24)):
            return False
        for x in has(st, "len"):
            if A.le(st, n, x[1][1]):
                return True
        return False

    def ret(self, A, st, val, i):
        self.site("return", i)
        self.leave(A, st, i, "the lookup ends")
        miss = [s for s in RANK if not any(x[1] == s for x in has(st, "visited"))]
        cb = one(st, "cb")
        if miss and not (cb is not None and A.eval(st, rel_eq(cb[1][1], C(0))) is False):
            A.report(st, i, "the lookup ends without having visited index.%s" % ", index.".join(sorted(miss)))


class R11m(FsRule):
    """the order in which housekeeping makes entries visible and removes them"""
    def suf(self, A, st, t):
        cls = self.pathclass(A, st, t)
        return cls[1] if cls[0] == "INDEX" else None

    def call(self, A, st, c):
        n = c.name
        if n in ("unlink", "remove"):
            s = self.suf(A, st, c.args[0])
            if s == "appendix":
                self.site("appendix removed", c)
                if not has(st, "linked"):
                    A.report(st, c, "the appendix is removed although it may not have been linked as the snapshot")
            elif s == "housekeep":
                self.site("snapshot removed", c)
                for x in has(st, "pending"):
                    if not A.le(st, x[1][1], C(0)):
                        A.report(st, c, "the snapshot is removed before the sorted index with its entries is in place")
            elif s == "sorted":
                A.report(st, c, "the sorted index is removed")
        return None

    def before(self, A, st, c):
        if c.name == "read" and has(st, "pending"):
            for x in has(st, "pending"):
                if not A.le(st, x[1][1], C(0)):
                    put(st, "unmerged")
                drop(st, x)
        elif c.name in ("unlink", "remove") and has(st, "unmerged"):
            if self.suf(A, st, c.args[0]) == "housekeep":
                A.report(st, c, "the snapshot is removed before the sorted index with its entries is in place")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n = c.name
        if n == "link":
            if self.suf(A, st, c.args[0]) == "appendix" and self.suf(A, st, c.args[1]) == "housekeep":
                setone(st, "lk", T(c.res))
        elif n == "rename":
            s, d = self.suf(A, st, c.args[0]), self.suf(A, st, c.args[1])
            if d == "sorted":
                self.site("sorted index replaced", c)
                droptag(st, "pending")
                droptag(st, "unmerged")
            elif d in RANK or s in RANK:
                A.report(st, c, "an index file with entries is renamed")
        elif n == "read":
            f = self.fdinfo(st, c.args[0])
            if f is not None and f[0] == ("INDEX", "housekeep"):
                setone(st, "pending", T(c.res))
        elif n in ("open", "fopen"):
            cls = self.pathclass(A, st, c.args[0])
            fl = self.openmode(A, st, c)
            if cls[0] == "INDEX" and cls[1] in RANK and (fl is None or fl & O_TRUNC):
                A.report(st, c, "an index file with entries is truncated")
        return None

    def branch(self, A, st, i, cond):
        x = one(st, "lk")
        if x is not None and A.eval(st, rel_eq(x[1][1], C(0))) is True:
            setone(st, "linked")


class R11len(R11):
    def after(self, A, st, c):
        if c.name == "strlen" and c.args[0] == ("arg", 1):
            put(st, "len", T(c.res))
        return R11.after(self, A, st, c)


def run(tier):
    p = Prog()
    res = Result("C11")
    jobs = [(R11len, k) for k in p.entries() if p.m.raw[k]["name"] == "IDX_Iter"] + \
        [(R11m, k) for k in p.callers({"unlink", "rename", "link", "remove"})]

    def job(k):
        r = Result("C11")
        r.run(p, k[1], k[0](p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for k, n in (("file opened", 1), ("visits index.appendix", 1), ("visits index.housekeep", 1), ("visits index.sorted", 1),
                 ("file left", 1), ("entry handed on", 1), ("mismatch", 2), ("return", 1), ("appendix removed", 1),
                 ("snapshot removed", 1), ("sorted index replaced", 1)):
        res.need(k, n)
    return res
