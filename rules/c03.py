"""C03: order and agreement of record writes and index insertions.
On every path, IDX_Insert() may be called only
 (a) after a write to an installed silo n whose result is known on the path to
     be the full length asked for, with silo number n and an offset that is
     the end of the file before that write (or the end after it minus what was
     written); the parts written are the serialised header and the whole of
     the held body;
 (b) after the hold of silo n was linked into place (or Wsilo_Install()), with
     the writer's own silo number and, for the record, the offset its header
     was written at - the header having been written in full before the
     installation - or, for the warcinfo record, offset 0 and its ID; or
 (c) while walking an installed silo (reindex), with the number of that silo
     and a position told by the reader.
Each write of (a) and each installation of (b) is followed by such an
insertion on every path that ends normally."""
from common import *

TITLE = "The index only names records that are already in place"
ASSUMES = ["the ID passed to Wsilo_Commit is the one in the header passed to Wsilo_Header (decided by C06 and C13)",
           "another process appends to the same silo only while owning its hold (C02)"]


class R03(FsRule):
    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n = c.name
        if n in ("lseek",):
            f = self.fdinfo(st, c.args[0])
            if f is not None and f[0][0] == "SILO":
                w = [x for x in has(st, "app") if x[2][1] == c.args[0]]
                if c.args[1] == C(0) and c.args[2] in (C(2), C(1)):
                    if w:
                        put(st, "after", T(c.res), w[0][2])
                    elif c.args[2] == C(2):
                        put(st, "before", T(c.res), T(c.args[0]))
        elif n == "fstat":
            f = self.fdinfo(st, c.args[0])
            if f is not None and f[0][0] == "SILO":
                sz = A.load(st, ("fld", c.args[1], "stat", "st_size"))
                put(st, "before", T(sz), T(c.args[0]))
        elif n in ("write", "writev", "pwrite"):
            f = self.fdinfo(st, c.args[0])
            if f is not None and f[0][0] == "SILO":
                self.site("append", c)
                req, parts = reqlen(A, st, c)
                put(st, "app", f[0][1], T(c.args[0]), T(c.res), T(req) if req is not None else None, c.loc())
        elif n == "link":
            k2 = self.pathclass(A, st, c.args[1])
            if k2[0] == "SILO":
                self.site("install", c)
                out = []
                z = rel_eq(c.res, C(0))
                for s in A.assume(st.copy(), z, True):
                    num = unhide(k2[1])
                    base = num[2] if isinstance(num, tuple) and num[0] == "fieldno" else None
                    put(s, "inst", T(base) if base else None, hide(k2)[1], c.loc(), "warcinfo")
                    out.append(s)
                return out + A.assume(st.copy(), z, False)
        elif n == "Wsilo_Install":
            self.site("install call", c)
        return None

    def call(self, A, st, c):
        n = c.name
        if n == "Wsilo_Install":
            base = A.load(st, c.args[0])
            rec = [x for x in has(st, "hdr") if x[1][1] == base]
            if rec:
                put(st, "inst", T(base), None, c.loc(), "record")
                if not A.same(st, rec[0][2][1], rec[0][3][1]):
                    A.report(st, c, "the silo is installed although its record header is not known to be written in full")
        elif n == "pwrite" or n == "write" or n == "writev":
            f = field_of(c.args[0])
            if f is not None and f[:2] == ("wsilo", "hold_fd") and n == "pwrite":
                self.site("header write", c)
                off = field_of(c.args[3])
                ok = off is not None and off[:2] == ("wsilo", "hd_start") and off[2] == f[2]
                if not ok:
                    A.report(st, c, "the record header is not written where the record starts (hd_start)")
                req, _ = reqlen(A, st, c)
                hl = A.load(st, ("fld", f[2], "wsilo", "hd_len"))
                if req is not None and not A.same(st, req, hl):
                    A.report(st, c, "the record header written does not fill the space reserved for it (hd_len)")
                if req is not None:
                    put(st, "hdr", T(f[2]), T(c.res), T(req))
        elif n == "IDX_Insert":
            self.insert(A, st, c)
        elif n == "close":
            for x in has(st, "before"):
                if x[2][1] == c.args[0]:
                    drop(st, x)
        return None

    def insert(self, A, st, c):
        self.site("insert", c)
        aa, idarg, flags, silo, off, cont = c.args
        # (a)
        apps = has(st, "app")
        for x in apps:
            num, res, req = x[1], x[3][1], x[4]
            if unhide(num) == silo or (not isinstance(unhide(num), tuple)) or A.same(st, unhide(num), silo):
                if req is None or not A.same(st, res, req[1]):
                    A.report(st, c, "an index entry is made for an append which is not known to be complete")
                fd = x[2][1]
                good = [b for b in has(st, "before") if b[2][1] == fd and A.same(st, off, b[1][1])]
                good += [b for b in has(st, "after") if b[2][1] == fd and A.same(st, add(off, res), b[1][1])]
                if not good and req is not None:
                    good += [b for b in has(st, "after") if b[2][1] == fd and A.same(st, add(off, req[1]), b[1][1])]
                if not good:
                    A.report(st, c, "the offset recorded is not where the record was appended")
                drop(st, x)
                droptag(st, "before")
                droptag(st, "after")
                return
        if apps:
            A.report(st, c, "the silo number recorded is not the silo the record was appended to")
            for x in apps:
                drop(st, x)
            return
        # (b)
        f = field_of(silo)
        for x in sorted(has(st, "inst"), key=repr):
            base = x[1][1] if x[1] else None
            if f is not None and f[:2] == ("wsilo", "silo_no") and f[2] == base or \
                    (x[2] is not None and unhide(x[2]) == silo):
                if x[4] == "warcinfo":
                    w = field_of(idarg)
                    if off == C(0) and cont == C(0) and w is not None and w[:2] == ("wsilo", "warcinfo_id") and w[2] == base:
                        drop(st, x)
                        return
                    continue
                o = field_of(off)
                if o is None or o[:2] != ("wsilo", "hd_start") or o[2] != base:
                    A.report(st, c, "the offset recorded for a record in a new silo is not where its header was written")
                drop(st, x)
                return
        if has(st, "inst"):
            A.report(st, c, "the index entry does not describe the record (silo number, offset, ID) of the silo just installed")
            return
        # (c)
        if self.walk(A, st, c, silo, off):
            self.site("reindex insert", c)
            return
        A.report(st, c, "an index entry is made before the record it names is in place")

    def walk(self, A, st, c, silo, off):
        """position told by the reader, directly or remembered in a struct seg"""
        pos = call_of(st, off)
        if pos is not None and pos[0] == "Rsilo_Tell":
            return True
        o = field_of(off)
        return o is not None and self.p.origin_calls(o[0], o[1]) <= {"Rsilo_Tell"}

    def ret(self, A, st, val, i):
        for x in has(st, "app"):
            A.report(st, i, "a record was appended at %s without an index entry being made" % x[5])
        for x in has(st, "inst"):
            A.report(st, i, "a silo was installed at %s without the index entry of its %s record being made" % (x[3], x[4] if x[4] == "warcinfo" else "data"))


def run(tier):
    p = Prog()
    jobs = p.callers({"IDX_Insert", "Wsilo_Install"}) + [k for k in p.callers({"link", "writev", "pwrite"})]
    jobs = sorted(set(jobs))
    res = Result("C03")

    def job(k):
        r = Result("C03")
        r.run(p, k, R03(p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for kind, n in (("insert", 1), ("append", 1), ("install", 1), ("header write", 1), ("install call", 1), ("reindex insert", 1)):
        res.need(kind, n)
    return res
