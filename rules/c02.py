"""C02: hold discipline (typestate over every path).
A hold is owned from the success branch of an open() of a hold file with
O_CREAT|O_EXCL.  Bytes may be written to an existing silo only while the hold
of that same silo is owned and after an fstat() of the opened silo, made under
the hold, whose mode is known on the path to be a regular, writable file.  A
hold file is unlinked only by its owner, exactly once, and descriptor and hold
are given up on every path to a return or exit, unless they are handed to the
new writer object (whose name, number and descriptor must then be those of
the hold that was taken).  Writer objects are consumed exactly once.  Index
files are linked, renamed or removed only while index.hold is owned."""
from common import *
from c01 import desc, samenum

TITLE = "A silo is only modified while its exclusive hold is owned"
ASSUMES = ["open(2) with O_CREAT|O_EXCL succeeds for one process only"]

S_IFMT, S_IFREG, S_IWUSR = 0o170000, 0o100000, 0o200
CONSUME = {"Wsilo_Install", "Wsilo_Commit", "Wsilo_Abandon"}


class R02(FsRule):
    nullable_frees = True

    def holdid(self, A, st, cls):
        if cls[0] == "HOLD":
            return "silo", cls[1]
        if cls[0] == "INDEX" and cls[1] == "hold":
            return "idx", C(0)
        return None

    def samehold(self, A, st, h, kind, num):
        if h[1] != kind:
            return False
        a, b = unhide(h[2]), unhide(num) if not isinstance(num, tuple) or num[:1] == ("T!",) else num
        return a == b or (isinstance(a, tuple) and isinstance(b, tuple) and a[0] != "fieldno" and b[0] != "fieldno" and A.same(st, a, b))

    # held: ("held", kind, T(num), T(fd), where, state) state in {"", "closed", "unlinked", both}
    def after(self, A, st, c):
        n = c.name
        FsRule.after(self, A, st, c)
        if n == "open" or n == "fopen":
            cls = self.pathclass(A, st, c.args[0])
            h = self.holdid(A, st, cls)
            if h is not None:
                fl = self.openmode(A, st, c)
                self.site("hold acquire", c)
                out = []
                ok = fl is not None and fl & O_CREAT and fl & O_EXCL
                if n == "fopen":
                    good, bad = neg(rel_eq(c.res, C(0))), True
                    res = [(s, True) for s in A.assume(st.copy(), good, True)] + [(s, False) for s in A.assume(st.copy(), good, False)]
                else:
                    ge = rel_le0(sub(C(0), c.res))
                    res = [(s, True) for s in A.assume(st.copy(), ge, True)] + [(s, False) for s in A.assume(st.copy(), ge, False)]
                for s, succ in res:
                    if succ and ok:
                        put(s, "held", h[0], T(h[1]) if not isinstance(h[1], tuple) or h[1][0] in TERMK else h[1],
                            T(c.res), c.loc(), frozenset())
                    elif succ and fl is not None and not fl & (O_ACCMODE | O_CREAT):
                        pass
                    out.append(s)
                return out
        if n == "fstat":
            f = self.fdinfo(st, c.args[0])
            if f is not None and f[0][0] == "SILO":
                self.site("fstat under hold", c)
                out = []
                z = rel_eq(c.res, C(0))
                for s in A.assume(st.copy(), z, True):
                    for x in has(s, "stat"):
                        drop(s, x)
                    num = unhide(f[0][1])
                    if any(self.samehold(A, s, h, "silo", T(num)) for h in has(s, "held")):
                        put(s, "stat", T(c.args[0]), T(c.args[1]))
                    out.append(s)
                out += A.assume(st.copy(), z, False)
                return out
        if n in ("stat", "lstat", "memset"):
            # the buffer is overwritten
            a = c.args[1] if n != "memset" else c.args[0]
            for x in has(st, "stat"):
                if x[2][1] == a:
                    drop(st, x)
        if n in ("Wsilo_New", "Wsilo_Next"):
            self.site("writer created", c)
            out = []
            for s in A.assume(st.copy(), rel_eq(c.res, C(0)), False):
                put(s, "ws", T(c.res), c.loc())
                out.append(s)
            if n == "Wsilo_New":
                out += A.assume(st.copy(), rel_eq(c.res, C(0)), True)
            return out
        return None

    def call(self, A, st, c):
        n = c.name
        if n in ("unlink", "remove"):
            cls = self.pathclass(A, st, c.args[0])
            h = self.holdid(A, st, cls)
            if h is not None:
                self.site("hold release", c)
                num = unhide(h[1])
                if isinstance(num, tuple) and num[0] == "fieldno":
                    self.objevent(A, st, c, num[2], "unlink")
                else:
                    mine = [x for x in has(st, "held") if self.samehold(A, st, x, h[0], T(num))]
                    if not mine:
                        A.report(st, c, "removes a hold file which this path did not create exclusively")
                    else:
                        self.mark(A, st, c, mine[0], "unlinked")
            elif cls[0] == "INDEX":
                self.idxop(A, st, c, cls)
        elif n in ("rename", "link"):
            k1, k2 = self.pathclass(A, st, c.args[0]), self.pathclass(A, st, c.args[1])
            if k1[0] == "INDEX" or k2[0] == "INDEX":
                self.idxop(A, st, c, k1)
        elif n in ("close", "fclose"):
            fd = c.args[0]
            mine = [x for x in has(st, "held") if x[3][1] == fd]
            if mine:
                self.mark(A, st, c, mine[0], "closed")
            f = field_of(fd)
            if f is not None and f[0] == "wsilo":
                self.objevent(A, st, c, f[2], "close")
        elif n in ("write", "writev", "pwrite", "pwritev", "fwrite", "dprintf", "splice", "sendfile", "copy_file_range"):
            fdarg = c.args[3] if n == "fwrite" else c.args[0]
            f = self.fdinfo(st, fdarg)
            if f is not None and f[0][0] == "SILO":
                self.site("silo append", c)
                self.silowrite(A, st, c, f, fdarg)
        elif n == "free":
            x = c.args[0]
            ev = [e for e in has(st, "obj") if e[1][1] == x]
            taken = [t for t in has(st, "taken") if t[1][1] == x]
            if ev or taken:
                self.site("writer destroyed", c)
                done = {e[2] for e in ev}
                for what, txt in (("unlink", "its hold file is not removed"), ("close", "its descriptor is not closed")):
                    if what not in done:
                        A.report(st, c, "a silo writer is freed but %s" % txt)
                for t in taken:
                    drop(st, t)
                for e in ev:
                    drop(st, e)
        elif n in CONSUME:
            p = c.args[0]
            v = A.load(st, p)
            self.site("writer consumed", c)
            for t in has(st, "taken") + has(st, "ws"):
                if t[1][1] == v:
                    drop(st, t)
            if v == C(0):
                A.report(st, c, "%s() of a silo writer which is already gone" % n)
        elif n == "exit":
            self.leave(A, st, c, None)
        elif n == "SegJob_New":
            pass
        return None

    def silowrite(self, A, st, c, f, fdarg):
        num = unhide(f[0][1])
        mine = [x for x in has(st, "held") if self.samehold(A, st, x, "silo", T(num)) and "unlinked" not in x[5]]
        if not mine:
            A.report(st, c, "writes to a silo without owning the hold of that silo")
            return
        sts = [x for x in has(st, "stat") if x[1][1] == fdarg]
        if not sts:
            A.report(st, c, "writes to a silo which was not re-checked with fstat() after its hold was taken")
            return
        mode = A.load(st, ("fld", sts[0][2][1], "stat", "st_mode"))
        if A.eval(st, rel_eq(("op", "and", mode, C(S_IFMT)), C(S_IFREG))) is not True:
            A.report(st, c, "writes to a silo not confirmed under the hold to be a regular file")
        if A.eval(st, rel_eq(("op", "and", mode, C(S_IWUSR)), C(0))) is not False:
            A.report(st, c, "writes to a silo not confirmed under the hold to be writable (not permanently stored)")

    def idxop(self, A, st, c, cls):
        self.site("index file operation", c)
        if not any(x[1] == "idx" and "unlinked" not in x[5] for x in has(st, "held")):
            A.report(st, c, "%s() on the index without owning index.hold" % c.name)

    def mark(self, A, st, c, h, what):
        if what in h[5]:
            A.report(st, c, "hold %s twice" % what)
        drop(st, h)
        new = h[5] | {what}
        if not {"closed", "unlinked"} <= new:
            put(st, *h[:5], new)

    def objevent(self, A, st, c, base, what):
        if any(e[1][1] == base and e[2] == what for e in has(st, "obj")):
            A.report(st, c, "the hold of a silo writer is released twice (%s)" % what)
        put(st, "obj", T(base), what)

    def store(self, A, st, addr, val, i):
        # *slp = NULL takes the writer over
        if A.fn.name in CONSUME and addr == ("arg", 0) and val == C(0):
            v = A.load(st, addr)
            put(st, "taken", T(v))
            self.site("writer taken over", i)
        if addr[0] == "fld" and addr[2] == "wsilo" and addr[3] in ("hold_fd", "silo_no", "hold_fn", "silo_fn"):
            for x in has(st, "ctor"):
                if x[1][1] == addr[1] and x[2] == addr[3]:
                    drop(st, x)
            cls = self.partsclass(A, st, st.strs.get(val, ())) if addr[3].endswith("_fn") else ()
            put(st, "ctor", T(addr[1]), addr[3], T(val), hide(cls))
        # handed over to an owning object
        if addr[0] == "fld":
            for t in has(st, "ws"):
                if t[1][1] == val:
                    drop(st, t)
        return None

    def ret(self, A, st, val, i):
        self.leave(A, st, i, val)

    def leave(self, A, st, i, val):
        for h in has(st, "held"):
            if h[1] == "silo" and val is not None and A.nonnull(st, val) and A.fn.name == "Wsilo_New":
                self.construct(A, st, i, val, h)
                continue
            miss = [t for k, t in (("unlinked", "removed"), ("closed", "closed")) if k not in h[5]]
            A.report(st, i, "%s hold taken at %s is not %s when the operation ends" %
                     ("the silo's" if h[1] == "silo" else "the index", h[4], " and ".join(miss)))
        for t in has(st, "taken"):
            A.report(st, i, "the silo writer handed to %s is neither installed nor released" % A.fn.name)
        for t in has(st, "ws"):
            if val is not None and val == t[1][1]:
                continue
            A.report(st, i, "the silo writer obtained at %s is neither installed nor abandoned" % t[2])

    def construct(self, A, st, i, val, h):
        num, fd = h[2][1], h[3][1]
        got = {x[2]: x for x in has(st, "ctor") if x[1][1] == val}
        self.site("writer constructed", i)
        if h[5]:
            A.report(st, i, "the new writer's hold is already released")
        if "hold_fd" not in got or got["hold_fd"][3][1] != fd:
            A.report(st, i, "the new writer does not keep the descriptor of the hold it created")
        if "silo_no" not in got or not A.same(st, got["silo_no"][3][1], num):
            A.report(st, i, "the new writer's silo number is not the one its hold was taken for")
        for fld, want in (("hold_fn", "HOLD"), ("silo_fn", "SILO")):
            cls = tuple(unhide(x) for x in got[fld][4]) if fld in got else ("unset",)
            if cls[0] != want or not samenum(A, st, cls, (want, num)):
                A.report(st, i, "the new writer's %s is %s, not the %s of the silo number it holds" % (fld, desc(cls), want.lower()))


def run(tier):
    p = Prog()
    names = {"open", "fopen", "unlink", "remove", "rename", "link", "free", "writev", "write", "pwrite", "Wsilo_New",
             "Wsilo_Next"} | CONSUME
    jobs = []
    for k in p.entries():
        c = p.calls_in(k)
        f = p.m.raw[k]
        if c & CONSUME or c & {"Wsilo_New", "Wsilo_Next", "link", "rename", "unlink", "writev", "pwrite"} or \
                (c & {"Silo_Filename"} and c & {"open", "fopen"}):
            jobs.append(k)
    res = Result("C02")

    def job(k):
        r = Result("C02")
        r.run(p, k, R02(p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for kind, n in (("hold acquire", 1), ("hold release", 1), ("fstat under hold", 1), ("silo append", 1),
                    ("index file operation", 1), ("writer created", 1), ("writer constructed", 1),
                    ("writer taken over", 1), ("writer consumed", 1), ("writer destroyed", 1)):
        res.need(kind, n)
    return res
