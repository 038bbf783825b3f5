"""C05: what store reads is what it hands to the archiver, and only a complete
object is committed and acknowledged.
In every function that commits a storage job, on every path:
 (a) bytes are handed to the job only from the buffer of the read() before,
     starting where the previous hand-over ended, at least one and never
     beyond what that read returned; the buffer is not written to in between;
 (b) before the buffer is read into again, and before the commit, all that was
     read has been handed over;
 (c) the job is committed only when the last read() is known to have returned
     0 (end of file, no error) and after something was handed to that job;
 (d) the function returns 0, or exits with 0, only after it committed and
     printed the ID which the commit returned; and main() exits with what the
     operation returned."""
from common import *

TITLE = "Store acknowledges only the complete input"
ASSUMES = ["read() returns 0 only at end of file", "SegJob_Feed archives what it is given (C16) and SegJob_Commit returns only "
           "when the object is in place (C03, C04, C06)"]

OUT = {"printf", "puts", "fprintf", "fputs", "fwrite", "write", "putchar", "dprintf"}


class R05(FsRule):
    cursors = frozenset(["F"])
    weak = frozenset(["fd"])

    def consumed(self, A, st, c, what):
        x = one(st, "rd")
        if x is None:
            return
        if A.le(st, x[1][1], C(0)):
            return
        F = one(st, "F")
        if F is None or not A.same(st, F[1][1], add(x[2][1], x[1][1])):
            A.report(st, c, "%s although not everything read before is known to have been handed to the archiver" % what)

    def before(self, A, st, c):
        if c.name == "read":
            self.consumed(A, st, c, "more input is read")

    def call(self, A, st, c):
        n = c.name
        if n == "SegJob_Feed":
            self.feed(A, st, c)
        elif n == "SegJob_Commit":
            self.site("commit", c)
            x = one(st, "rd")
            j = one(st, "job")
            if x is None or A.eval(st, rel_eq(x[1][1], C(0))) is not True:
                A.report(st, c, "the object is committed although the input is not known to have been read to its end without error")
            if j is None or not A.same(st, j[1][1], c.args[0]):
                A.report(st, c, "a job is committed to which no input was handed")
        elif n in OUT:
            x = one(st, "id")
            if x is not None and any(self.shows(A, st, a, x[1][1]) for a in c.args):
                if n in ("fprintf", "fputs", "fwrite"):
                    f = c.args[{"fprintf": 0, "fputs": 1, "fwrite": 3}[n]]
                    if f != ("mem", f[1], ("g", "stdout")) if f[0] == "mem" else True:
                        return None
                if n in ("write", "dprintf") and c.args[0] != C(1):
                    return None
                self.site("ID printed", c)
                setone(st, "printed")
        elif n in ("exit", "_exit"):
            self.success(A, st, c, c.args[0])
        elif n in ("lseek", "pread", "lseek64"):
            x = one(st, "rd")
            if x is not None and c.args[0] == x[3][1]:
                A.report(st, c, "the position in the input is changed")
        return None

    def shows(self, A, st, a, t):
        if a == t:
            return True
        return any(l == t for l in leaves(a)) if a[0] not in ("c", "s", "g") else False

    def feed(self, A, st, c):
        self.site("hand-over", c)
        sj, p, n = c.args[:3]
        x, F = one(st, "rd"), one(st, "F")
        if x is None or F is None:
            A.report(st, c, "something which was not just read is handed to the archiver")
            return
        if not A.same(st, p, F[1][1]):
            A.report(st, c, "what is handed to the archiver does not start where the previous hand-over ended")
        if not A.le(st, C(1), n):
            A.report(st, c, "the number of bytes handed to the archiver may be zero or negative")
        if not A.le(st, add(p, n), add(x[2][1], x[1][1])):
            A.report(st, c, "more may be handed to the archiver than was read")
        drop(st, F)
        put(st, "F", T(add(p, n)))
        j = one(st, "job")
        if j is not None and not A.same(st, j[1][1], sj):
            A.report(st, c, "the input is handed to more than one job")
        setone(st, "job", T(sj))

    def success(self, A, st, where, val):
        if val is None or A.eval(st, rel_eq(val, C(0))) is False:
            return
        if not one(st, "id"):
            A.report(st, where, "success is reported although nothing was committed")
        elif not one(st, "printed"):
            A.report(st, where, "success is reported although the ID which the commit returned was not printed")

    def after(self, A, st, c):
        n = c.name
        FsRule.after(self, A, st, c)
        if n == "read":
            self.site("read", c)
            setone(st, "rd", T(c.res), T(c.args[1]), T(c.args[0]))
            setone(st, "F", T(c.args[1]))
            if not has(st, "id"):
                pass
        elif n == "SegJob_Commit":
            setone(st, "id", T(c.res))
            droptag(st, "printed")
        elif n in ("memcpy", "memmove", "memset", "strcpy", "snprintf", "sprintf"):
            x = one(st, "rd")
            if x is not None and ptr_base(c.args[0]) == ptr_base(x[2][1]) and A.eval(st, rel_eq(x[1][1], C(0))) is not True:
                F = one(st, "F")
                if F is None or not A.same(st, F[1][1], add(x[2][1], x[1][1])):
                    A.report(st, c, "what was read is overwritten before it was handed to the archiver")
        return None

    def store(self, A, st, addr, val, i):
        x = one(st, "rd")
        if x is None:
            return None
        b = x[2][1]
        if addr[0] in ("lin", "call", "phi", "mem") and ptr_base(addr) == ptr_base(b) and \
                not (addr[0] == "fld") and A.eval(st, rel_eq(x[1][1], C(0))) is not True:
            F = one(st, "F")
            if F is None or not A.same(st, F[1][1], add(b, x[1][1])):
                A.report(st, i, "what was read is changed before it was handed to the archiver")
        return None

    def ret(self, A, st, val, i):
        self.success(A, st, i, val)


class RMain(Rule):
    """what the operation returned becomes the exit status"""
    def __init__(self, prog, what):
        self.p, self.what, self.sites = prog, what, {}

    def start(self, A):
        return frozenset()

    def after(self, A, st, c):
        if c.name == self.what or self.what == "*" and c.fptr is not None:
            self.sites.setdefault("operation called", set()).add(engine.Module.fmtloc(c.instr))
            setone(st, "op", T(c.res))
        return None

    def call(self, A, st, c):
        if c.name in ("exit", "_exit") and one(st, "op"):
            self.status(A, st, c.args[0], c)

    def status(self, A, st, val, where):
        x = one(st, "op")
        if x is not None and not A.same(st, val, x[1][1]):
            v = A.eval(st, rel_eq(val, C(0)))
            if v is False or A.eval(st, rel_eq(x[1][1], C(0))) is True:
                return
            A.report(st, where, "the exit status is not the one of the operation")
        elif x is None and A.eval(st, rel_eq(val, C(0))) is not False:
            A.report(st, where, "success is reported although no operation was carried out")

    def ret(self, A, st, val, i):
        self.status(A, st, val, i)


def run(tier):
    p = Prog()
    jobs = [(k, 0) for k in p.callers({"SegJob_Commit"})]
    jobs += [(k, "call_main") for k in p.entries() if p.m.raw[k]["name"] == "main"]
    jobs += [(k, "*") for k in p.entries() if p.m.raw[k]["name"] == "call_main"]
    res = Result("C05")

    def job(x):
        k, w = x
        r = Result("C05")
        r.run(p, k, RMain(p, w) if w else R05(p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for kind in ("read", "hand-over", "commit", "ID printed", "operation called"):
        res.need(kind, 1)
    if len([j for j in jobs if j[1]]) < 2:
        raise AnalysisError("C05: main or call_main not found")
    return res
