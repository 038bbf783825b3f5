"""C23: the stevedore stores one object at a time, in order.
The function which receives messages from stow (the caller of proto_in registered
for descriptor 0), on every path:
 (a) payload of an object (DATA, and META once its job runs) is written to the job
     of this object, as it was read, completely, before more is read or the function
     returns; there is one variable for the job of each command, and a job is started
     only if there is none;
 (b) the job's input is closed only by a message of that command with length zero,
     and then always; then the job is forgotten and further input is not polled for;
 (c) the end of the connection is accepted only if no object is being received; in any
     other case, and when reading a payload fails, the jobs are killed before the
     process exits (which would end their input).
 (d) The child runs with the pipe it was given as its input, without keeping its
     writing end, and its output goes back to the parent.
Functions called when a job's output ends return only if the job's exit status is
zero. Functions called with a line of a job's output pass it to stow before they
let input be polled again, and nothing else lets it be. The dispatch loop does not
call the function of an event which was disabled when polling."""
from common import *
import c17

TITLE = "The stevedore stores one object at a time, in order"
ASSUMES = ["the store command takes end of file for the end of the object, and reports its ID with one line", "lengths of payloads (C17)"]
DATA, META = 2, 3


class In(FsRule):
    MSG = True

    def __init__(self, prog, glob=None, starters=()):
        FsRule.__init__(self, prog)
        self.starters = starters    # function -> (parameter called for a line, parameter called at the end)
        self.glob = glob            # command -> variable of its job
        self.writes = {}            # what was found out about that
        self.enders, self.lines, self.polls = set(), set(), set()
        self.vars = [g for g, d in sorted(prog.m.globals.items()) if not d.get("const") and d.get("size") == 8]
        self.sizes = set()

    def report(self, A, st, where, msg):
        if self.glob is not None:
            A.report(st, where, msg)

    def dullmem(self, addr):
        return addr in self.sizes

    # --- what is known ---

    def cmd(self, A, st):
        x = one(st, "cmd")
        return x[1] if x is not None else None

    def job(self, A, st, v):
        return A.load(st, ("g", self.glob[v])) if self.glob else None

    def base(self, t):
        f = field_of(t)
        return f[2] if f is not None and f[:2] == ("job", "fd_to") else None

    def nojob(self, A, st, v):
        """the other functions which are called do not change the variables (checked in run)"""
        return ("nul", v) in st.auto or A.isnull(st, self.job(A, st, v)) is True

    # --- events ---

    def branch(self, A, st, i, cond):
        c = one(st, "cmdt")
        if c is not None:
            for v in range(8):
                if A.eval(st, rel_eq(c[1][1], C(v))) is True:
                    setone(st, "cmd", v)
                    droptag(st, "cmdt")
        z = one(st, "size")
        if z is not None and A.eval(st, rel_eq(z[1][1], C(0))) is True:
            setone(st, "empty")
        w = one(st, "wr")
        if w is not None and A.same(st, w[1][1], w[2][1]):
            droptag(st, "wr")
        r = one(st, "rd")
        if r is not None and A.le(st, C(1), r[2][1]):
            setone(st, "ok")
        for v, g in (self.glob or {}).items():
            if A.isnull(st, A.load(st, ("g", g))) is True:
                put(st, "nul", v)

    def settled(self, A, st, where):
        """what was read and written before was checked"""
        r = one(st, "rd")
        if r is not None:
            if not has(st, "ok"):
                self.report(A, st, where, "end of input or an error is taken for data")
            elif self.cmd(A, st) in (DATA, META) and not has(st, "ref"):
                self.report(A, st, where, "a part of an object is not passed to its job")
            droptag(st, "rd")
        if has(st, "wr"):
            self.report(A, st, where, "whether a part of an object was passed to its job completely is not known")
            droptag(st, "wr")

    def call(self, A, st, c):
        n, a = c.name, c.args
        if n == "read":
            if a[0] in (("arg", 0), C(0)):
                self.site("payload read", c)
                v = self.cmd(A, st)
                self.settled(A, st, c)
                if v in (DATA, META) and self.glob is not None:
                    # without a job it is not the object, but what the object is about
                    if A.isnull(st, self.job(A, st, v)) is not False and not has(st, "ref"):
                        if v == DATA:
                            self.report(A, st, c, "an object is received without a job for it")
                        setone(st, "ref")
        elif n in ("write", "writev"):
            b = self.base(a[0])
            if b is None:
                return
            v = self.cmd(A, st)
            if v not in (DATA, META):
                return
            self.site("payload passed on", c)
            for g in self.vars:
                if A.same(st, A.load(st, ("g", g)), b):
                    self.writes.setdefault(v, set()).add(g)
            if self.glob is not None and not A.same(st, b, self.job(A, st, v)):
                self.report(A, st, c, "a part of an object is passed to another job")
            r = one(st, "rd")
            if r is None or n != "write" or a[1] != r[1][1] or not A.same(st, a[2], r[2][1]) or not has(st, "ok"):
                self.report(A, st, c, "what is passed to a job is not what was read")
            droptag(st, "rd")
        elif n == "close":
            b = self.base(a[0])
            if b is not None and has(st, "in"):
                v = self.cmd(A, st)
                if v not in (DATA, META):
                    return
                self.site("object ended", c)
                if self.glob is not None and not A.same(st, b, self.job(A, st, v)):
                    self.report(A, st, c, "another job's object is ended")
                if not has(st, "empty"):
                    self.report(A, st, c, "an object is ended by something else than an empty message")
                self.settled(A, st, c)
                setone(st, "ended")
        elif n == "proto_ctl_ev":
            if A.eval(st, rel_eq(a[1], C(0))) is True:
                if has(st, "ended"):
                    setone(st, "paused")
                self.polls.add(("off", self.gname(a[0])))
            else:
                self.polls.add(("on", self.gname(a[0])))
                self.report(A, st, c, "input is polled for again before the ID of the object was reported")
        elif n == "kill":
            f = field_of(a[0])
            if f is not None and f[:2] == ("job", "pid") and a[1] == C(9):
                put(st, "killed", T(f[2]))
        elif n in ("exit", "_exit"):
            if self.glob is not None:
                self.site("exit", c)
                for v in (DATA, META):
                    j = self.job(A, st, v)
                    if not self.nojob(A, st, v) and not any(A.same(st, x[1][1], j) for x in has(st, "killed")):
                        self.report(A, st, c, "the process exits, and so ends the input of a job, with an object partially received")
        elif c.key in self.starters:
            for k, out in zip(self.starters[c.key], (self.lines, self.enders)):
                if a[k][0] == "f":
                    out.add(a[k][1])
                else:
                    self.report(A, st, c, "the functions of a job are not constants")
            if self.glob is not None:
                droptag(st, "none")
                for v in (DATA, META):
                    if self.nojob(A, st, v):
                        put(st, "none", v)

    def gname(self, t):
        return t[2][1] if t[0] == "mem" and t[2][0] == "g" else "?"

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n, a = c.name, c.args
        if n == "proto_in":
            setone(st, "in", T(c.res))
            setone(st, "cmdt", T(A.load(st, a[1])))
            setone(st, "size", T(A.load(st, a[2])))
            self.sizes.add(a[2])
            A.setfact(st, one(st, "size")[1][1], 0, (1 << 32) - 1)
            self.site("message received", c)
        elif n == "read" and a[0] in (("arg", 0), C(0)):
            droptag(st, "ok")
            setone(st, "rd", T(a[1]), T(c.res))
        elif n == "write" and self.base(a[0]) is not None and self.cmd(A, st) in (DATA, META):
            setone(st, "wr", T(c.res), T(a[2]))
        elif c.key in self.starters:
            setone(st, "started", T(c.res))

    def store(self, A, st, addr, val, i):
        if addr[0] != "g" or self.glob is None or addr[1] not in self.glob.values():
            return
        v = [v for v, g in self.glob.items() if g == addr[1]][0]
        drop(st, ("nul", v))
        if A.isnull(st, val):
            put(st, "nul", v)
            if not (has(st, "ended") and self.cmd(A, st) == v) and has(st, "in"):
                self.report(A, st, i, "the job of an object is forgotten before the object ended")
        else:
            self.site("job started", i)
            if ("none", v) not in st.auto:
                self.report(A, st, i, "a job is started although there may be one already")
            x = one(st, "started")
            if x is None or val != x[1][1]:
                self.report(A, st, i, "a job is not the one started")

    def ret(self, A, st, val, i):
        x = one(st, "in")
        if x is None or self.glob is None:
            return
        r = A.eval(st, rel_eq(x[1][1], C(1)))
        if r is not True:
            self.site("no message", i)
            if r is None or A.eval(st, rel_eq(x[1][1], C(0))) is not True or \
                    not all(self.nojob(A, st, v) for v in (DATA, META)):
                self.report(A, st, i, "the end of input is accepted although an object may have been received partially")
            return
        v = self.cmd(A, st)
        self.settled(A, st, i)
        if v not in (DATA, META):
            return
        self.site("message dealt with", i)
        if has(st, "ended"):
            if not self.nojob(A, st, v):
                self.report(A, st, i, "the job of an object which ended is kept for the next one")
            if not has(st, "paused"):
                self.report(A, st, i, "more input is accepted before the ID of an object was reported")
        elif has(st, "ref"):
            if self.nojob(A, st, v):
                self.report(A, st, i, "no job is started for what is received")
        elif has(st, "empty") and not has(st, "started"):
            self.report(A, st, i, "the end of an object is not passed to its job")


class Start(FsRule):
    """a job is started"""
    def __init__(self, prog):
        FsRule.__init__(self, prog)
        self.child, self.parent, self.end, self.line = set(), set(), set(), set()

    def pipe(self, st, t):
        """(pipe, end) of a descriptor"""
        if t[0] == "mem":
            for x in has(st, "pipe"):
                for k in (0, 1):
                    if t[2] == add(x[1][1], C(4 * k)):
                        return x[1][1], k
        return None

    def call(self, A, st, c):
        n, a = c.name, c.args
        if n == "dup2":
            p = self.pipe(st, a[0])
            if p is not None and has(st, "child"):
                put(st, "dup", a[1], T(p[0]), p[1])
        elif n == "close":
            p = self.pipe(st, a[0])
            if p is not None:
                put(st, "closed", T(p[0]), p[1])
        elif n == "VLU_New":
            self.line.add(a[0])
        elif n == "call_main" or n.startswith("exec"):
            self.site("job runs", c)
            d = {x[1]: (x[2][1], x[3]) for x in has(st, "dup")}
            i, o = d.get(C(0)), d.get(C(1))
            if not has(st, "child") or i is None or i[1] != 0 or o is None or o[1] != 1:
                A.report(st, c, "a job's input or output is not a pipe to its parent")
            else:
                self.child.add((i[0], o[0]))
                if ("closed", T(i[0]), 1) not in st.auto:
                    A.report(st, c, "a job keeps the writing end of its own input")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n, a = c.name, c.args
        if n == "pipe":
            put(st, "pipe", T(a[0]))
        elif n == "fork":
            out = []
            for k in (True, False):
                for s in A.assume(st.copy(), rel_eq(c.res, C(0)), k):
                    setone(s, "child" if k else "forked", T(c.res))
                    out.append(s)
            return out

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] == "job":
            if addr[3] == "func_end":
                self.end.add(val)
            elif addr[3] == "pid":
                x = one(st, "forked")
                setone(st, "pid")
                if has(st, "forked") and val != x[1][1] or not has(st, "forked") and val[0] != "call":
                    A.report(st, i, "the process of a job is not the one started for it")
            elif addr[3] in ("fd_to", "fd_fm") and not is_c(val):
                p = self.pipe(st, val)
                if p is None or p[1] != (1 if addr[3] == "fd_to" else 0):
                    A.report(st, i, "a job is not talked to through its pipes")
                else:
                    self.parent.add((addr[3], p[0]))

    def ret(self, A, st, val, i):
        self.site("job ready", i)
        if has(st, "child"):
            A.report(st, i, "the child goes on as if it were the parent")


class End(FsRule):
    def call(self, A, st, c):
        if c.name == "proto_ctl_ev" and A.eval(st, rel_eq(c.args[1], C(0))) is not True:
            A.report(st, c, "input is polled for again though the ID of the object may not have been reported")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.name in ("wait4", "waitpid", "wait"):
            k = 0 if c.name == "wait" else 1
            f = field_of(c.args[0])
            if k and (f is None or f[:2] != ("job", "pid")):
                A.report(st, c, "not the job which ended is waited for")
            setone(st, "st", T(A.load(st, c.args[k])))
            self.site("job waited for", c)

    def branch(self, A, st, i, cond):
        x = one(st, "st")
        if x is not None and A.eval(st, rel_eq(x[1][1], C(0))) is True:
            setone(st, "st0")
            droptag(st, "st")

    def ret(self, A, st, val, i):
        self.site("job ended", i)
        if not has(st, "st0"):
            A.report(st, i, "a job which failed is not treated as an error")


class Line(FsRule):
    def call(self, A, st, c):
        if c.name == "proto_out":
            if c.args[0] == C(1) and c.args[2] == ("arg", 1):
                setone(st, "sent")
        elif c.name == "proto_ctl_ev" and A.eval(st, rel_eq(c.args[1], C(0))) is not True:
            self.site("input resumed", c)
            if not has(st, "sent"):
                A.report(st, c, "input is polled for again before the ID of the object was reported")

    def ret(self, A, st, val, i):
        self.site("line passed on", i)
        if not has(st, "sent"):
            A.report(st, i, "what a job reports is not passed on")


class Loop(FsRule):
    def dullmem(self, addr):
        return addr[0] == "fld" and addr[2:] == ("ev", "idx")

    def branch(self, A, st, i, cond):
        for t in subterms(cond):
            f = field_of(t)
            if f is not None and f[0] == "ev":
                if f[1] == "enable":
                    self.visited(A, st, i)
                    setone(st, "visit", T(f[2]))
                    if A.eval(st, rel_eq(t, C(0))) is False:
                        setone(st, "on", T(f[2]))
                elif f[1] == "idx" and A.le(st, C(0), t):
                    setone(st, "polled", T(f[2]))

    def visited(self, A, st, where):
        if has(st, "visit"):
            A.report(st, where, "whether an event is polled for now is not recorded")

    def call(self, A, st, c):
        if c.name in ("poll", "ppoll"):
            self.visited(A, st, c)

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("ev", "idx"):
            if any(A.same(st, x[1][1], addr[1]) for x in has(st, "visit")):
                droptag(st, "visit")
            self.site("event polled for or not", i)
            if A.eval(st, rel_le0(add(val, C(1)))) is not True and not any(A.same(st, x[1][1], addr[1]) for x in has(st, "on")):
                A.report(st, i, "an event which is disabled may be polled for")
            droptag(st, "on")

    def before(self, A, st, c):
        if c.fptr is not None:
            self.site("event delivered", c)
            f = field_of(c.fptr)
            if f is None or f[:2] != ("ev", "func"):
                A.report(st, c, "what is called is not the function of an event")
            elif not any(A.same(st, x[1][1], f[2]) for x in has(st, "polled")):
                A.report(st, c, "the function of an event which was not polled for may be called")
            droptag(st, "polled")


class Ctl(FsRule):
    """enabling is what is asked for, of the event it is asked for"""
    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("ev", "enable"):
            self.site("event controlled", i)
            setone(st, "set")
            if val != ("arg", 1) or not A.same(st, addr[1], ("arg", 0)):
                A.report(st, i, "not the event asked for is enabled or disabled as asked for")

    def ret(self, A, st, val, i):
        if not has(st, "set"):
            A.report(st, i, "an event is not enabled or disabled")


def run(tier):
    p = Prog()
    res = Result("C23")
    key = lambda n: p.m.named(n).key
    disp = None
    for k in sorted(set(p.callers(["proto_in"]))):
        for q in sorted(p.m.raw):
            for b in p.m.raw[q].get("blocks", ()):
                for i in b:
                    if i["op"] == "call" and i.get("fn") == key("proto_add_ev") and i["ops"][2][0] == "f" and i["ops"][2][1] == k and i["ops"][0][:2] == ["c", 0]:
                        disp = k
    if disp is None:
        raise AnalysisError("C23: the function which receives messages was not found")
    starters = {}
    for k in sorted(p.m.raw):
        if c17.srcfile(p, k) == c17.srcfile(p, disp) and any(i["op"] == "call" and i.get("fn") == "fork" for b in p.m.raw[k].get("blocks", ()) for i in b):
            r = Start(p)
            res.run(p, k, r)
            if len(r.child) != 1 or r.parent != {("fd_to", x) for x, _ in r.child} | {("fd_fm", x) for _, x in r.child}:
                res.add("wiring:" + k, k, "a job is not connected to its parent by one pipe for its input and one for its output", function=k)
            if len(r.line) != 1 or len(r.end) != 1 or any(x[0] != "arg" for x in r.line | r.end):
                raise AnalysisError("C23: %s: the functions of a job are not arguments" % k)
            starters[k] = tuple(x[1] for x in (min(r.line), min(r.end)))
    if not starters:
        raise AnalysisError("C23: no function starts jobs")
    first = In(p, None, starters)
    Result("C23").run(p, disp, first)
    glob = {}
    for v in (DATA, META):
        g = first.writes.get(v, ())
        if len(g) != 1:
            res.add("job%d" % v, disp, "there is not one job which the payload of command %d is passed to: %s" % (v, sorted(g)), function=disp)
        glob[v] = sorted(g)[0] if g else "?"
    if glob[DATA] == glob[META]:
        res.add("jobs", disp, "objects and metadata share one job", function=disp)
    if not res.violations:
        r = In(p, glob, starters)
        res.run(p, disp, r)
        f = c17.srcfile(p, disp)
        for k in sorted(r.enders):
            res.run(p, k, End(p))
        for k in sorted(r.lines):
            res.run(p, k, Line(p))
        for k in sorted(p.entries()):
            for b in p.m.raw[k].get("blocks", ()):
                for i in b:
                    if i["op"] == "store" and i["ops"][1][0] == "g" and i["ops"][1][1] in glob.values():
                        res.site("job variable set", p.m.fmtloc(i))
                        if k != disp:
                            res.add("var:" + k, p.m.fmtloc(i), "the variable of a job is changed elsewhere", function=k)
        # nobody else resumes input
        done = r.enders | r.lines
        for k in sorted(set(p.callers(["proto_ctl_ev"]))):
            if c17.srcfile(p, k) == f and k not in done and k != disp:
                res.add("resume:" + k, k, "input is polled for again elsewhere", function=k)
    res.run(p, key("proto_dispatch_evs"), Loop(p))
    res.run(p, key("proto_ctl_ev"), Ctl(p))
    for k in ("message received", "payload read", "payload passed on", "object ended", "job started", "exit", "no message", "message dealt with", "job runs",
              "job waited for", "job ended", "line passed on", "input resumed", "event polled for or not", "event delivered", "event controlled"):
        res.need(k, 1)
    return res
