"""C24: record iteration stays on record boundaries.
The reader: each function of it which moves in the silo knows, before it does so
first, that the state of the reader is the one it needs, and leaves it in the
state which is right for where it stopped:
  at a header -(header)-> at a body -(body)-> at a separator -(separator)-> at a header
  at a body -(skip)-> at a header
(a header not found at the end of the silo, and a body not read to its end, leave
the state alone).  What was read beyond the end of a member is given back, once,
before returning, and nothing read is dropped before inflate saw it.  A header is
returned only when a whole member was inflated, and the length of the body is
taken from a valid length field behind it; skipping is by that length plus that
of the separator; what is skipped as a separator is one.
The commands: on every path, a reader is used in that order: a header is read
only at a header, which for all but the first means that one body and one
separator were consumed or skipped since the one before, and nothing is done
with a reader but closing it where its position is not known.  A reader kept in a
structure is at a body."""
from common import *
import c08

TITLE = "Record iteration stays on record boundaries"
ASSUMES = ["the separator and the header with the length are what the writers produce (C08)", "read, lseek and inflate do what their documentation says"]

HEAD, BODY, CRLF = "a header", "a body", "a separator"
NEED = {"Rsilo_ReadHeader": HEAD, "Rsilo_NextHeader": BODY, "Rsilo_ReadGZChunk": BODY, "Rsilo_ReadChunk": BODY, "Rsilo_SkipCRNL": CRLF, "Rsilo_BodyLen": BODY}
EXIT = {"Rsilo_Open": HEAD, "Rsilo_ReadHeader": BODY, "Rsilo_NextHeader": HEAD, "Rsilo_ReadGZChunk": CRLF, "Rsilo_ReadChunk": CRLF, "Rsilo_SkipCRNL": HEAD}
WHERE = ("rsilo", "silo_where")
STREAM_END = 1
MOVES = ("read", "pread", "readv", "lseek", "fread")


class Probe(FsRule):
    """values the state is set to"""
    def __init__(self, prog):
        FsRule.__init__(self, prog)
        self.vals = set()

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == WHERE:
            self.vals.add(val)


class Reader(FsRule):
    """a function of the reader"""
    def __init__(self, prog, a):
        FsRule.__init__(self, prog)
        self.fn, self.consts = a

    def rs(self, A, st):
        return ("arg", 0)

    def where(self, A, st):
        return A.load(st, ("fld", ("arg", 0)) + WHERE)

    def begin(self, A, st, c):
        if has(st, "moved"):
            return
        setone(st, "moved")
        n = NEED.get(self.fn)
        if n is not None:
            self.site("state known before moving", c)
            if not has(st, "at") and A.eval(st, rel_eq(self.where(A, st), C(self.consts[n]))) is not True:
                A.report(st, c, "%s moves in the silo although it may not be at %s" % (self.fn, n))

    def branch(self, A, st, i, cond):
        n = NEED.get(self.fn)
        if n is not None and not has(st, "moved") and A.eval(st, rel_eq(self.where(A, st), C(self.consts[n]))) is True:
            setone(st, "at")
        if has(st, "left") and any(A.le(st, x, C(0)) for x in self.rest(A, st)):
            setone(st, "none")

    def rest(self, A, st):
        """how much of the input is left (nothing but inflate changes it while the tag is there: the stream is a local)"""
        l = one(st, "left")
        z = one(st, "z")
        return [l[2][1]] + ([self.zs(A, st, z[1][1])[1]] if z is not None else [])

    def zs(self, A, st, z):
        return tuple(A.load(st, ("fld", z, "z_stream_s", f)) for f in ("next_in", "avail_in"))

    def before(self, A, st, c):
        n = c.name
        if c.fptr is not None:
            droptag(st, "at")
        if n == "inflateInit2_":
            x = self.zs(A, st, c.args[0])
            r = one(st, "rd")
            if r is not None and (x[0] != r[1][1] or not A.same(st, x[1], r[2][1])):
                A.report(st, c, "not what was read is inflated")
            droptag(st, "rd")
            setone(st, "pre", T(x[1]))
        if n in MOVES and self.fn != "Rsilo_Open":
            self.begin(A, st, c)
        z = one(st, "z")
        if n == "read" and z is not None:
            droptag(st, "none")
            l = A.load(st, ("fld", z[1][1], "z_stream_s", "avail_in"))
            if not A.le(st, l, C(0)):
                A.report(st, c, "what was read is dropped before all of it was inflated")
            droptag(st, "left")

    def call(self, A, st, c):
        n = c.name
        if n == "inflate":
            z = c.args[0]
            ni, ai = self.zs(A, st, z)
            r = one(st, "rd")
            l = one(st, "left")
            self.site("inflated", c)
            if r is not None:
                if ni != r[1][1] or not A.same(st, ai, r[2][1]):
                    A.report(st, c, "not what was read is inflated")
            elif l is None:
                A.report(st, c, "inflate does not continue where it stopped")
            for t in ("rd", "back", "none"):
                droptag(st, t)
        elif n == "lseek":
            l = one(st, "left")
            if l is not None:
                self.site("rest given back", c)
                if not any(A.same(st, add(c.args[1], x), C(0)) for x in self.rest(A, st)) or c.args[2] != C(1):
                    A.report(st, c, "not exactly what was not used is given back")
                if has(st, "back"):
                    A.report(st, c, "what was not used is given back twice")
                setone(st, "back")
            elif self.fn == "Rsilo_Tell":
                self.site("told", c)
                if c.args[1:] != (C(0), C(1)):
                    A.report(st, c, "asking for the position changes it")

    def after(self, A, st, c):
        n = c.name
        if n == "read":
            setone(st, "rd", T(c.args[1]), T(c.res))
            setone(st, "got", T(c.res))
        elif n == "inflateInit2_":
            # it leaves the input alone
            z = self.zs(A, st, c.args[0])
            x = one(st, "pre")
            setone(st, "left", T(z[0]), T(z[1]))
            droptag(st, "pre")
            return A.assume(st, rel_eq(z[1], x[1][1]), True)
        elif n == "inflate":
            z = self.zs(A, st, c.args[0])
            setone(st, "z", T(c.args[0]), T(c.res))
            setone(st, "left", T(z[0]), T(z[1]))
        elif n == "lseek":
            setone(st, "pos", T(c.res))
        elif c.fptr is not None:
            setone(st, "cb", T(c.res))

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] == "z_stream_s" and addr[3] in ("next_in", "avail_in"):
            droptag(st, "left")
        if addr[0] == "fld" and addr[2:] == WHERE:
            self.site("state set", i)
            setone(st, "where", T(val))

    def ret(self, A, st, val, i):
        self.site("return of the reader", i)
        f = self.fn
        w = one(st, "where")
        w = w[1][1] if w is not None else None
        if f == "Rsilo_Tell":
            p = one(st, "pos")
            if p is None or not A.same(st, val, p[1][1]) or w is not None:
                A.report(st, i, "what is told is not the position")
            return
        if f == "Rsilo_BodyLen":
            if not is_field(val, "rsilo", "silo_bodylen"):
                A.report(st, i, "the length told is not that of the body")
            if A.eval(st, rel_eq(self.where(A, st), C(self.consts[BODY]))) is not True:
                A.report(st, i, "the length of a body is told although the reader may not be at one")
            return
        if f == "Rsilo_Open":
            if not A.isnull(st, val):
                if w != C(self.consts[HEAD]):
                    A.report(st, i, "a new reader is not set to be at a header")
                p = one(st, "pos")
                if p is None or A.eval(st, rel_eq(p[1][1], ("arg", 3))) is not True:
                    A.report(st, i, "a new reader may not be where it was asked to be")
            return
        if not has(st, "moved"):
            A.report(st, i, "%s returns without having moved" % f)
            return
        if f == "Rsilo_ReadHeader" and A.isnull(st, val):
            g = one(st, "got")
            if g is None or A.eval(st, rel_eq(g[1][1], C(0))) is not True:
                A.report(st, i, "the end of the silo is reported although it may not have been reached")
            if w is not None and w != C(self.consts[HEAD]):
                A.report(st, i, "the state is changed although nothing was read")
            return
        cb = one(st, "cb")
        stopped = cb is not None and A.eval(st, rel_eq(cb[1][1], C(0))) is False
        if w != C(self.consts[EXIT[f]]) and not (f in ("Rsilo_ReadGZChunk", "Rsilo_ReadChunk") and stopped and w is None):
            A.report(st, i, "the reader is not left at %s" % EXIT[f])
        z = one(st, "z")
        if f in ("Rsilo_ReadHeader", "Rsilo_ReadChunk"):
            if z is None or A.eval(st, rel_eq(z[2][1], C(STREAM_END))) is not True and not (stopped and f == "Rsilo_ReadChunk"):
                A.report(st, i, "a member may not have been inflated to its end")
            l = one(st, "left")
            if l is not None and not has(st, "back") and not has(st, "none") and not any(A.le(st, x, C(0)) for x in self.rest(A, st)):
                A.report(st, i, "what was read beyond the end of a member is not given back")
        if f == "Rsilo_ReadHeader":
            x = call_of(st, val)
            if x is None or x[0] != "Header_Parse":
                A.report(st, i, "what is returned is not the header which was read")
        if f in ("Rsilo_ReadGZChunk", "Rsilo_ReadChunk"):
            if stopped and A.eval(st, rel_eq(val, C(0))) is not True:
                A.report(st, i, "a body which was not consumed to its end is reported as if it was")
            elif not stopped and A.eval(st, rel_eq(val, C(0))) is True:
                A.report(st, i, "a body which was consumed to its end is reported as if it was not")
        if f == "Rsilo_NextHeader":
            p = one(st, "pos")
            if p is None or not A.le(st, C(0), p[1][1]):
                A.report(st, i, "whether skipping worked is not known")


FNS = frozenset(NEED) | frozenset(["Rsilo_Open", "Rsilo_Close", "Rsilo_Tell"])


class Use(FsRule):
    """a user of readers"""
    weak = frozenset(["fd"])
    dull = frozenset(["strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "Header_Get", "Header_Get_Number", "VSB_len", "VSB_data", "strlen", "strrchr",
                      "strtoul", "Header_Get_Id", "strchr", "strspn"])

    def dullmem(self, addr):
        return root(addr)[0] != "alloca" and (addr[0] != "fld" or addr[2:] not in self.keep)

    def __init__(self, prog, zero):
        FsRule.__init__(self, prog)
        self.zero = zero
        self.keep = set()

    def get(self, A, st, t):
        for x in has(st, "rs"):
            if x[1][1] == t or A.same(st, x[1][1], t):
                return x
        f = field_of(t)
        if f is not None:
            self.site("reader kept in a structure used", self._c)
            return ("rs", T(t), BODY, None)
        return None

    def pop(self, A, st, t):
        for x in list(has(st, "rs")):
            if x[1][1] == t or A.same(st, x[1][1], t):
                drop(st, x)

    def state(self, A, st, x):
        """where the reader is"""
        s, r = x[2], x[3]
        if s == "read":
            return BODY if A.nonnull(st, r[1]) else "the end of the silo" if A.isnull(st, r[1]) else "a body or the end of the silo"
        if s == "chunk":
            return CRLF if A.eval(st, rel_eq(r[1], C(0))) is False else "somewhere in a body"
        return s

    def ptr(self, A, st, c):
        a = c.args[0]
        if c.name == "Rsilo_Close":
            a = A.load(st, a)
        return a

    def call(self, A, st, c):
        n = c.name
        if n not in FNS or n == "Rsilo_Open":
            return None
        self._c = c
        t = self.ptr(A, st, c)
        x = self.get(A, st, t)
        if n == "Rsilo_Close":
            self.pop(A, st, t)
            return None
        if x is None:
            A.report(st, c, "a reader is used of which it is not known where it is")
            return None
        if n == "Rsilo_Tell":
            return None
        self.site({"Rsilo_ReadHeader": "header read", "Rsilo_BodyLen": "length of a body asked for", "Rsilo_NextHeader": "body skipped",
                   "Rsilo_SkipCRNL": "separator consumed"}.get(n, "body consumed"), c)
        s = self.state(A, st, x)
        if s != NEED[n]:
            A.report(st, c, "%s is called where the reader is at %s, not %s" % (n, s, NEED[n]))
        return None

    def before(self, A, st, c):
        n = c.name
        if n in FNS and n not in ("Rsilo_Open", "Rsilo_Close", "Rsilo_Tell", "Rsilo_BodyLen"):
            # results of a call made again are not those kept
            for x in list(has(st, "rs")):
                if x[3] is not None and x[3][1] == ("call", c.iid if hasattr(c, "iid") else None):
                    drop(st, x)
                    put(st, "rs", x[1], self.state(A, st, x), None)

    def after(self, A, st, c):
        n = c.name
        FsRule.after(self, A, st, c)
        if n == "Rsilo_Open":
            self.site("reader opened", c)
            self.pop(A, st, c.res)
            put(st, "rs", T(c.res), HEAD, None)
        elif n in FNS and n not in ("Rsilo_Close", "Rsilo_Tell", "Rsilo_BodyLen"):
            t = c.args[0]
            self._c = c
            x = self.get(A, st, t)
            key = x[1] if x is not None else T(t)
            self.pop(A, st, t)
            if n == "Rsilo_ReadHeader":
                put(st, "rs", key, "read", T(c.res))
            elif n in ("Rsilo_ReadChunk", "Rsilo_ReadGZChunk"):
                f = c.args[1]
                if f[0] == "f" and f[1] in self.zero:
                    put(st, "rs", key, CRLF, None)
                else:
                    put(st, "rs", key, "chunk", T(c.res))
            else:
                put(st, "rs", key, HEAD, None)

    def store(self, A, st, addr, val, i):
        if addr[0] != "fld":
            return
        x = call_of(st, val)
        if x is not None and x[0] in ("Rsilo_ReadHeader", "Rsilo_Open"):
            self.keep.add(addr[2:])
        for x in has(st, "rs"):
            if x[1][1] == val:
                self.site("reader kept in a structure", i)
                if self.state(A, st, x) != BODY:
                    A.report(st, i, "a reader is kept which may not be at a body")


def zerocb(p):
    """callbacks which return nothing but 0"""
    out = set()

    class Z(FsRule):
        def ret(self, A, st, val, i):
            if val is None or A.eval(st, rel_eq(val, C(0))) is not True:
                self.bad = True
    for k in p.callbacks_of("Rsilo_ReadChunk", "Rsilo_ReadGZChunk", "GetJob_Iter"):
        z = Z(p)
        z.bad = False
        r = Result("C24")
        r.run(p, k, z)
        if not z.bad:
            out.add(k)
    return out


def run(tier):
    p = Prog()
    res = Result("C24")
    key = lambda n: p.m.named(n).key
    vals = {}
    for n in EXIT:
        r = Probe(p)
        Result("C24").run(p, key(n), r)
        vals[n] = r.vals
    consts = {}
    for n, s in EXIT.items():
        if len(vals[n]) != 1 or not is_c(next(iter(vals[n]))):
            res.add("state:" + n, n, "%s does not set the state of the reader to one value" % n, function=n)
            continue
        consts.setdefault(s, set()).add(next(iter(vals[n]))[1])
    if len(consts) != 3 or any(len(v) != 1 for v in consts.values()) or len(set.union(*consts.values())) != 3:
        res.add("states", "rsilo.c", "the functions of the reader do not agree on its states: %s" % {k: sorted(v) for k, v in consts.items()}, function="Rsilo")
        res.violation = True
        return res
    consts = {k: v.pop() for k, v in consts.items()}
    zero = zerocb(p)
    jobs = [(Reader, key(n), (n, consts)) for n in sorted(FNS - {"Rsilo_Close"})]
    jobs += [(c08.RsiloR, key(n), n) for n in sorted(EXIT)]
    jobs += [(Use, k, zero) for k in p.callers(FNS) if p.m.raw[k]["name"] not in FNS]

    def job(j):
        r = Result("C24")
        r.run(p, j[1], j[0](p, j[2]))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    # the state is nobody else's
    for f in sorted(p.m.raw):
        if not p.m.raw[f].get("decl") and p.m.raw[f]["name"] not in FNS and p.m.raw[f].get("blocks") and p.stores_field(f, *WHERE):
            res.add("where:%s" % f, f, "the state of a reader is changed outside of it", function=f)
    for k, n in (("state known before moving", 5), ("inflated", 2), ("rest given back", 2), ("told", 1), ("state set", 6), ("return of the reader", 7),
                 ("reader opened", 5), ("header read", 5), ("body skipped", 1), ("body consumed", 4), ("separator consumed", 1), ("reader kept in a structure", 1),
                 ("reader kept in a structure used", 3), ("length of a body asked for", 2), ("body length taken", 1), ("separator read", 1)):
        res.need(k, n)
    return res
