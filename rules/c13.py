"""C13: the segments of a large object are chained completely.
Committing (functions which call Wsilo_Commit for the segments of a job):
 (a) the segments are committed in the order of the list, each exactly once
     and the last one included; a record is committed as not segmented only if
     the job has one segment, and then without a continuation key;
 (b) each is committed under the ID in its own header, with the ID in the header
     of its successor as the continuation key, none for the last one;
 (c) before its commit the first gets the segment number 1, every other one the
     ID of the first as origin; the last one, and only it, the total length
     with the final size of the job; only the first gets the payload digest.
Starting a segment: its number is one more than the number of segments before
and becomes that number, it is added at the end of the list, and each but the
first gets that number and the type continuation before room is made for its header.
Retrieving: the function called for each index entry accepts the first record
only if its ID is the one wanted and it is not a later segment, any other only
if it names the object as its origin and its number is one more than that of the
segment before; it keeps the entry's flags and continuation key. A job is
returned only if the entry accepted last is not segmented or is the last
segment, and each further lookup uses the continuation key of that entry."""
from common import *

TITLE = "Segments of a large object are chained completely"
ASSUMES = ["Wsilo_Commit records what it is given (C12)", "IDX_Iter calls the function for every entry matching the key (C11)"]

SEGMENTED, FIRSTSEG, LASTSEG = 16, 32, 64


def sf(base, f, s="segment"):
    return ("fld", base, s, f)


class R13(FsRule):
    cursors = frozenset(["ab"])
    walk = Walk("ab", "segjob", "segments", "segment", "list")

    def sets(self, st, h, name):
        return [x for x in has(st, "set") if x[1][1] == h and x[2] == name]

    def call(self, A, st, c):
        n = c.name
        if n in ("Header_Set", "Header_Set_Ref", "Header_Delete"):
            k = lit(A, st, c.args[1])
            if k not in ("WARC-Segment-Number", "WARC-Segment-Origin-ID", "WARC-Segment-Total-Length", "WARC-Payload-Digest"):
                return None
            h = c.args[0]
            for x in self.sets(st, h, k):
                drop(st, x)
            ok = False
            if n == "Header_Set" and k == "WARC-Segment-Number":
                ok = lit(A, st, c.args[2]) == "1" or lit(A, st, c.args[2]) == "%d" and c.args[3] == C(1)
            elif n == "Header_Set_Ref" and k == "WARC-Segment-Origin-ID":
                g = hdrid(c.args[2])
                ok = g is not None and A.same(st, g, self.first(A, st))
            elif n == "Header_Set" and k == "WARC-Segment-Total-Length":
                ok = lit(A, st, c.args[2]) in ("%jd", "%ld", "%lld") and \
                    A.same(st, c.args[3], A.load(st, sf(("arg", 0), "size", "segjob")))
            elif n == "Header_Set" and k == "WARC-Payload-Digest":
                ok = True
                self.site("payload digest", c)
                if not A.same(st, h, self.first(A, st)):
                    A.report(st, c, "the payload digest is not recorded with the first segment")
            if not ok:
                A.report(st, c, "%s is not set to the right value" % k)
            self.site("header field", c)
            put(st, "set", T(h), k)
        elif n == "Wsilo_Commit":
            self.commit(A, st, c)
        return None

    def load(self, A, st, addr, val, i):
        """segments are numbered in the order of the list (see starting a segment)"""
        if addr[0] == "fld" and addr[2:] == ("segment", "segno"):
            x = one(st, "ab")
            if x is None:
                if A.same(st, addr[1], A.load(st, self.walk.headaddr(("arg", 0)))):
                    return A.assume(st, rel_eq(val, C(1)), True)
            elif self.walk.at(A, st, addr[1]):
                if x[1][1] == HEAD:
                    return A.assume(st, rel_eq(val, C(1)), True)
                return A.assume(st, rel_le0(sub(C(2), val)), True)
        elif one(st, "ab") is not None and one(st, "ab")[1][1] != HEAD and \
                addr == self.walk.headaddr(("arg", 0)) and not A.isnull(st, self.walk.cur(A, st)):
            return A.assume(st, rel_eq(val, self.walk.cur(A, st)), False)
        return None

    def first(self, A, st):
        x = one(st, "first")
        return x[1][1] if x else A.load(st, sf(A.load(st, self.walk.headaddr(("arg", 0))), "hdr"))

    def commit(self, A, st, c):
        a = c.args[0]
        if a[0] != "fld" or a[3] != "silo":
            A.report(st, c, "what is committed is not the silo of a segment")
            return
        X = a[1]
        self.site("commit", c)
        if one(st, "ab") is None:
            self.walk.start(st, ("arg", 0))
            put(st, "first", T(A.load(st, sf(A.load(st, self.walk.headaddr(("arg", 0))), "hdr"))))
        if not self.walk.at(A, st, X):
            A.report(st, c, "the segments are not committed in their order, each once")
            return
        h = A.load(st, sf(X, "hdr"))
        fh = self.first(A, st)
        isfirst = one(st, "ab")[1][1] == HEAD
        self.walk.step(A, st, X)
        g = hdrid(c.args[2])
        if g is None or not A.same(st, g, h):
            A.report(st, c, "a segment is not committed under the ID in its own header")
        nx = A.load(st, self.walk.nextaddr(X))
        last = A.isnull(st, nx)
        if A.eval(st, rel_eq(c.args[1], C(0))) is True:
            if not A.le(st, A.load(st, sf(("arg", 0), "nseg", "segjob")), C(1)):
                A.report(st, c, "a record is committed as not segmented although the object may have more than one segment")
            if not A.isnull(st, c.args[3]):
                A.report(st, c, "a record which is not segmented is given a continuation key")
            setone(st, "single")
            return
        tl = bool(self.sets(st, h, "WARC-Segment-Total-Length"))
        if last:
            self.site("last", c)
            if not A.isnull(st, c.args[3]):
                A.report(st, c, "the last segment is given a continuation key")
            if not tl:
                A.report(st, c, "the last segment is committed without the total length")
        elif A.nonnull(st, nx):
            self.site("not last", c)
            g = hdrid(c.args[3])
            if g is None or not A.same(st, g, A.load(st, sf(nx, "hdr"))):
                A.report(st, c, "the continuation key of a segment is not the ID of the next one")
            if tl:
                A.report(st, c, "the total length is recorded with a segment which is not the last")
        else:
            A.report(st, c, "a segment is committed without finding out if it is the last one")
        num = self.sets(st, h, "WARC-Segment-Number")
        if isfirst:
            if not num:
                A.report(st, c, "the first segment is committed without its number")
            if self.sets(st, h, "WARC-Segment-Origin-ID"):
                A.report(st, c, "the first segment is given an origin")
        else:
            if num:
                A.report(st, c, "the number of a segment which is not the first is changed to 1")
            if not self.sets(st, h, "WARC-Segment-Origin-ID"):
                A.report(st, c, "a segment which is not the first is committed without its origin")
        for x in has(st, "set"):
            drop(st, x)

    def branch(self, A, st, i, cond):
        x = one(st, "ab")
        if x is not None and not has(st, "all") and self.walk.atend(A, st):
            setone(st, "all")
            droptag(st, "ab")
            droptag(st, "first")

    def ret(self, A, st, val, i):
        if has(st, "ab") and not has(st, "all") and not has(st, "single"):
            if not self.walk.atend(A, st):
                A.report(st, i, "not all segments may have been committed")


class R13n(FsRule):
    """starting a segment"""
    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] == "segment" and addr[3] == "segno":
            self.site("number", i)
            n = A.load(st, sf(("arg", 0), "nseg", "segjob"))
            if one(st, "inc") is None or not A.same(st, val, one(st, "inc")[1][1]):
                A.report(st, i, "the number of a segment is not one more than the number of those before")
            x = one(st, "inc")
            self.done(A, st, i)
            if x is not None:
                put(st, *x)
            setone(st, "seg", T(addr[1]), T(val))
        elif addr[0] == "fld" and addr[2] == "segjob" and addr[3] == "nseg":
            if not A.same(st, val, add(A.load(st, addr), C(1))):
                A.report(st, i, "the number of segments does not grow by one")
            setone(st, "inc", T(val))
        else:
            x = one(st, "seg")
            if x is not None and val == x[1][1]:
                k = memkey(addr)
                h = ("fld", ("fld", ("arg", 0), "segjob", "segments"), "anon", "#0")
                l = A.load(st, ("fld", ("fld", ("arg", 0), "segjob", "segments"), "anon", "#1"))
                if addr == h and not A.isnull(st, A.load(st, h)) and l != h:
                    A.report(st, i, "a segment is not added at the end of the list")
                if addr == h or addr == l or A.same(st, addr, l):
                    setone(st, "linked")
                    self.complete(A, st, i)
        return None

    def call(self, A, st, c):
        n = c.name
        x = one(st, "seg")
        if n == "Header_Set" and x is not None:
            k = lit(A, st, c.args[1])
            if k == "WARC-Segment-Number":
                if lit(A, st, c.args[2]) not in ("%d", "%u") or not A.same(st, c.args[3], x[2][1]):
                    A.report(st, c, "the number of the segment recorded is not its number")
                setone(st, "num", T(c.args[0]))
            elif k == "WARC-Type":
                if lit(A, st, c.args[2]) != "continuation":
                    A.report(st, c, "the type of a segment is changed")
                setone(st, "typ", T(c.args[0]))
        elif n == "Wsilo_Header" and x is not None:
            self.site("header", c)
            h = c.args[1]
            f = A.eval(st, rel_eq(x[2][1], C(1)))
            both = all(one(st, k) is not None and A.same(st, one(st, k)[1][1], h) for k in ("num", "typ"))
            if f is not True and not both:
                A.report(st, c, "a segment which may not be the first gets no number and type continuation")
            if f is not False and any(A.same(st, x[1][1], h) for x in has(st, "num") + has(st, "typ")):
                A.report(st, c, "the first segment is made a continuation")
            if not A.same(st, h, A.load(st, sf(x[1][1], "hdr"))):
                A.report(st, c, "the header is not the one of the segment")
            setone(st, "hdr")
            self.complete(A, st, c)
        elif n == "SHA256Update":
            self.done(A, st, c)
        return None

    def complete(self, A, st, c):
        if has(st, "linked") and has(st, "hdr"):
            self.done(A, st, c)

    def done(self, A, st, c):
        if has(st, "seg"):
            if not has(st, "linked") or not has(st, "hdr"):
                A.report(st, c, "a segment is not put in the list with its header")
            for t in ("seg", "inc", "num", "typ", "hdr", "linked"):
                droptag(st, t)

    def ret(self, A, st, val, i):
        self.done(A, st, i)


class R13g(FsRule):
    """accepting a record found in the index"""
    def stores(self, A, st):
        return {x[1]: x[2][1] for x in has(st, "fld")}

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] == "getjobseg" and addr[3] in ("rs", "hdr", "idx_flag", "idx_cont", "segno"):
            for x in has(st, "fld"):
                if x[1] == addr[3]:
                    drop(st, x)
            put(st, "fld", addr[3], T(val))
        return None

    def call(self, A, st, c):
        n = c.name
        if n == "Rsilo_Open":
            if not A.same(st, c.args[2], ("arg", 3)) or not A.same(st, c.args[3], ("arg", 4)):
                A.report(st, c, "the record is not read from where the index says")
        return None

    def after(self, A, st, c):
        n = c.name
        if n == "Rsilo_Open":
            setone(st, "rs", T(c.res))
        elif n in ("Rsilo_ReadHeader", "Rsilo_NextHeader"):
            setone(st, "hdr", T(c.res))
        elif n == "strdup":
            put(st, "dup", T(c.res), T(c.args[0]))
        elif n == "Header_Get" and lit(A, st, c.args[1]) == "WARC-Segment-Origin-ID":
            setone(st, "origin", T(c.res), T(c.args[0]))
        elif n == "Header_Get_Number" and lit(A, st, c.args[1]) == "WARC-Segment-Number":
            setone(st, "no", T(c.res), T(c.args[0]))
        return None

    def branch(self, A, st, i, cond):
        learnflags(A, st, "flags", cond, lambda t: t == ("arg", 2))
        x = cond_about(cond)
        if x is None:
            return
        for t in [x] + list(leaves(x)):
            if t[0] == "pure" and t[1] in ("strcasecmp", "strcmp", "strncasecmp", "strncmp", "memcmp") and \
                    A.eval(st, rel_eq(t, C(0))) is True:
                put(st, "eq", t[1], *[T(a) for a in t[2]])
        no = one(st, "no")
        if no is not None and not has(st, "next"):
            n = self.nextno(A, st, no[1][1], x)
            if n is not None:
                setone(st, "next", T(n))

    def known(self, A, st):
        """comparisons known to have found equality"""
        for x in has(st, "eq"):
            yield x[1], [a[1] for a in x[2:]]

    def ret(self, A, st, val, i):
        if val is None or A.le(st, val, C(0)):
            return
        self.site("accepted", i)
        f = self.stores(A, st)
        rs, hd = one(st, "rs"), one(st, "hdr")
        gid = ("fld", ("arg", 0), "getjob", "id")
        gidv = A.load(st, gid)
        cmpd = list(self.known(A, st))
        eqid = any(n in ("strcasecmp", "strcmp") and any(hdrid(a[k]) is not None and hd is not None and A.same(st, hdrid(a[k]), hd[1][1])
                   and A.same(st, a[1 - k], gidv) for k in (0, 1)) for n, a in cmpd)
        og, no = one(st, "origin"), one(st, "no")
        eqor = og is not None and any(
            n in ("strncasecmp", "strncmp", "strcasecmp", "memcmp") and any(
                og[1][1] in ([a[k]] + list(leaves(a[k]))) and A.same(st, a[1 - k], gidv) for k in (0, 1)) and
            (len(a) < 3 or is_field(a[2], "aardwarc", "id_size") or a[2][0] == "mem") for n, a in cmpd)
        if not eqid and not eqor:
            A.report(st, i, "a record is accepted which neither has the ID wanted nor names it as its origin")
        elif eqid:
            self.site("first", i)
            if any(v & SEGMENTED and not v & FIRSTSEG for v in flagvals(st, "flags")):
                A.report(st, i, "a record is accepted as the first which may be a later segment")
        else:
            self.site("continuation", i)
            if no is None or not has(st, "next"):
                A.report(st, i, "a segment is accepted whose number is not known to be one more than that of the one before")
        if f.get("idx_flag") is None or not A.same(st, f["idx_flag"], ("arg", 2)):
            A.report(st, i, "the flags of the entry are not kept")
        k = f.get("idx_cont")
        if k is None or not any(x[1][1] == k and A.same(st, x[2][1], ("arg", 5)) for x in has(st, "dup")):
            A.report(st, i, "the continuation key of the entry is not kept")
        if rs is None or f.get("rs") is None or not A.same(st, f["rs"], rs[1][1]) or hd is None or \
                f.get("hdr") is None or not A.same(st, f["hdr"], hd[1][1]):
            A.report(st, i, "the reader and header kept are not those of the record")
        s = f.get("segno")
        if s is None or not (eqid and s == C(1) or not eqid and no is not None and self.trunced(A, st, s, no[1][1])):
            A.report(st, i, "the number kept is not the number of the segment")

    def trunced(self, A, st, s, n):
        x = one(st, "next")
        return s == n or n in list(leaves(s)) or x is not None and A.same(st, s, x[1][1])

    def nextno(self, A, st, n, x):
        """n is known to be one more than the number of a segment, by a comparison of x"""
        for l in [x] + list(leaves(x)):
            if is_field(l, "getjobseg", "segno"):
                for m in [n] + [t for t in leaves(x) if n in leaves(t)]:
                    if A.eval(st, rel_eq(m, add(l, C(1)))) is True:
                        return add(l, C(1))
        return None


class R13j(FsRule):
    """following the chain"""
    def call(self, A, st, c):
        if c.name == "IDX_Iter":
            self.site("lookup", c)
            k = c.args[1]
            if has(st, "looked"):
                if not any(x[1][1] == k for x in has(st, "cont")):
                    A.report(st, c, "a further lookup does not use the continuation key of the entry before")
                if has(st, "end"):
                    A.report(st, c, "a further lookup is made after the last segment")
            droptag(st, "end")
            droptag(st, "flags")
            droptag(st, "cont")
            setone(st, "looked")
            setone(st, "job", T(c.args[3]))
        return None

    def load(self, A, st, addr, val, i):
        j = one(st, "job")
        if j is not None and addr[0] == "fld" and addr[2:] == ("getjobseg", "idx_cont"):
            seg = ("fld", j[1][1], "getjob", "segs")
            for t in ("#1", "#1", None):
                seg = A.load(st, ("fld", seg, "anon", t) if t else seg)
            if A.same(st, seg, addr[1]):
                put(st, "cont", T(val))
        return None

    def after(self, A, st, c):
        if c.name == "IDX_Iter":
            setone(st, "res", T(c.res))
        return None

    def branch(self, A, st, i, cond):
        learnflags(A, st, "flags", cond, lambda t: is_field(t, "getjobseg", "idx_flag"))
        if not any(v & SEGMENTED and not v & LASTSEG for v in flagvals(st, "flags")):
            setone(st, "end")

    def ret(self, A, st, val, i):
        if val is None or A.isnull(st, val):
            return
        self.site("returned", i)
        r = one(st, "res")
        if r is None or not A.le(st, C(1), r[1][1]):
            A.report(st, i, "a job is returned although the last lookup may not have found anything")
        if not has(st, "end"):
            A.report(st, i, "a job is returned although its last segment may not have been found")


def run(tier):
    p = Prog()
    res = Result("C13")
    jobs = [(R13, k) for k in p.callers({"Wsilo_Commit"})] + \
        [(R13n, k) for k in p.callers({"Wsilo_Header"}) if p.calls_in(k) & {"Header_Clone"}] + \
        [(R13g, k) for k in p.callbacks_of("IDX_Iter") if p.calls_in(k) & {"Header_Get_Number"}] + \
        [(R13j, k) for k in p.callers({"IDX_Iter"}) if p.m.raw[k]["name"] == "GetJob_New"]

    def job(k):
        r = Result("C13")
        r.run(p, k[1], k[0](p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for k in ("commit", "last", "not last", "header field", "payload digest", "number", "header", "accepted", "first",
              "continuation", "lookup", "returned"):
        res.need(k, 1)
    return res
