"""C14: get succeeds only when the whole payload was delivered and verified.
 (a) the callback which get hands to the retrieval job writes exactly what it
     is given to the output, with the whole of it accepted, adds it to the
     digest (unless the payload is delivered compressed) and to the length
     exactly once, and never asks for the delivery to be ended early;
 (b) get returns 0 only after the retrieval (unless only the headers were
     asked for) went to an output that exists, the output was flushed without
     error, and, unless the payload is delivered compressed, its digest and
     its length were found equal to those recorded with the object: in the
     first header the digest of the payload (of the block if there is none),
     in the last the total length (the length if there is none);
 (c) the retrieval hands every segment, in order, to the reader of bodies, and
     skips the rest only if the callback asked for it;
 (d) the readers hand on all they inflate or read, the former until the end of
     the compressed stream, and read more only when nothing is left of what
     was read before;
 (e) the gzip delivery of segments passes on, or keeps for the end of the
     member, every byte it is fed in order; the checksum and length of each
     member are combined into those of the whole."""
from common import *
from c08 import gbytes

TITLE = "Retrieval succeeds only if the whole verified payload was delivered"
ASSUMES = ["inflate() returns Z_STREAM_END only with the checksum and length of the member verified", "a body is not empty (store refuses "
           "empty input), so that the readers return 0 only if the callback ended the delivery",
           "lookup finds all segments (C13)", "header, length and separator of bodies (C08)"]


class Cb(FsRule):
    """(a)"""
    def __init__(self, prog):
        FsRule.__init__(self, prog)
        self.roles = {}

    def role(self, A, st, where, name, f):
        if self.roles.setdefault(name, f) != f:
            A.report(st, where, "more than one field is used for the same purpose (%s)" % name)

    def call(self, A, st, c):
        n = c.name
        if n == "fwrite":
            self.site("output written", c)
            f = field_of(c.args[3])
            if c.args[0] != ("arg", 1) or has(st, "wr"):
                A.report(st, c, "something else than what the reader delivers is written")
            if f is None or f[2] != ("arg", 0):
                A.report(st, c, "it is not written to the output of the command")
            else:
                self.role(A, st, c, "output", f[:2])
        elif n in ("SHA256Update", "SHA256_Update"):
            self.site("digest updated", c)
            if c.args[1] != ("arg", 1) or not A.same(st, c.args[2], ("arg", 2)) or has(st, "sha"):
                A.report(st, c, "something else than what the reader delivers is added to the digest")
            f = addr_field(c.args[0])
            if f is None or f[2] != ("arg", 0):
                A.report(st, c, "it is not added to the digest of the command")
            else:
                self.role(A, st, c, "digest", f[:2])
            setone(st, "sha")
        return None

    def after(self, A, st, c):
        if c.name == "fwrite":
            ok = c.args[1] == C(1) and A.same(st, c.args[2], ("arg", 2))
            ok2 = c.args[2] == C(1) and A.same(st, c.args[1], ("arg", 2))
            setone(st, "wr", T(c.res), T(("arg", 2) if ok else C(1) if ok2 else C(-1)))

    def store(self, A, st, addr, val, i):
        f = addr_field(addr)
        if f is not None and f[2] == ("arg", 0):
            d = sub(val, A.load(st, addr))
            if d == ("arg", 2):
                self.site("length counted", i)
                self.role(A, st, i, "length", f[:2])
                if has(st, "len"):
                    A.report(st, i, "it is counted twice")
                setone(st, "len")
            else:
                A.report(st, i, "the retrieval's state is changed by something else than counting what was delivered")

    def branch(self, A, st, i, cond):
        f = field_of(cond_about(cond) or ("c", 0))
        if f is not None and f[2] == ("arg", 0) and f[1] != "magic" and A.eval(st, rel_eq(cond_about(cond), C(0))) is False:
            setone(st, "cond", f[:2])

    def ret(self, A, st, val, i):
        self.site("delivered", i)
        if A.eval(st, rel_eq(val, C(0))) is not True:
            A.report(st, i, "the delivery may be ended early without the command failing")
        w = one(st, "wr")
        if w is None or not A.same(st, w[1][1], w[2][1]):
            A.report(st, i, "not all of what the reader delivered is known to have been accepted by the output")
        if not has(st, "len"):
            A.report(st, i, "what was delivered is not counted")
        if not has(st, "sha"):
            c = one(st, "cond")
            if c is None:
                A.report(st, i, "what was delivered is not added to the digest")
            else:
                self.role(A, st, i, "compressed", c[1])


class Get(FsRule):
    """(b)"""
    dull = frozenset(["VSB_data", "VSB_len"])

    def __init__(self, prog, roles):
        FsRule.__init__(self, prog)
        self.roles = roles

    def fld(self, gp, role):
        s, f = self.roles[role]
        return ("fld", gp, s, f)

    def branch(self, A, st, i, cond):
        for t in subterms(cond):
            c = call_of(st, t)
            if c is not None and c[0].endswith("getopt"):
                for o in "nz":
                    if A.eval(st, rel_eq(t, C(ord(o)))) is True:
                        put(st, "opt", o)
            elif c is not None and c[0] in ("fflush", "fclose") and A.eval(st, rel_eq(t, C(0))) is True:
                x = one(st, "flush")
                if x is not None and x[1][1] == t:
                    setone(st, "flushed")
            elif t[0] == "pure" and t[1] in ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp") and A.eval(st, rel_eq(t, C(0))) is True:
                self.compared(A, st, i, t)
            elif t[0] in ("call", "pure") and has(st, "it"):
                n = self.number(t)
                g = one(st, "it")
                if n is not None and A.same(st, t, A.load(st, self.fld(g[1][1], "length"))):
                    self.length(A, st, i, n)

    def number(self, t):
        return t if t[0] == "pure" and t[1] == "Header_Get_Number" else None

    def header(self, A, st, t):
        """(first?, name, job) the text comes from"""
        if t[0] == "pure" and t[1] in ("Header_Get", "Header_Get_Number"):
            h = t[2][0]
            if h[0] == "pure" and h[1] == "GetJob_Header" and is_c(h[2][1]):
                return h[2][1] != C(0), lit(A, st, t[2][1]) or (t[2][1][1] if t[2][1][0] == "s" else None), h
        return None

    def missing(self, A, st, h, name):
        for x in has(st, "miss"):
            if x[1][1] == h and x[2] == name:
                return True
        return False

    def compared(self, A, st, i, t):
        it = one(st, "it")
        if it is None:
            return
        for a, b in (t[2][:2], t[2][1::-1]):
            d = one(st, "dig")
            if d is not None and b == d[1][1]:
                hd = self.header(A, st, add(a, C(-7)))
                n = t[2][2] if len(t[2]) > 2 else C(64)
                if hd is None:
                    A.report(st, i, "the digest is not compared with one recorded with the object")
                elif not (hd[0] and (hd[1] == "WARC-Payload-Digest" or hd[1] == "WARC-Block-Digest" and
                                     self.missing(A, st, hd[2], "WARC-Payload-Digest"))):
                    A.report(st, i, "the digest is not compared with the one recorded for the payload")
                elif not (is_field(n, "aardwarc", "id_size") or is_c(n) and n[1] >= 64):
                    A.report(st, i, "not the whole of the digest is compared")
                else:
                    self.site("digest compared", i)
                    setone(st, "digok")
            hd = self.header(A, st, a)
            if hd is not None and hd[1] in ("Content-Length", "WARC-Segment-Total-Length"):
                parts = A.content(st, b)
                v = A.load(st, self.fld(it[1][1], "length"))
                if t[1] in ("strcmp", "strcasecmp") and parts is not None and len(parts) == 1 and v in subterms(parts[0]):
                    self.length(A, st, i, a)

    def length(self, A, st, i, t):
        hd = self.header(A, st, t)
        if hd is None:
            return
        if hd[0] or not (hd[1] == "WARC-Segment-Total-Length" or hd[1] == "Content-Length" and
                         self.missing(A, st, hd[2], "WARC-Segment-Total-Length")):
            A.report(st, i, "the number of bytes is not compared with the total length")
        else:
            self.site("length compared", i)
            setone(st, "lenok")

    def call(self, A, st, c):
        n = c.name
        if n == "GetJob_Iter":
            self.site("retrieval", c)
            gp = c.args[2]
            dst = A.load(st, self.fld(gp, "output"))
            if c.args[1][0] != "f":
                A.report(st, c, "it cannot be told what the payload is delivered to")
            if not (A.nonnull(st, dst) or dst[0] == "mem" and dst[2] == ("g", "stdout")):
                A.report(st, c, "the output may not have been opened")
            if not any(x[1][1] == self.fld(gp, "digest") for x in has(st, "init")):
                A.report(st, c, "the digest was not initialised")
            o = call_of(st, gp)
            if not (o is not None and o[0] == "calloc" and not has(st, "lenset")) and \
                    A.eval(st, rel_eq(A.load(st, self.fld(gp, "length")), C(0))) is not True:
                A.report(st, c, "the length does not start at zero")
            z = A.load(st, self.fld(gp, "compressed"))
            if not A.same(st, z, c.args[3]):
                A.report(st, c, "what is delivered (compressed or not) is not what the digest is meant for")
            j = one(st, "job")
            if j is None or j[1][1] != c.args[0] or not A.nonnull(st, c.args[0]):
                A.report(st, c, "something is retrieved which was not looked up")
            if has(st, "it"):
                A.report(st, c, "the payload is delivered twice")
            for t in ("flush", "flushed", "dig", "digok", "lenok"):
                droptag(st, t)
            put(st, "it", T(gp), T(c.args[3]))
        elif n in ("fwrite", "fputs", "printf", "fprintf", "puts", "putchar", "fputc") and has(st, "it"):
            it = one(st, "it")
            f = c.args[{"fwrite": 3, "fputs": 1, "fputc": 1, "fprintf": 0}.get(n, 0)] if n not in ("printf", "puts", "putchar") else None
            if f is None or f == A.load(st, self.fld(it[1][1], "output")):
                droptag(st, "flushed")
        elif n in ("exit", "_exit"):
            self.success(A, st, c, c.args[0])

    def after(self, A, st, c):
        n = c.name
        FsRule.after(self, A, st, c)
        if n in ("SHA256Init", "SHA256_Init"):
            put(st, "init", T(c.args[0]))
        elif n in ("SHA256End", "SHA256_End"):
            it = one(st, "it")
            if it is not None:
                if c.args[0] == self.fld(it[1][1], "digest"):
                    setone(st, "dig", T(c.res))
        elif n in ("fflush", "fclose"):
            it = one(st, "it")
            if it is not None and c.args[0] == A.load(st, self.fld(it[1][1], "output")) or c.args[0] == C(0):
                self.site("output flushed", c)
                setone(st, "flush", T(c.res))
            elif it is None:
                setone(st, "flush", T(c.res))
        elif n == "GetJob_New":
            setone(st, "job", T(c.res))
        elif n in ("fopen", "freopen"):
            put(st, "file", T(c.res))

    def store(self, A, st, addr, val, i):
        f = addr_field(addr)
        if f is not None and f[:2] == self.roles["length"] and not has(st, "it") and val != C(0):
            setone(st, "lenset")

    def success(self, A, st, where, val):
        if val is None or A.eval(st, rel_eq(val, C(0))) is False:
            return
        self.site("success", where)
        o = {x[1] for x in has(st, "opt")}
        it = one(st, "it")
        if it is None:
            if "n" not in o:
                A.report(st, where, "success is reported although nothing was delivered")
            return
        for x in has(st, "file"):
            if not A.nonnull(st, x[1][1]):
                A.report(st, where, "success is reported although the output file asked for may not have been opened")
        if not has(st, "flushed"):
            A.report(st, where, "success is reported although the output is not known to have accepted everything")
        if A.nonnull(st, it[2][1]) and "z" in o:
            return
        if not has(st, "digok"):
            A.report(st, where, "success is reported although the digest of the payload was not compared")
        if not has(st, "lenok"):
            A.report(st, where, "success is reported although the length of the payload was not compared")

    def ret(self, A, st, val, i):
        self.success(A, st, i, val)


class GetM(Get):
    """also notes which header fields are missing"""
    def branch(self, A, st, i, cond):
        t = cond_about(cond)
        hd = self.header(A, st, t) if t is not None else None
        if hd is not None and A.isnull(st, t):
            put(st, "miss", T(hd[2]), hd[1])
        Get.branch(self, A, st, i, cond)


class Iter(FsRule):
    """(c)"""
    cursors = frozenset(["cur"])
    walk = Walk("cur", "getjob", "segs", "getjobseg", "list")

    def start(self, A):
        return frozenset([("cur", T(HEAD), T(("arg", 0)))])

    def call(self, A, st, c):
        n = c.name
        if n in ("Rsilo_ReadChunk", "Rsilo_ReadGZChunk"):
            self.site("body read", c)
            f = field_of(c.args[0])
            if f is None or f[:2] != ("getjobseg", "rs") or not self.walk.at(A, st, f[2]):
                A.report(st, c, "what is delivered is not the next segment of the object")
            g = one(st, "gs")
            if not (c.args[1] == ("arg", 1) and c.args[2] == ("arg", 2) or
                    c.args[1][0] == "f" and self.p.cbname(c.args[1][1]) == "gzip_stitch_feed" and g is not None and c.args[2] == g[1][1]):
                A.report(st, c, "the payload is not delivered to the callback")
            v = A.eval(st, rel_eq(("arg", 3), C(0)))
            if (n == "Rsilo_ReadChunk") != (v is True) or v is None:
                A.report(st, c, "the payload is not delivered as asked for, compressed or not")
            x = one(st, "cur")
            if x is not None and x[1][1] != HEAD and g is None and v is False or has(st, "many") and g is None and v is False:
                A.report(st, c, "more than one compressed segment is delivered without making one gzip member of them")
            if v is False:
                setone(st, "many")
        elif n == "gzip_stitch_new":
            if c.args[0] != ("arg", 1) or c.args[1] != ("arg", 2):
                A.report(st, c, "the gzip delivery does not deliver to the callback")
        elif n == "gzip_stitch_fini":
            g = one(st, "gs")
            if g is None or g[1][1] != c.args[0]:
                A.report(st, c, "a gzip delivery is ended which was not begun")
            self.done(A, st, c)
            droptag(st, "gs")
            setone(st, "fin")

    def after(self, A, st, c):
        n = c.name
        if n in ("Rsilo_ReadChunk", "Rsilo_ReadGZChunk"):
            f = field_of(c.args[0])
            if f is not None and has(st, "cur"):
                self.walk.step(A, st, f[2])
            setone(st, "last", T(c.res))
            setone(st, "n", 2 if has(st, "n") else 1)
        elif n == "gzip_stitch_new":
            setone(st, "gs", T(c.res))

    def branch(self, A, st, i, cond):
        for t in subterms(cond):
            if is_field(t, "getjob", "nsegs") and A.eval(st, rel_eq(t, C(1))) is True:
                setone(st, "single")
        l = one(st, "last")
        if l is not None and A.eval(st, rel_eq(l[1][1], C(0))) is True:
            setone(st, "refused")
        elif self.walk.atend(A, st):
            setone(st, "end")

    def done(self, A, st, where):
        self.site("delivery ended", where)
        x = one(st, "n")
        if has(st, "refused") or has(st, "end") or self.walk.atend(A, st) or has(st, "single") and x is not None and x[1] == 1:
            return
        A.report(st, where, "the delivery ends although not all segments are known to have been delivered")

    def ret(self, A, st, val, i):
        if has(st, "gs"):
            A.report(st, i, "the gzip delivery is not ended")
        if not has(st, "fin"):
            self.done(A, st, i)


class Chunk(FsRule):
    """(d) the inflating reader"""
    def z(self, A, st, z, f):
        return A.load(st, ("fld", z, "z_stream_s", f))

    def before(self, A, st, c):
        n = c.name
        if n == "inflate":
            self.delivered(A, st, c)
            self.site("inflated", c)
            z = c.args[0]
            r = one(st, "rd")
            av = self.z(A, st, z, "avail_in")
            if r is not None:
                if self.z(A, st, z, "next_in") != r[2][1] or not A.same(st, av, r[1][1]):
                    A.report(st, c, "what is inflated is not what was read")
                droptag(st, "rd")
            if A.eval(st, rel_eq(self.z(A, st, z, "avail_out"), C(0))) is True:
                A.report(st, c, "there is no room for output")
            setone(st, "out", T(z), T(self.z(A, st, z, "next_out")), T(self.z(A, st, z, "avail_out")))
            if not has(st, "in"):
                setone(st, "in")
        elif n == "read":
            if has(st, "rd"):
                A.report(st, c, "what was read was not used")
            o = one(st, "res")
            if o is not None and A.eval(st, rel_eq(self.z(A, st, o[2][1], "avail_in"), C(0))) is not True:
                A.report(st, c, "more is read although what was read before may not have been used up")
        elif c.fptr is not None:
            self.site("delivered", c)
            o = one(st, "out")
            if c.fptr != ("arg", 1) or c.args[0] != ("arg", 2):
                A.report(st, c, "the body is not delivered to the callback")
            if o is None or not A.same(st, c.args[1], o[2][1]) or \
                    not A.same(st, c.args[2], sub(o[3][1], self.z(A, st, o[1][1], "avail_out"))):
                A.report(st, c, "what is delivered is not what was inflated")
            droptag(st, "out")

    def after(self, A, st, c):
        n = c.name
        if n == "inflate":
            setone(st, "res", T(c.res), T(c.args[0]))
            droptag(st, "cb")
        elif n == "read":
            setone(st, "rd", T(c.res), T(c.args[1]))
        elif c.fptr is not None:
            setone(st, "cb", T(c.res))

    def delivered(self, A, st, where):
        o = one(st, "out")
        if o is not None:
            if not A.le(st, o[3][1], self.z(A, st, o[1][1], "avail_out")):
                A.report(st, where, "what was inflated may not have been delivered")
            droptag(st, "out")

    def store(self, A, st, addr, val, i):
        o = one(st, "out")
        if o is not None and addr == ("fld", o[1][1], "z_stream_s", "avail_out"):
            self.delivered(A, st, i)

    def branch(self, A, st, i, cond):
        o = one(st, "out")
        if o is not None and A.le(st, o[3][1], self.z(A, st, o[1][1], "avail_out")):
            droptag(st, "out")
        r = one(st, "res")
        if r is not None and A.eval(st, rel_eq(r[1][1], C(1))) is True:
            setone(st, "end")
        b = one(st, "cb")
        if b is not None and A.eval(st, rel_eq(b[1][1], C(0))) is False:
            setone(st, "refused")

    def ret(self, A, st, val, i):
        self.site("body read to its end", i)
        self.delivered(A, st, i)
        if not has(st, "end") and not has(st, "refused"):
            A.report(st, i, "reading a body ends although neither its end was found nor the callback asked for it")
        if val is not None and not has(st, "refused") and A.eval(st, rel_eq(val, C(0))) is True:
            A.report(st, i, "a body that was delivered is taken for one that was refused")


class GZChunk(FsRule):
    """(d) the reader of compressed bodies"""
    def before(self, A, st, c):
        if c.name == "read":
            self.used(A, st, c)
        elif c.fptr is not None:
            self.site("compressed delivered", c)
            r = one(st, "rd")
            if c.fptr != ("arg", 1) or c.args[0] != ("arg", 2):
                A.report(st, c, "the body is not delivered to the callback")
            if r is None or c.args[1] != r[2][1] or not A.same(st, c.args[2], r[1][1]):
                A.report(st, c, "what is delivered is not what was read")
            droptag(st, "rd")

    def after(self, A, st, c):
        if c.name == "read":
            setone(st, "rd", T(c.res), T(c.args[1]))
        elif c.fptr is not None:
            setone(st, "cb", T(c.res))

    def used(self, A, st, where):
        if has(st, "rd"):
            A.report(st, where, "what was read was not delivered")

    def branch(self, A, st, i, cond):
        b = one(st, "cb")
        if b is not None and A.eval(st, rel_eq(b[1][1], C(0))) is False:
            setone(st, "refused")

    def ret(self, A, st, val, i):
        self.site("compressed body read to its end", i)
        self.used(A, st, i)
        if not has(st, "refused"):
            if A.eval(st, rel_le0(A.load(st, ("fld", ("arg", 0), "rsilo", "silo_bodylen")))) is not True:
                A.report(st, i, "reading a body ends although neither its end was found nor the callback asked for it")


class Stitch(FsRule):
    """(e)"""
    cursors = frozenset(["F", "R"])
    dull = frozenset(["le32dec", "crc32_combine"])

    def dullmem(self, addr):
        if addr[0] == "fld" and addr[2] == "gzip_stitch":
            return False
        return not self.tail(addr) and not (addr[0] == "fld" and addr[2] == "gzip_stitch")

    def start(self, A):
        return frozenset([("F", T(("arg", 1))), ("R", T(("arg", 2)))])

    def move(self, st, n):
        F, R = one(st, "F"), one(st, "R")
        if F is not None:
            drop(st, F)
            put(st, "F", T(add(F[1][1], n)))
        if R is not None:
            drop(st, R)
            put(st, "R", T(sub(R[1][1], n)))

        d = one(st, "due")
        setone(st, "due", T(add(d[1][1] if d else C(0), n)))

    def left(self, A, st):
        """what is left of the member according to the job, without what is due"""
        d = one(st, "due")
        v = A.load(st, ("fld", ("arg", 0), "gzip_stitch", "gzlen"))
        return sub(v, d[1][1]) if d else v

    def at(self, A, st, p):
        F = one(st, "F")
        return F is not None and A.same(st, F[1][1], p)

    def dullread(self, addr):
        return self.dullmem(addr)

    def tail(self, t):
        return t[0] == "fld" and t[2:] == ("gzip_stitch", "tailbuf") or t[0] == "lin" and any(self.tail(x) for x, _ in t[2])

    def call(self, A, st, c):
        n = c.name
        if c.fptr is not None:
            f = field_of(c.fptr)
            if f is None or f[1] != "func" or not is_field(c.args[0], "gzip_stitch", "priv"):
                A.report(st, c, "something is delivered to something else than the callback")
            elif self.tail(c.args[1]):
                self.site("tail passed on", c)
                if c.args[1][0] == "lin" or c.args[2] not in (C(3),):
                    A.report(st, c, "what is passed on of the end of a member is not all of it before the empty last block")
                for k, v in ((3, 3), (4, 0)):
                    if A.eval(st, rel_eq(A.load(st, add(c.args[1], C(k))), C(v))) is not True:
                        A.report(st, c, "something is left out of the end of a member which is not known to be its empty last block")
                        break
                droptag(st, "held")
            else:
                self.site("passed on", c)
                if not self.at(A, st, c.args[1]):
                    A.report(st, c, "what is passed on does not start where the previous ended")
                if not A.le(st, c.args[2], sub(self.left(A, st), C(13))):
                    A.report(st, c, "the end of a member may be passed on with the rest of it")
                self.move(st, c.args[2])
        elif n in ("llvm.memcpy.p0.p0.i64", "memcpy", "memmove"):
            if self.tail(c.args[0]):
                self.site("kept", c)
                if not self.at(A, st, c.args[1]):
                    A.report(st, c, "what is kept does not start where the previous ended")
                if sub(c.args[0], ("fld", ("arg", 0), "gzip_stitch", "tailbuf")) != sub(C(13), self.left(A, st)):
                    A.report(st, c, "the end of a member is not kept in order")
                self.move(st, c.args[2])
                setone(st, "held")
        elif n == "le64dec":
            if self.at(A, st, add(c.args[0], C(-16))):
                self.site("header skipped", c)
                self.move(st, C(24))
        elif n == "crc32_combine":
            self.site("checksum combined", c)
            g = ("arg", 0)
            ok = is_field(c.args[0], "gzip_stitch", "crc")
            for a, k in ((c.args[1], 5), (c.args[2], 9)):
                ok = ok and a[0] == "pure" and a[1] == "le32dec" and self.tail(a[2][0]) and sub(a[2][0], ("fld", g, "gzip_stitch", "tailbuf")) == C(k)
            if not ok:
                A.report(st, c, "the checksum is not combined with those of the member and its length")
            setone(st, "crc", T(c.res), T(c.args[2]))

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] == "gzip_stitch":
            if addr[3] == "crc":
                if val[0] == "call" or val[0] == "pure":
                    setone(st, "crcset", T(val))
            elif addr[3] == "l_crc":
                d = sub(val, A.load(st, addr))
                setone(st, "lset", T(d))
            elif addr[3] == "gzlen":
                x = one(st, "due")
                if val[0] == "pure" and val[1] == "le64dec":
                    droptag(st, "due")
                    setone(st, "due", T(C(24)))
                else:
                    if x is None or not A.same(st, sub(A.load(st, addr), val), x[1][1]):
                        A.report(st, i, "the length left of the member is not reduced by what was taken of it")
                    droptag(st, "due")
            elif addr[3] == "state" and "TAIL" in str(lit(A, st, val) or val):
                if A.eval(st, rel_eq(self.left(A, st), C(13))) is not True:
                    A.report(st, i, "the end of a member does not begin where it should")
            elif addr[3] == "state" and "OUTSIDE" in str(lit(A, st, val) or val):
                self.site("member ended", i)
                c, l, x = one(st, "crc"), one(st, "lset"), one(st, "crcset")
                if c is None or l is None or x is None or x[1][1] != c[1][1] or l[1][1] != c[2][1]:
                    A.report(st, i, "a member ends without its checksum and length having been added to those of the whole")
                if has(st, "held"):
                    for k, v in ((0, 1), (1, 0), (2, 0), (3, 255), (4, 255)):
                        b = A.load(st, add(("fld", ("arg", 0), "gzip_stitch", "tailbuf"), C(k)))
                        if A.eval(st, rel_eq(b, C(v))) is not True and A.eval(st, rel_eq(b, C(v - 256 if v > 127 else v))) is not True:
                            A.report(st, i, "something is left out of the end of a member which is not known to be its empty last block")
                            break
                for t in ("crc", "lset", "crcset", "held"):
                    droptag(st, t)

    def ret(self, A, st, val, i):
        R = one(st, "R")
        if A.eval(st, rel_eq(val, C(0))) is False:
            return
        self.site("all consumed", i)
        if val[0] != "c" and R is not None and R[1][1] == ("arg", 2) and A.eval(st, rel_eq(val, C(0))) is not True and \
                A.eval(st, rel_le0(("arg", 2))) is not True:
            return
        if R is None or not A.le(st, R[1][1], C(0)):
            A.report(st, i, "not everything fed to the gzip delivery was passed on or kept")


class Fini(FsRule):
    def store(self, A, st, addr, val, i):
        if is_c(val):
            for x in has(st, "b"):
                if x[1][1] == addr:
                    drop(st, x)
            put(st, "b", T(addr), int(val[1]) & 255)

    def call(self, A, st, c):
        n = c.name
        if n == "le32enc":
            put(st, "enc", T(c.args[0]), T(c.args[1]))
        elif n in ("llvm.memcpy.p0.p0.i64", "memcpy", "memmove") and c.args[1][0] == "g" and is_c(c.args[2]):
            b = gbytes(self.p, c.args[1][1])
            for k in range(int(c.args[2][1]) if b else 0):
                self.store(A, st, add(c.args[0], C(k)), C(b[k]), None)
        elif is_field(c.fptr, "gzip_stitch", "func") if c.fptr is not None else False:
            self.site("trailer delivered", c)
            b = c.args[1]
            want = {5: "crc", 9: "l_crc"}
            for k, f in want.items():
                if not any(x[1][1] == add(b, C(k)) and is_field(x[2][1], "gzip_stitch", f) for x in has(st, "enc")):
                    A.report(st, c, "the trailer delivered does not hold the checksum and length of the whole")
            for k, v in ((0, 1), (1, 0), (2, 0), (3, 255), (4, 255)):
                if not any(x[1][1] == add(b, C(k)) and x[2] == v for x in has(st, "b")):
                    A.report(st, c, "the trailer delivered does not begin with an empty last block")
                    break
            if c.args[2] != C(13):
                A.report(st, c, "not the whole trailer is delivered")


def run(tier):
    p = Prog()
    res = Result("C14")
    key = lambda n: p.m.named(n).key
    get = key("main_get")
    cbs = set()
    for b in p.m.raw[get]["blocks"]:
        for i in b:
            if i["op"] == "call" and i.get("fn") == "GetJob_Iter":
                o = i["ops"][1]
                if o[0] != "f":
                    raise AnalysisError("C14: the callback of the retrieval is not a constant")
                cbs.add(o[1])
    if len(cbs) != 1:
        raise AnalysisError("C14: %d callbacks for the retrieval" % len(cbs))
    cb = Cb(p)
    res.run(p, cbs.pop(), cb)
    if set(cb.roles) != {"output", "digest", "length", "compressed"}:
        if res.violations:
            return res
        raise AnalysisError("C14: roles of the fields not found: %s" % cb.roles)
    jobs = [(get, GetM, cb.roles), (key("GetJob_Iter"), Iter, None), (key("Rsilo_ReadChunk"), Chunk, None), (key("Rsilo_ReadGZChunk"), GZChunk, None),
            (key("gzip_stitch_feed"), Stitch, None), (key("gzip_stitch_fini"), Fini, None)]

    def job(k):
        r = Result("C14")
        r.run(p, k[0], k[1](p, k[2]) if k[2] else k[1](p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for k, n in (("output written", 1), ("digest updated", 1), ("length counted", 1), ("delivered", 2), ("retrieval", 1), ("digest compared", 1),
                 ("length compared", 1), ("output flushed", 1), ("success", 1), ("body read", 3), ("delivery ended", 1), ("inflated", 1),
                 ("body read to its end", 1), ("compressed delivered", 1), ("compressed body read to its end", 1), ("passed on", 1), ("kept", 1), ("header skipped", 1), ("checksum combined", 1),
                 ("member ended", 1), ("tail passed on", 1), ("all consumed", 1), ("trailer delivered", 1)):
        res.need(k, n)
    return res
