"""C16: digests, length and ID describe exactly the stored bytes.
In the function which compresses a job's input (it calls deflate and
SHA256_Update on the same job), on every path:
 (a) input is taken in pieces: each piece is given to deflate (next_in,
     avail_in), to the segment digest and to the payload digest exactly once
     with the same start and length, and the same length is added exactly once
     to the segment's size and to the job's size; it starts where the previous
     piece ended, is not longer than what is left, and is taken only when
     deflate has consumed the previous one;
 (b) the function returns only when all the input it was given was taken and
     deflate has consumed it;
 (c) deflate writes into space obtained from a silo since the last store to
     it, and what it wrote is stored in that silo, in full, before more space is
     obtained or deflate continues or ends; a segment is ended with Z_FINISH
     and the separator;
 (d) when a segment is finished its Content-Length is the segment's size, its
     block digest the final value of the segment digest, and its ID is made from
     that digest (and the forced ID only for the first segment); a new segment
     starts with fresh digest, gzip stream, and size.
In the function which commits: the payload digest is the final value of the
payload digest context, it is set on the first segment's header, whose ID is
then made from the same string. Ident_Create depends on its arguments only."""
from common import *

TITLE = "Digests, length and ID describe exactly the stored bytes"
ASSUMES = ["zlib consumes input from next_in and counts avail_in down", "SHA256 functions digest exactly what they are given",
           "Wsilo_Store appends the bytes in the space obtained before (C04)"]
Z = "z_stream_s"
HDR = {"WARC-Block-Digest": ("sha256:%s", "sha256_segment"), "WARC-Payload-Digest": ("sha256:%s", "sha256_payload")}


def zaddr(z, f):
    return ("fld", z, Z, f)


class R16(FsRule):
    cursors = frozenset(["F", "R"])

    def start(self, A):
        return frozenset([("F", T(("arg", 1))), ("R", T(("arg", 2)))])

    PARTS = ("next_in", "avail_in", "seg", "pay", "sg.size", "sj.size")

    def part(self, A, st, where, what, p, n):
        """one of the six things which happen to a piece"""
        if any(x[1] == what for x in has(st, "ev")):
            self.close(A, st, where)
            if any(x[1] == what for x in has(st, "ev")):
                A.report(st, where, "%s twice for the same piece of input" % self.TXT[what])
                droptag(st, "ev")
        if n == C(0):
            return
        put(st, "ev", what, T(p if p is not None else ("undef",)), T(n if n is not None else ("undef",)))
        if len(has(st, "ev")) == len(self.PARTS):
            self.close(A, st, where)

    TXT = {"next_in": "deflate's input is set", "avail_in": "deflate's input length is set", "seg": "the segment digest is updated",
           "pay": "the payload digest is updated", "sg.size": "the size of the segment grows", "sj.size": "the size of the object grows"}

    def close(self, A, st, where):
        ev = has(st, "ev")
        if not ev:
            return
        droptag(st, "ev")
        miss = [w for w in self.PARTS if not any(x[1] == w for x in ev)]
        if miss:
            A.report(st, where, "a piece of input for which: %s; but not: %s" % (
                ", ".join(sorted(self.TXT[x[1]] for x in ev)), ", ".join(self.TXT[w] for w in miss)))
            return
        self.site("piece", where)
        n = [x[3][1] for x in ev if x[1] == "avail_in"][0]
        p = [x[2][1] for x in ev if x[1] == "next_in"][0]
        for x in ev:
            if x[1] != "next_in" and not A.same(st, x[3][1], n):
                A.report(st, where, "%s by another number of bytes than deflate is given" % self.TXT[x[1]])
            if x[1] in ("seg", "pay") and not A.same(st, x[2][1], p):
                A.report(st, where, "%s with other bytes than deflate is given" % self.TXT[x[1]])
        F, R = one(st, "F"), one(st, "R")
        if F is None or not A.same(st, F[1][1], p):
            A.report(st, where, "the piece of input does not start where the previous one ended")
        if R is None or not A.le(st, n, R[1][1]):
            A.report(st, where, "the piece of input may be longer than what is left of it")
        if F is not None and R is not None:
            drop(st, F)
            drop(st, R)
            put(st, "F", T(add(p, n)))
            put(st, "R", T(sub(R[1][1], n)))

    def store(self, A, st, addr, val, i):
        if addr[0] != "fld":
            return None
        s, f = addr[2], addr[3]
        if s == Z and f == "avail_in" and not has(st, "init"):
            if not A.le(st, A.load(st, addr), C(0)):
                A.report(st, i, "deflate is given new input before it consumed the previous")
            self.part(A, st, i, "avail_in", None, val)
        elif s == Z and f == "next_in":
            self.part(A, st, i, "next_in", val, None)
        elif f == "size" and s in ("segment", "segjob"):
            d = sub(val, A.load(st, addr))
            self.part(A, st, i, "sg.size" if s == "segment" else "sj.size", None, d)
        return None

    ENDS = {"deflate": "deflate is called again", "Wsilo_GetSpace": "new space is obtained from the silo",
            "deflateEnd": "deflate is ended"}

    def before(self, A, st, c):
        if c.name in self.ENDS:
            self.stored(A, st, c, self.ENDS[c.name])

    def call(self, A, st, c):
        n = c.name
        if n == "SHA256Update":
            a = c.args[0]
            f = a[3] if a[0] == "fld" else None
            if f == "sha256_segment":
                self.part(A, st, c, "seg", c.args[1], c.args[2])
            elif f == "sha256_payload":
                self.part(A, st, c, "pay", c.args[1], c.args[2])
        elif n == "deflate":
            self.close(A, st, c)
            self.site("deflate", c)
            z = c.args[0]
            out = A.load(st, zaddr(z, "next_out"))
            sp = one(st, "space")
            if sp is None or not A.same(st, sp[2][1], out):
                A.report(st, c, "deflate does not write into space obtained from the silo since the last store")
                return None
            av = A.load(st, zaddr(z, "avail_out"))
            if not A.le(st, av, sp[3][1]):
                A.report(st, c, "deflate may write beyond the space obtained from the silo")
            if is_c(c.args[1]) and c.args[1][1] == 4:
                setone(st, "finished")
                setone(st, "cur", T(A.load(st, ("fld", z[1], "segjob", "cur_seg"))))
                if not A.le(st, A.load(st, zaddr(z, "avail_in")), C(0)):
                    A.report(st, c, "the segment is ended before deflate has consumed its input")
            put(st, "out", sp[1], T(av), T(z))
            self.begun(A, st, c)
            droptag(st, "space")
            if A.le(st, A.load(st, zaddr(z, "avail_in")), C(0)):
                setone(st, "noinput")
        elif n == "Wsilo_GetSpace":
            droptag(st, "space")
        elif n == "Wsilo_Store":
            o = one(st, "out")
            if o is not None:
                self.site("store", c)
                if not A.same(st, c.args[0], o[1][1]) or not A.same(st, o[2][1], c.args[1]):
                    A.report(st, c, "what is stored is not exactly what deflate has written")
                drop(st, o)
                if has(st, "finished"):
                    setone(st, "finished", "stored")
            elif has(st, "finished"):
                sp = one(st, "space")
                k = one(st, "crnl")
                if k is None or sp is None or k[1] != sp[2] or not is_c(c.args[1]) or c.args[1] != C(24):
                    A.report(st, c, "the separator stored after a segment is not the expected one")
                setone(st, "separated")
            droptag(st, "space")
        elif n in ("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64") and c.args[1] == ("g", "Gzip_crnlcrnl"):
            setone(st, "crnl", T(c.args[0]))
        elif n == "deflateEnd":
            self.close(A, st, c)
            if A.le(st, A.load(st, zaddr(c.args[0], "avail_in")), C(0)):
                setone(st, "noinput")
            if not has(st, "finished") or not has(st, "separated"):
                A.report(st, c, "a segment is ended without Z_FINISH and a separator")
            setone(st, "ended")
        elif n == "SHA256End":
            a = c.args[0]
            if a[0] == "fld" and a[3] == "sha256_segment":
                self.close(A, st, c)
                put(st, "digest", "sha256_segment", T(c.res), T(a[1]))
        elif n == "SHA256Init" and c.args[0][0] == "fld" and c.args[0][3] == "sha256_segment":
            put(st, "freshdig")
        elif n == "Header_Set":
            k = lit(A, st, c.args[1])
            if k == "Content-Length" and has(st, "ended"):
                self.site("Content-Length", c)
                sg = self.seg(st)
                if lit(A, st, c.args[2]) != "%jd" or not A.same(st, c.args[3], A.load(st, ("fld", sg, "segment", "size"))) or \
                        not A.same(st, c.args[0], A.load(st, ("fld", sg, "segment", "hdr"))):
                    A.report(st, c, "the Content-Length recorded is not the final size of the segment")
                setone(st, "did.len")
            elif k == "WARC-Block-Digest" and has(st, "ended"):
                self.site("Block-Digest", c)
                d = one(st, "digest")
                if lit(A, st, c.args[2]) != "sha256:%s" or d is None or not A.same(st, c.args[3], d[2][1]):
                    A.report(st, c, "the block digest recorded is not the final digest of the segment")
                setone(st, "did.dig")
        elif n == "Ident_Set":
            self.site("ID", c)
            d = one(st, "digest")
            if d is None or not A.same(st, c.args[2], d[2][1]):
                A.report(st, c, "the ID is not made from the final digest of the segment")
            sg = self.seg(st)
            if not A.same(st, c.args[1], A.load(st, ("fld", sg, "segment", "hdr"))):
                A.report(st, c, "the ID is set on something which is not the header of the segment")
            else:
                no = A.load(st, ("fld", sg, "segment", "segno"))
                one_ = A.eval(st, rel_eq(no, C(1)))
                if is_field(c.args[3], "segjob", "ident"):
                    if one_ is not True:
                        A.report(st, c, "the forced ID may be given to a segment which is not the first")
                elif A.isnull(st, c.args[3]):
                    if one_ is not False:
                        A.report(st, c, "the first segment is not given the forced ID")
                else:
                    A.report(st, c, "the ID given to the segment is not the forced ID")
            setone(st, "did.id")
        elif n == "Wsilo_Finish":
            self.site("finish", c)
            self.begun(A, st, c)
            miss = [t for k, t in (("ended", "the end of its gzip stream"), ("did.len", "its length"), ("did.dig", "its digest"),
                                   ("did.id", "its ID")) if not has(st, k)]
            if miss:
                A.report(st, c, "a segment is finished without " + ", ".join(miss))
            for t in ("cur", "crnl", "space", "newseg", "freshgz", "freshdig", "ended", "did.len", "did.dig", "did.id", "digest", "finished", "separated"):
                droptag(st, t)
        return None

    def begun(self, A, st, i):
        if has(st, "newseg"):
            if not (has(st, "freshgz") and has(st, "freshdig")):
                A.report(st, i, "a segment is started without a fresh gzip stream and digest")
            for t in ("newseg", "freshgz", "freshdig"):
                droptag(st, t)

    def branch(self, A, st, i, cond):
        o = one(st, "out")
        if o is not None and cond[0] != "c" and A.le(st, o[2][1], C(0)):
            self.stored(A, st, i, "")

    def seg(self, st):
        x = one(st, "cur")
        return x[1][1] if x else ("undef",)

    def stored(self, A, st, c, what):
        o = one(st, "out")
        if o is None:
            return
        if not A.le(st, o[2][1], C(0)):
            A.report(st, c, "%s although what deflate has written may not have been stored" % what)
        drop(st, o)
        if has(st, "finished"):
            setone(st, "finished", "stored")

    def after(self, A, st, c):
        n = c.name
        if n == "Wsilo_GetSpace":
            setone(st, "space", T(c.args[0]), T(A.load(st, c.args[1])), T(A.load(st, c.args[2])))
        elif n == "Gzip_InitDeflate":
            self.site("init", c)
            v = A.load(st, zaddr(c.args[0], "avail_in"))
            A.setfact(st, v, 0, 0)
            setone(st, "freshgz")
        elif n in ("deflate", "deflateEnd"):
            if has(st, "noinput"):
                droptag(st, "noinput")
                A.setfact(st, A.load(st, zaddr(c.args[0], "avail_in")), 0, 0)
            setone(st, "z", T(A.load(st, zaddr(c.args[0], "avail_in"))))
            o = one(st, "out")
            if o is not None:
                drop(st, o)
                put(st, "out", o[1], T(sub(o[2][1], A.load(st, zaddr(c.args[0], "avail_out")))))
        elif n == "Wsilo_Next":
            # a new segment
            put(st, "newseg")
        elif n == "SHA256End":
            for x in has(st, "digest"):
                drop(st, x)
                put(st, "digest", x[1], T(c.res), x[3])
        return None

    def ret(self, A, st, val, i):
        self.close(A, st, i)
        self.stored(A, st, i, "the function returns")
        self.site("return", i)
        R = one(st, "R")
        if R is None or not A.le(st, R[1][1], C(0)):
            A.report(st, i, "the function may return without having taken all of its input")
        self.begun(A, st, i)
        if has(st, "ended"):
            A.report(st, i, "a segment was ended but not finished")
        z = ("fld", ("arg", 0), "segjob", "gz")
        if not A.le(st, A.load(st, zaddr(z, "avail_in")), C(0)):
            A.report(st, i, "the function may return before deflate has consumed its input")


class R16b(FsRule):
    """the digest of the whole object"""
    def call(self, A, st, c):
        n = c.name
        if n == "SegJob_Feed":
            if c.args[2] == C(0):
                setone(st, "flushed")
            elif has(st, "pd"):
                A.report(st, c, "input is archived after the payload digest was taken")
        elif n == "SHA256End" and c.args[0][0] == "fld" and c.args[0][3] == "sha256_payload":
            self.site("Payload-Digest", c)
            if not has(st, "flushed"):
                A.report(st, c, "the payload digest is taken before the last segment is ended")
            setone(st, "want")
        elif n == "Header_Set" and lit(A, st, c.args[1]) == "WARC-Payload-Digest":
            x = one(st, "pd")
            if x is None or lit(A, st, c.args[2]) != "sha256:%s" or not A.same(st, c.args[3], x[1][1]):
                A.report(st, c, "the payload digest recorded is not the final digest of the payload")
            setone(st, "on", T(c.args[0]))
        elif n == "Ident_Set":
            x, y = one(st, "pd"), one(st, "on")
            if x is None or not A.same(st, c.args[2], x[1][1]):
                A.report(st, c, "the ID is not made from the digest of the payload")
            if y is None or not A.same(st, c.args[1], y[1][1]):
                A.report(st, c, "the ID made from the payload digest is not set on the header which has that digest")
            if not is_field(c.args[3], "segjob", "ident"):
                A.report(st, c, "the forced ID is not taken into account")
            setone(st, "ided")
        elif n == "Wsilo_Commit":
            self.site("commit", c)
            if not has(st, "flushed"):
                A.report(st, c, "the object is committed without having been ended")
            if c.args[1] != C(0) and not A.le(st, A.load(st, ("fld", ("arg", 0), "segjob", "nseg")), C(0)) and \
                    not (has(st, "on") and has(st, "ided")):
                A.report(st, c, "a segmented object is committed without its payload digest and the ID made from it")
        return None

    def after(self, A, st, c):
        if has(st, "want"):
            droptag(st, "want")
            setone(st, "pd", T(c.res))
        return None


class R16c(FsRule):
    """what an ID depends on"""
    OK = {"strcmp", "strcpy", "strlen", "strcat", "memcpy", "fprintf", "VAS_Fail", "SHA256Init", "SHA256Update", "SHA256End", "SHA256Data",
          "snprintf", "sprintf", "bprintf", "strncmp", "strlcpy", "strncpy", "memset", "__assert_fail", "abort", "exit", "strcasecmp",
          "free", "strdup", "malloc", "memcmp"}

    def call(self, A, st, c):
        n = c.name
        if n == "Header_Get":
            self.site("header field", c)
            if lit(A, st, c.args[1]) not in ("WARC-Type", "WARC-Refers-To"):
                A.report(st, c, "the ID depends on another header field than the type of the record and what it refers to")
        elif n not in self.OK and not n.startswith(("llvm.", "VSB_", "vsb_")):
            A.report(st, c, "the ID depends on the result of %s()" % n)
        return None

    def load(self, A, st, addr, val, i):
        r = ptr_base(addr)[0]
        while r is not None and r[0] == "fld":
            r = ptr_base(r[1])[0]
        if r is not None and r[0] == "g" and r[1] not in ("stderr",):
            g = A.mod.globals.get(r[1])
            if g is not None and not g["const"]:
                A.report(st, i, "the ID depends on the global variable %s" % r[1])
        if addr[0] == "fld" and addr[2] == "aardwarc" and addr[3] not in ("id_size", "magic", "prefix"):
            A.report(st, i, "the ID depends on %s of the configuration" % addr[3])
        return None


def run(tier):
    p = Prog()
    res = Result("C16")
    jobs = [k for k in p.callers({"deflate"}) if k in set(p.callers({"Wsilo_Store"}))]
    if not jobs:
        raise AnalysisError("no function which compresses and digests its input")

    def job(k):
        r = Result("C16")
        r.run(p, k[1], k[0](p))
        return r
    jobs = [(R16, k) for k in jobs] + [(R16b, k) for k in p.callers({"Wsilo_Commit"})] + \
        [(R16c, k) for k in p.callers({"Header_Get"}) if p.m.raw[k]["name"] == "Ident_Create"]
    for r in parallel(jobs, job):
        res.merge(r)
    for k in ("piece", "deflate", "store", "init", "finish", "Content-Length", "Block-Digest", "ID", "Payload-Digest", "commit", "header field"):
        res.need(k, 1)
    return res
