"""C22: rebuild copies every record or fails.
The function which takes decompressed data (the one deflate is called from) keeps
between calls what it has to do next in a state variable.  It is analysed for every
value of that variable together with a phase (what was done to the record so far);
the phases which it can leave with a value are found by iteration, from value zero
with no record started.  In every phase, on every path:
 every byte is consumed exactly once, in order, and none is left at a return;
 while there is no header, data is appended to the header buffer; the header is
 parsed when it is complete and ends where the data ends; but for the compression
 fields no field is dropped; it is written completely before the body;
 as many bytes as the header says go to deflate as the body (or first to a buffer,
 from which all go), input is not replaced before deflate took it, every byte
 deflate puts out is written before its buffer is used again, and the stream is
 ended only behind the last byte, by deflate saying so;
 the lengths are written into the start of the body and the position restored, and
 the separator written; as many bytes are skipped as a separator has.
The function which decompresses passes everything inflate puts out to it, does not
replace input before inflate took it, begins a new member only where one ended, and
returns zero only if everything was read without an error, nothing is left of a
member, and nothing of a record.  Its result is part of the exit status."""
from common import *

TITLE = "Rebuild copies every record or fails"
ASSUMES = ["zlib does what its documentation says", "the first bytes of the deflate stream are the field the lengths go to (C08)", "bodies of records are single members (C08)"]
STREAM_END, FINISH, SEP = 1, 4, 4
GONE = ("Content-Length-GZIP", "z")
COPY = ("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64")


class Proc(FsRule):
    cursors = frozenset(["pos", "left"])

    def __init__(self, prog, a):
        FsRule.__init__(self, prog)
        self.s, self.ph = a
        self.next = set()

    # --- the structure ---

    def F(self, n):
        return ("fld", ("arg", 0), "rebuild", n)

    def Z(self, n):
        return ("fld", self.F("zs"), "z_stream_s", n)

    def L(self, A, st, n):
        return A.load(st, self.F(n))

    def initial(self, A, st):
        setone(st, "ph", self.ph)
        setone(st, "s", self.s)
        setone(st, "pos", T(("arg", 1)))
        setone(st, "left", T(("arg", 2)))
        cs = [(rel_eq(self.L(A, st, "state"), C(self.s)), True), (rel_le0(mulc(("arg", 2), -1)), True)]
        ph = self.ph
        r, c = self.L(A, st, "rlen"), self.L(A, st, "clen")
        if ph not in ("hdr", "fix"):
            cs.append((rel_eq(self.L(A, st, "hdrlen"), C(0)), True))
            setone(st, "hd0")
        if ph != "fix":
            cs.append((rel_eq(self.L(A, st, "h"), C(0)), True))
            setone(st, "h0")
        else:
            setone(st, "r<c")
            setone(st, "len0")
            cs += [(rel_eq(self.L(A, st, "h"), C(0)), False), (rel_le0(mulc(r, -1)), True), (rel_le0(add(sub(r, c), C(1))), True)]
        if ph == "body":
            cs.append((rel_le0(mulc(r, -1)), True))
            setone(st, "noin")
        if ph == "fixbody":
            cs += [(rel_eq(r, C(0)), True), (rel_le0(add(mulc(c, -1), C(1))), True)]
            st.mem[self.Z("next_in")] = self.F("fixbuf")
            st.mem[self.Z("avail_in")] = c
            setone(st, "ni", T(self.F("fixbuf")))
            setone(st, "ai", T(c))
            setone(st, "c>0")
        if ph == "sep":
            cs.append((rel_le0(sub(C(1), r)), True))
            setone(st, "r>0")
        if ph in ("body", "fixbody", "sep"):
            setone(st, "len")
        sts = [st]
        for rel, truth in cs:
            sts = [x for s in sts for x in A.assume(s, rel, truth)]
        return sts

    def phase(self, st):
        return one(st, "ph")[1]

    def go(self, st, ph):
        setone(st, "ph", ph)

    # --- consuming ---

    def eat(self, A, st, where, ptr, n, what):
        """consume n bytes at ptr"""
        pos, left = one(st, "pos")[1][1], one(st, "left")[1][1]
        self.site(what, where)
        if not A.same(st, ptr, pos):
            A.report(st, where, "data is consumed out of order or twice")
        if not A.le(st, C(0), n) or not A.le(st, n, left):
            A.report(st, where, "more data may be consumed than there is")
        setone(st, "pos", T(add(pos, n)))
        setone(st, "left", T(sub(left, n)))

    def match(self, A, st, where):
        e, t = one(st, "eat"), one(st, "take")
        if e is not None and t is not None:
            if not A.same(st, e[1][1], t[1][1]):
                A.report(st, where, "the number of bytes to go is not reduced by what was consumed")
            droptag(st, "eat")
            droptag(st, "take")

    def settled(self, A, st, where):
        for t, m in (("eat", "the number of bytes to go is not reduced by what was consumed"), ("take", "the number of bytes to go is changed although nothing was consumed"),
                     ("out", "output of deflate may not be written"), ("wr", "whether everything was written is not known")):
            if has(st, t):
                A.report(st, where, m)
                droptag(st, t)

    def branch(self, A, st, i, cond):
        w = one(st, "wr")
        if w is not None and A.same(st, w[1][1], w[2][1]):
            if w[3]:
                droptag(st, "out")
            droptag(st, "wr")
        o = one(st, "out")
        if o is not None and A.le(st, o[2][1], C(0)):
            droptag(st, "out")
        if has(st, "pend") and A.le(st, A.load(st, self.Z("avail_in")), C(0)):
            droptag(st, "pend")
            setone(st, "noin")
        r, c = self.L(A, st, "rlen"), self.L(A, st, "clen")
        if A.le(st, C(1), r):
            setone(st, "r>0")
        if A.le(st, r, C(0)):
            setone(st, "r<1")
        if A.le(st, C(1), c):
            setone(st, "c>0")
        if A.le(st, add(r, C(1)), c) and self.phase(st) in ("parsed", "fix"):
            setone(st, "r<c")
        f = one(st, "fin")
        if f is not None and A.eval(st, rel_eq(f[1][1], C(STREAM_END))) is True:
            setone(st, "done")
            droptag(st, "fin")

    def end(self, A, st):
        """the separator may be at its end"""
        if self.phase(st) == "sep" and has(st, "len") and (has(st, "r<1") or A.le(st, self.L(A, st, "rlen"), C(0))):
            self.go(st, "idle")
            droptag(st, "len")

    # --- events ---

    def fd(self, A, st, c, k=0):
        return A.same(st, c.args[k], self.L(A, st, "fdo"))

    def call(self, A, st, c):
        n, a = c.name, c.args
        if n in COPY:
            if has_base(a[0], self.F("hdrbuf")):
                self.end(A, st)
                if self.phase(st) not in ("idle", "hdr"):
                    A.report(st, c, "data which is not part of a header is taken for it")
                if not A.same(st, a[0], add(self.F("hdrbuf"), self.L(A, st, "hdrlen"))):
                    A.report(st, c, "a part of a header is not put behind the one before")
                self.settled(A, st, c)
                self.eat(A, st, c, a[1], a[2], "header data")
                setone(st, "hl", T(add(self.L(A, st, "hdrlen"), a[2])))
                self.go(st, "hdr")
            elif has_base(a[0], self.F("fixbuf")):
                if self.phase(st) == "parsed":
                    self.go(st, "fix")
                if self.phase(st) != "fix":
                    A.report(st, c, "data which is not part of a body is taken for it")
                r = self.L(A, st, "rlen")
                if not A.same(st, a[0], add(self.F("fixbuf"), r)) or not has(st, "len0"):
                    A.report(st, c, "a part of a body is not put behind the one before")
                if not A.le(st, add(r, a[2]), self.L(A, st, "clen")):
                    A.report(st, c, "more may be taken for the body than the header says")
                self.settled(A, st, c)
                self.eat(A, st, c, a[1], a[2], "body data kept")
                setone(st, "eat", T(a[2]))
        elif n == "Header_Parse":
            self.site("header parsed", c)
            if self.phase(st) != "hdr" or a[1] != self.F("hdrbuf"):
                A.report(st, c, "what is parsed is not a header")
            e = add(self.F("hdrbuf"), self.L(A, st, "hdrlen"))
            ok = False
            for t in has(st, "nl"):
                if A.same(st, add(t[1][1], C(4)), e):
                    ok = True
            if not ok:
                A.report(st, c, "a header is parsed which may be incomplete or followed by something")
            droptag(st, "nl")
        elif n == "Header_Delete":
            self.site("header changed", c)
            x = lit(A, st, a[1])
            if x not in GONE and not (self.phase(st) == "fix" and x is not None and x.lower() == "warc-record-digest"):
                A.report(st, c, "a field of a header is dropped")
        elif n in ("Header_Set", "Header_Set_Id", "Header_Set_Date", "Header_Set_Ref"):
            self.site("header changed", c)
            if self.phase(st) != "fix":
                A.report(st, c, "a field of a header is changed")
        elif n == "write":
            self.settled2(A, st, c)
            if not self.fd(A, st, c):
                A.report(st, c, "something is written elsewhere")
            if has(st, "sk"):
                A.report(st, c, "something is written at a wrong place")
            droptag(st, "cur")
            self.written(A, st, c)
        elif n == "Gzip_InitDeflate":
            self.site("body started", c)
            self.settled(A, st, c)
            if a[0] != self.F("zs"):
                return
            ph = self.phase(st)
            if ph == "hdrout":
                self.go(st, "body")
            elif ph == "fixout":
                self.go(st, "fixbody")
            else:
                A.report(st, c, "a body is started without its header written")
            if not has(st, "bs"):
                setone(st, "nobs")
            droptag(st, "bs")
            for t in ("pend", "noin", "done", "fin", "aa"):
                droptag(st, t)
        elif n == "deflate":
            self.deflate(A, st, c)
        elif n == "deflateEnd":
            self.site("body ended", c)
            self.settled(A, st, c)
            if not has(st, "done") or has(st, "pend") or self.phase(st) not in ("body", "fixbody"):
                A.report(st, c, "the compressed body is ended before deflate said so")
            if has(st, "nobs"):
                A.report(st, c, "the start of a body was not recorded")
            self.go(st, "ended")
            droptag(st, "len")
            droptag(st, "noin")
        elif n == "Gzip_WriteAa":
            self.site("lengths written", c)
            s, cur = one(st, "sk"), one(st, "cur")
            b = self.L(A, st, "body_start")
            if not self.fd(A, st, c) or self.phase(st) != "ended" or s is None or not A.same(st, s[1][1], b) or \
                    cur is None or not A.same(st, a[1], sub(cur[1][1], b)):
                A.report(st, c, "the length is not that of the body, or not written at its start")
            setone(st, "aa")
        elif n == "lseek" and self.fd(A, st, c):
            self.settled(A, st, c)
            if a[2] == C(0):
                cur = one(st, "cur")
                droptag(st, "sk")
                if cur is None or not A.same(st, a[1], cur[1][1]):
                    setone(st, "sk", T(a[1]))
            elif a[2] != C(1) or a[1] != C(0):
                setone(st, "sk", T(("undef",)))

    def settled2(self, A, st, where):
        if has(st, "wr"):
            A.report(st, where, "whether everything was written is not known")
            droptag(st, "wr")

    def written(self, A, st, c):
        a = c.args
        o = one(st, "out")
        s = one(st, "ser")
        if o is not None:
            self.site("output of deflate written", c)
            if not A.same(st, a[1], o[1][1]) or not A.same(st, a[2], o[2][1]):
                A.report(st, c, "what is written is not the output of deflate")
            setone(st, "w", True)
        elif s is not None and a[1][:2] == ("pure", "VSB_data") and a[1][2][0] == s[1][1]:
            self.site("header written", c)
            if a[2][:2] != ("pure", "VSB_len") or a[2][2][0] != s[1][1]:
                A.report(st, c, "not all of a header is written")
            ph = self.phase(st)
            if ph == "fix":
                if not A.le(st, self.L(A, st, "clen"), self.L(A, st, "rlen")):
                    A.report(st, c, "a body is taken for complete before it is")
                self.go(st, "fixout")
                droptag(st, "len0")
            elif ph == "parsed":
                self.go(st, "hdrout")
            else:
                A.report(st, c, "a header is written twice")
            if s[2] != "ok":
                A.report(st, c, "what is written is not the header which was read")
            setone(st, "w", False)
        elif a[1] == ("g", "Gzip_crnlcrnl"):
            self.site("separator written", c)
            if self.phase(st) != "ended" or not has(st, "aa"):
                A.report(st, c, "a separator is not written behind a complete body")
            if a[2] != C(self.p.m.globals["Gzip_crnlcrnl"]["size"]):
                A.report(st, c, "not all of a separator is written")
            self.go(st, "sep")
            setone(st, "w", False)
        else:
            A.report(st, c, "something is written which is not a part of a record")
            setone(st, "w", False)

    def deflate(self, A, st, c):
        self.site("body deflated", c)
        for t, m in (("out", "output of deflate may not be written"), ("wr", "whether everything was written is not known")):
            if has(st, t):
                A.report(st, c, m)
                droptag(st, t)
        if c.args[0] != self.F("zs"):
            A.report(st, c, "something else is compressed")
            return
        ph = self.phase(st)
        ni, ai = A.load(st, self.Z("next_in")), A.load(st, self.Z("avail_in"))
        if ph not in ("body", "fixbody"):
            A.report(st, c, "data is compressed although no body was started")
        elif not has(st, "len"):
            A.report(st, c, "the length of a body may not be what the header says")
        elif not has(st, "pend") and not has(st, "noin"):
            if ph == "body":
                self.eat(A, st, c, ni, ai, "body data")
                setone(st, "eat", T(ai))
                self.match(A, st, c)
            elif ni != self.F("fixbuf") or not A.same(st, ai, self.L(A, st, "clen")):
                A.report(st, c, "not all of what was kept of a body is compressed")
            setone(st, "pend")
            droptag(st, "done")
        if A.eval(st, rel_eq(c.args[1], C(FINISH))) is not False:
            if not A.le(st, self.L(A, st, "rlen"), C(0)) or not A.le(st, C(0), self.L(A, st, "rlen")) or has(st, "eat") or has(st, "take"):
                A.report(st, c, "a body may be ended before all of it was read")
        setone(st, "ob", T(A.load(st, self.Z("next_out"))), T(A.load(st, self.Z("avail_out"))))
        droptag(st, "fin")
        droptag(st, "done")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n, a = c.name, c.args
        if n == "deflate":
            o = one(st, "ob")
            if o is not None:
                setone(st, "out", T(o[1][1]), T(sub(o[2][1], A.load(st, self.Z("avail_out")))))
                droptag(st, "ob")
            if A.eval(st, rel_eq(a[1], C(FINISH))) is not False:
                setone(st, "fin", T(c.res))
        elif n == "write":
            x = one(st, "w")
            setone(st, "wr", T(c.res), T(a[2]), bool(x and x[1]))
            droptag(st, "w")
        elif n == "strstr" and a[0] == self.F("hdrbuf") and lit(A, st, a[1]) == "\r\n\r\n":
            put(st, "nl", T(c.res))
        elif n == "Header_Parse":
            self.go(st, "parsed")
            droptag(st, "hl")
        elif n == "Header_Destroy" and a[0] == self.F("h"):
            setone(st, "h0")
        elif n == "Header_Get_Number":
            if lit(A, st, a[1]) == "Content-Length" and A.same(st, a[0], self.L(A, st, "h")):
                setone(st, "cl", T(c.res))
        elif n == "Header_Serialize":
            ok = A.same(st, a[0], self.L(A, st, "h")) and A.eval(st, rel_le0(a[1])) is True and self.phase(st) in ("parsed", "fix")
            if A.eval(st, rel_eq(a[1], C(-1))) is not True:
                setone(st, "ser", T(c.res), "ok" if ok else "no")
        elif n == "lseek" and self.fd(A, st, c):
            if a[1:] == (C(0), C(1)):
                setone(st, "cur", T(c.res))

    def store(self, A, st, addr, val, i):
        if addr[0] != "fld":
            return
        if addr[1] == self.F("zs") and addr[2] == "z_stream_s" and addr[3] in ("next_in", "avail_in"):
            if has(st, "pend"):
                A.report(st, i, "input is replaced before deflate took it")
                droptag(st, "pend")
            droptag(st, "noin")
            setone(st, "ni" if addr[3] == "next_in" else "ai", T(val))
            return
        if addr[:3] != ("fld", ("arg", 0), "rebuild"):
            return
        n = addr[3]
        ph = self.phase(st)
        if n == "state":
            setone(st, "s", val[1] if is_c(val) else None)
        if n == "h":
            droptag(st, "h0")
            if A.isnull(st, val):
                setone(st, "h0")
        if n in ("rlen", "clen"):
            for t in ("r>0", "r<1", "r<c"):
                droptag(st, t)
        if n == "hdrlen":
            droptag(st, "hd0")
            if A.eval(st, rel_eq(val, C(0))) is True:
                setone(st, "hd0")
            x = one(st, "hl")
            if ph == "hdr":
                if x is None or not A.same(st, val, x[1][1]):
                    A.report(st, i, "the length of a header is not what was read of it")
                droptag(st, "hl")
            elif A.eval(st, rel_eq(val, C(0))) is not True:
                A.report(st, i, "the length of a header is changed although nothing was read of it")
        elif n == "clen":
            x = one(st, "cl")
            self.site("length of the body", i)
            if ph != "parsed" or x is None or val != x[1][1]:
                A.report(st, i, "the length of a body is not the one in its header")
            setone(st, "cl1")
        elif n == "body_start":
            x = one(st, "cur")
            if x is None or val != x[1][1] or has(st, "sk"):
                A.report(st, i, "the start of a body is not where it is written")
            if ph in ("hdrout", "fixout"):
                setone(st, "bs")
            droptag(st, "nobs")
        elif n == "rlen":
            self.rlen(A, st, val, i, ph)

    def rlen(self, A, st, val, i, ph):
        r, c = self.L(A, st, "rlen"), self.L(A, st, "clen")
        if ph == "parsed":
            # which of the two it is for is not known yet
            if A.eval(st, rel_eq(val, C(0))) is True:
                setone(st, "len0")
            elif not A.same(st, val, c) or not has(st, "cl1"):
                A.report(st, i, "the number of bytes to go is not the length of the body")
            else:
                setone(st, "len")
        elif ph in ("hdrout", "body") and not has(st, "len"):
            if not A.same(st, val, c) or not has(st, "cl1"):
                A.report(st, i, "the number of bytes to go is not the length of the body")
            if not A.le(st, C(0), c):
                A.report(st, i, "the length of the body may not be a number")
            setone(st, "len")
        elif ph in ("fixout", "fixbody") and not has(st, "len"):
            if A.eval(st, rel_eq(val, C(0))) is not True:
                A.report(st, i, "the number of bytes to go is not right")
            setone(st, "len")
        elif ph == "fix":
            setone(st, "take", T(sub(val, r)))
            self.match(A, st, i)
        elif ph == "body":
            setone(st, "take", T(sub(r, val)))
            if not A.le(st, C(0), val):
                A.report(st, i, "more may be consumed than belongs to the body")
            self.match(A, st, i)
        elif ph in ("ended", "sep") and not has(st, "len"):
            if val != C(SEP):
                A.report(st, i, "what is skipped is not a separator")
            setone(st, "len")
        elif ph == "sep":
            self.eat(A, st, i, one(st, "pos")[1][1], sub(r, val), "separator skipped")
            if not A.le(st, C(0), val):
                A.report(st, i, "more may be skipped than a separator")
        else:
            A.report(st, i, "the number of bytes to go is changed in between")

    def ret(self, A, st, val, i):
        self.site("return", i)
        self.settled(A, st, i)
        self.end(A, st)
        ph = self.phase(st)
        left = one(st, "left")[1][1]
        if not A.le(st, left, C(0)):
            A.report(st, i, "data is dropped")
        if has(st, "pend"):
            A.report(st, i, "data may be dropped by deflate")
        if has(st, "nobs"):
            A.report(st, i, "the start of a body was not recorded")
        if has(st, "sk"):
            A.report(st, i, "the position for writing is not restored")
        if has(st, "hl"):
            A.report(st, i, "a part of a header is dropped")
        if ph == "parsed" and has(st, "len0"):
            ph = "fix"
        ok = True
        if ph not in ("hdr", "fix"):
            ok = bool(has(st, "hd0"))
        if ph != "fix":
            ok = ok and bool(has(st, "h0"))
        else:
            ok = not has(st, "h0") and bool(has(st, "r<c")) and bool(has(st, "len0"))
        if ph in ("body", "fixbody", "sep"):
            ok = ok and bool(has(st, "len"))
        if ph == "body":
            ok = ok and not has(st, "pend")
        if ph == "fixbody":
            n, a = one(st, "ni"), one(st, "ai")
            ok = ok and bool(has(st, "c>0")) and n is not None and n[1][1] == self.F("fixbuf") and a is not None and A.same(st, a[1][1], self.L(A, st, "clen"))
        if ph == "sep":
            ok = ok and bool(has(st, "r>0"))
        if ph not in ("idle", "hdr", "fix", "body", "fixbody", "sep"):
            ok = False
        s = one(st, "s")[1]
        if not ok:
            A.report(st, i, "what is done next may not fit what was done so far")
        elif s is None:
            A.report(st, i, "what is done next is not known")
        else:
            self.next.add((s, ph))


class Iter(FsRule):
    def __init__(self, prog, a):
        FsRule.__init__(self, prog)
        self.proc, self.bad = a

    def Z(self, z, n):
        return ("fld", z, "z_stream_s", n)

    def branch(self, A, st, i, cond):
        z = one(st, "z")
        if z is not None and A.le(st, A.load(st, self.Z(z[1][1], "avail_in")), C(0)):
            setone(st, "noin")
        if z is not None and A.le(st, A.load(st, self.Z(z[1][1], "total_in")), C(0)):
            setone(st, "whole")
        for t, k, v in (("res", "end", STREAM_END), ("res", "more", 0), ("rd", "eof", 0), ("err", "noerr", 0)):
            x = one(st, t)
            if x is not None and A.eval(st, rel_eq(x[1][1], C(v))) is True:
                setone(st, k)
        for t in subterms(cond):
            if is_field(t, "rebuild", "state"):
                for s in self.bad:
                    if A.eval(st, rel_eq(t, C(s))) is False:
                        put(st, "not", s)

    def before(self, A, st, c):
        n, a = c.name, c.args
        if n == "inflateInit2_":
            if has(st, "res") and not has(st, "end"):
                A.report(st, c, "a new member is begun although the one before may not have ended")
            if has(st, "got"):
                A.report(st, c, "output of inflate may be dropped")
            setone(st, "z", T(a[0]))
            setone(st, "pre", T(A.load(st, self.Z(a[0], "avail_in"))))
            for t in ("res", "end", "more", "whole"):
                droptag(st, t)
            setone(st, "fresh")
        elif n == "inflateEnd":
            if has(st, "res") and not has(st, "end") and not has(st, "whole"):
                A.report(st, c, "a member is ended although not all of it was read")
        elif n == "inflate":
            self.site("inflated", c)
            z = a[0]
            ni, ai = A.load(st, self.Z(z, "next_in")), A.load(st, self.Z(z, "avail_in"))
            r = one(st, "buf")
            if r is not None:
                if ni != r[1][1] or not A.same(st, ai, r[2][1]):
                    A.report(st, c, "not all of what was read is inflated")
            elif has(st, "touched"):
                A.report(st, c, "input is replaced before inflate took it")
            if has(st, "got"):
                A.report(st, c, "output of inflate may be dropped")
            if has(st, "res") and not has(st, "more"):
                A.report(st, c, "inflate is called again although it failed")
            o, n = A.load(st, self.Z(z, "next_out")), A.load(st, self.Z(z, "avail_out"))
            if not has(st, "outset"):
                A.report(st, c, "output of inflate is overwritten or not put in a buffer")
            setone(st, "ob", T(o), T(n))
            for t in ("buf", "touched", "noin", "res", "end", "more", "whole", "fresh", "outset"):
                droptag(st, t)
        elif n in ("fread", "read"):
            self.site("silo read", c)
            z = one(st, "z")
            if z is not None and not has(st, "noin") and not A.le(st, A.load(st, self.Z(z[1][1], "avail_in")), C(0)):
                A.report(st, c, "input is replaced before inflate took it")
            for t in ("rd", "eof", "err", "noerr", "buf"):
                droptag(st, t)
        elif c.key == self.proc:
            self.site("data passed on", c)
            g = one(st, "got")
            if g is None or not A.same(st, a[1], g[1][1]) or not A.same(st, a[2], g[2][1]):
                A.report(st, c, "what is passed on is not what was decompressed")
            droptag(st, "got")
            droptag(st, "not")
            droptag(st, "rd")
            if not has(st, "open"):
                A.report(st, c, "the new silo may not have been created")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n, a = c.name, c.args
        if n == "inflate":
            setone(st, "res", T(c.res))
            o = one(st, "ob")
            setone(st, "got", T(o[1][1]), T(sub(o[2][1], A.load(st, self.Z(a[0], "avail_out")))))
            droptag(st, "ob")
        elif n == "inflateInit2_":
            # it leaves the input alone
            x = one(st, "pre")
            droptag(st, "pre")
            return A.assume(st, rel_eq(A.load(st, self.Z(a[0], "avail_in")), x[1][1]), True)
        elif n in ("fread", "read"):
            k = 0 if n == "fread" else 1
            if n == "read" or a[1] == C(1):
                setone(st, "rd", T(c.res))
                setone(st, "buf", T(a[k]), T(c.res))
            if n == "read":
                setone(st, "noerr")
        elif n == "ferror":
            setone(st, "err", T(c.res))
        elif n == "open":
            setone(st, "new", T(c.res))

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] == "z_stream_s":
            if addr[3] in ("next_in", "avail_in"):
                if has(st, "z") and not has(st, "noin") and not A.le(st, A.load(st, self.Z(addr[1], "avail_in")), C(0)) and not has(st, "buf"):
                    A.report(st, i, "input is replaced before inflate took it")
                setone(st, "touched")
            elif addr[3] == "avail_out":
                setone(st, "outset")
        elif addr[0] == "fld" and addr[2:] == ("rebuild", "fdo"):
            x = one(st, "new")
            droptag(st, "open")
            if x is not None and val == x[1][1]:
                setone(st, "open")

    def ret(self, A, st, val, i):
        self.site("silo rebuilt or not", i)
        if A.eval(st, rel_eq(val, C(0))) is False:
            return
        if not has(st, "eof") or not has(st, "noerr"):
            A.report(st, i, "success is reported although the silo may not have been read to its end")
        if has(st, "got"):
            A.report(st, i, "output of inflate may be dropped")
        if not has(st, "fresh") and not has(st, "whole"):
            A.report(st, i, "success is reported although the last member may be incomplete")
        if has(st, "res") and not has(st, "more") and not has(st, "end"):
            A.report(st, i, "success is reported although decompressing failed")
        if any(("not", s) not in st.auto for s in self.bad):
            A.report(st, i, "success is reported although the last record may be incomplete")


class Main(FsRule):
    """a failure is part of the result"""
    nonzero = True

    def __init__(self, prog, fn):
        FsRule.__init__(self, prog)
        self.fn = fn

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.key == self.fn or c.name == "Silo_Iter" and len(c.args) > 1 and c.args[1] == ("f", self.fn):
            self.site("rebuilding run", c)
            out = []
            for k in (True, False):
                for s in A.assume(st.copy(), rel_eq(c.res, C(0)), k):
                    if not k:
                        setone(s, "bad")
                    out.append(s)
            return out

    def ret(self, A, st, val, i):
        if has(st, "bad") and A.eval(st, rel_eq(val, C(0))) is not False:
            A.report(st, i, "success is reported although a silo was not rebuilt")


def has_base(t, b):
    return t == b or t[0] == "lin" and any(x == b for x, _ in t[2])


def run(tier):
    p = Prog()
    res = Result("C22")
    it = sorted(k for k in p.callers(["inflate"]) if k in p.callers(["deflate"]))
    if len(it) != 1:
        raise AnalysisError("C22: the function which decompresses and compresses was not found")
    names = set()
    for b in p.m.raw[it[0]]["blocks"]:
        for i in b:
            if i["op"] == "call" and i.get("fn") == "deflate":
                names.add(i["loc"][-2][2] if len(i["loc"]) > 1 else "")
    if len(names) != 1:
        raise AnalysisError("C22: the function which takes decompressed data was not found: %s" % sorted(names))
    proc = names.pop()
    done, todo = set(), {(0, "idle")}
    while todo - done:
        a = min(todo - done)
        done.add(a)
        r = Proc(p, a)
        res.run(p, p.m.named(proc).key, r)
        todo |= r.next
    bad = sorted(set(s for s, ph in done if ph != "idle"))
    if 0 in bad:
        res.add("states", proc, "between records and inside one, the state is the same", function=proc)
    q = Prog(more=[proc, p.m.raw[it[0]]["name"]])
    res.run(q, it[0], Iter(q, (q.m.named(proc).key, bad)))
    users = sorted(set(q.callers([q.m.raw[it[0]]["name"]])))
    for k in users:
        res.run(q, k, Main(q, it[0]))
    if not users:
        raise AnalysisError("C22: nobody rebuilds silos")
    return res
