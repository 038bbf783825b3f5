"""C08: writers and readers agree on the record framing.
 (a) the constants: the gzip header template all ends compare with, the extra
     field deflate is given, and the separator member agree: FEXTRA set, its
     length that of the extra field, 'Aa' and 8 at its start; the length comes
     right after the template; the separator is a gzip member of CRLF CRLF;
 (b) the length is written (into a silo, and into a member made in memory) and
     read (by the silo reader and the gzip delivery) as little-endian 64 bit
     right after a template that was found equal; both kinds of XFL deflate
     makes are accepted; what is skipped of the member is template and length;
 (c) a stream is given the extra field between its initialisation as gzip and
     its first use; the member made in memory is complete and its length is
     stored in it;
 (d) the length written into a silo is that of the whole member: from the end
     of the header to the separator (segments), or from where the output was
     before the body to where it is after deflate ended (rebuild), written at
     the start of the member, and the separator follows;
 (e) room for the header and the header which replaces it are equally long;
 (f) the reader takes the body length from the member behind the header, seeks
     or reads exactly that, and then exactly the separator."""
from common import *
import gzip as _gz, re

TITLE = "Writers and readers agree on the record framing"
ASSUMES = ["zlib writes the extra field it is given by deflateSetHeader at its documented place", "results of reads, writes and seeks are checked (C04)"]
SEP = "Gzip_crnlcrnl"


def gbytes(p, name):
    g = p.m.globals.get(name)
    if g is None:
        return None
    i = g["init"]
    if i[0] == "b":
        return bytes.fromhex(i[1])
    if i[0] == "z":
        return bytes(g["size"])
    if i[0] in ("st", "arr"):
        vals = [v for _, v in i[2]] if i[0] == "st" else i[1]
        out = b""
        for v in vals:
            if v[0] == "c":
                out += bytes([v[1] & 255])
            elif v[0] == "b":
                out += bytes.fromhex(v[1])
            elif v[0] == "z":
                out += bytes(g["size"] - len(out))
            else:
                return None
        return out
    return None


class KS:
    def name(self, kind, what):
        self.sites.setdefault(kind, set()).add(what)


class Base(KS, FsRule):
    """what was found to begin with the template"""
    dull = frozenset(["strcmp", "strcasecmp", "VSB_len"])

    def __init__(self, prog):
        FsRule.__init__(self, prog)
        self.tmpl = set()
        self.extra = set()

    def copied(self, st, c):
        n = int(c.args[2][1]) if is_c(c.args[2]) else 0
        for x in has(st, "copy"):
            if x[1][1] == c.args[0]:
                drop(st, x)
        put(st, "copy", T(c.args[0]), T(c.args[1]), n)

    def call(self, A, st, c):
        n = c.name
        if n in ("llvm.memcpy.p0.p0.i64", "memcpy"):
            self.copied(st, c)
        elif n == "le64dec":
            self.length(A, st, c, "read")
        elif n == "le64enc":
            self.length(A, st, c, "written")
        return None

    def length(self, A, st, c, what):
        self.site("length " + what, c)
        for x in has(st, "good"):
            n = len(gbytes(self.p, x[2]))
            if add(x[1][1], C(n)) == c.args[0]:
                self.site("length %s behind the template" % what, c)
                self.behind(A, st, c, x[1][1])
                return True
            if x[3] and c.args[0] == x[1][1] and what == "written":
                # goes to where reading the template has left the file
                setone(st, "enc", T(c.args[0]), T(c.args[1]), x[1])
                return True
        A.report(st, c, "a length is %s at a place which is not known to be right behind the header with the extra field" % what)

    def behind(self, A, st, c, base):
        pass

    def branch(self, A, st, i, cond):
        """compared with the template"""
        for t in subterms(cond):
            if t[0] == "pure" and t[1] in ("memcmp", "bcmp") and A.eval(st, rel_eq(t, C(0))) is True:
                a, b, n = t[2]
                if b[0] != "g":
                    a, b = b, a
                if b[0] != "g":
                    continue
                g = gbytes(self.p, b[1])
                if g is None or n != C(len(g)) or len(g) < 16 or b[1] == SEP:
                    continue
                self.tmpl.add(b[1])
                self.name("template", b[1])
                xfl = A.load(st, add(a, C(8)))
                src = a
                for x in has(st, "copy"):
                    if x[1][1] == a and x[3] >= len(g):
                        src = x[2][1]
                for x in has(st, "xfl"):
                    self.site("accepts XFL %d" % x[1], i)
                if not has(st, "xfl"):
                    self.site("accepts XFL 2", i)
                put(st, "good", T(src), b[1], any(x[1][1] == src for x in has(st, "filled")))
            elif t[0] == "mem" and t[2][0] == "lin" and t[2][1] == 8 and not t[1]:
                pass
        for t in subterms(cond):
            if t[0] == "mem" or t[0] == "pure":
                for v in (2, 4):
                    if t[0] == "mem" and A.eval(st, rel_eq(t, C(v))) is True:
                        put(st, "xfl", v)


class Aa(Base):
    def start(self, A):
        return frozenset()

    def call(self, A, st, c):
        n = c.name
        if n == "read":
            if has(st, "filled") or c.args[0] != ("arg", 0):
                A.report(st, c, "the header is not read from where the file is positioned")
        elif n in ("lseek", "pread", "pwrite") and self.fn == "Gzip_WriteAa":
            A.report(st, c, "the position in the file is changed between the header and the length")
        elif n == "write" and self.fn == "Gzip_WriteAa":
            self.site("length stored", c)
            e = one(st, "enc")
            if e is None or c.args[0] != ("arg", 0) or c.args[1] != e[1][1] or e[2][1] != ("arg", 1) or c.args[2] != C(8):
                A.report(st, c, "what is written behind the header is not the 8 bytes of the length given")
        return Base.call(self, A, st, c)

    def after(self, A, st, c):
        if c.name == "read" and is_c(c.args[2]):
            put(st, "filled", T(c.args[1]), c.args[2][1])
            put(st, "rd", T(c.res))

    def branch(self, A, st, i, cond):
        Base.branch(self, A, st, i, cond)
        for x in has(st, "good"):
            for f in has(st, "filled"):
                if f[1] == x[1] and f[2] != len(gbytes(self.p, x[2])):
                    A.report(st, i, "reading the header does not leave the file right behind it")

    def behind(self, A, st, c, base):
        if c.name == "le64dec":
            put(st, "len", T(c.args[0]))

    def ret(self, A, st, val, i):
        self.site("done", i)
        if self.fn == "Gzip_WriteAa":
            if not has(st, "stored"):
                A.report(st, i, "the length may not have been stored")
        elif self.fn == "Gzip_ReadAa":
            if not (val is not None and val[0] == "pure" and val[1] == "le64dec" and any(x[1][1] == val[2][0] for x in has(st, "len"))):
                A.report(st, i, "what is returned is not the length found behind the header")
            if not A.le(st, C(1), val):
                A.report(st, i, "a length which is not positive is accepted")


class AaR(Aa):
    def __init__(self, prog, fn):
        Aa.__init__(self, prog)
        self.fn = fn

    def after(self, A, st, c):
        Aa.after(self, A, st, c)
        if c.name == "write":
            put(st, "stored")


class Vsb(Base):
    """a member made in memory"""
    def call(self, A, st, c):
        n = c.name
        if n == "deflate":
            z = c.args[0]
            f = lambda x: A.load(st, ("fld", z, "z_stream_s", x))
            if has(st, "out"):
                A.report(st, c, "what deflate produced before was not appended")
            if not has(st, "begun"):
                put(st, "begun")
                ok = [x for x in has(st, "in") if f("next_in") == ("pure", "VSB_data", (x[1][1],), ()) or
                      call_is(f("next_in"), "VSB_data", x[1][1]) and call_is(f("avail_in"), "VSB_len", x[1][1])]
                if not call_is(f("next_in"), "VSB_data", None) or not call_is(f("avail_in"), "VSB_len", f("next_in")[2][0]):
                    A.report(st, c, "deflate is not given the whole input")
            if c.args[1] != C(4):
                A.report(st, c, "deflate is not told that the input is complete")
            put(st, "out", T(f("next_out")), T(f("avail_out")), T(z))
        elif n == "VSB_bcat":
            o = one(st, "out")
            if o is not None:
                left = A.load(st, ("fld", o[3][1], "z_stream_s", "avail_out"))
                if c.args[1] != o[1][1] or not A.same(st, c.args[2], sub(o[2][1], left)):
                    A.report(st, c, "what is appended is not what deflate produced")
                droptag(st, "out")
                setone(st, "to", T(c.args[0]))
        elif n == "deflateEnd":
            self.site("member ended", c)
            r = one(st, "res")
            if r is None or A.eval(st, rel_eq(r[1][1], C(1))) is not True:
                A.report(st, c, "the member may not have been completed")
            if has(st, "out"):
                A.report(st, c, "what deflate produced last was not appended")
        return Base.call(self, A, st, c)

    def after(self, A, st, c):
        if c.name == "deflate":
            setone(st, "res", T(c.res))
        elif c.name == "VSB_finish":
            setone(st, "fin", T(c.args[0]))

    def behind(self, A, st, c, base):
        o = one(st, "to")
        f = one(st, "fin")
        if o is None or f is None or f[1][1] != o[1][1] or not call_is(base, "VSB_data", o[1][1]) or \
                not call_is(c.args[1], "VSB_len", o[1][1]):
            A.report(st, c, "the length stored in the member is not that of the finished member")
        setone(st, "stored", T(o[1][1]) if o else None)

    def ret(self, A, st, val, i):
        s = one(st, "stored")
        if s is None or A.load(st, ("arg", 0)) != s[1][1]:
            A.report(st, i, "what is handed back is not the member its length was stored in")


def call_is(t, fn, arg):
    return isinstance(t, tuple) and t[0] == "pure" and t[1] == fn and (arg is None or t[2][0] == arg)


class Init(KS, FsRule):
    """(c) streams"""
    dull = Base.dull

    def before(self, A, st, c):
        if c.name == "deflate":
            self.done(A, st, c, "used")

    def done(self, A, st, c, what):
        for x in has(st, "init"):
            A.report(st, c, "a gzip stream is %s without having been given the extra field for its length" % what)
            drop(st, x)

    def call(self, A, st, c):
        n = c.name
        if n in ("Gzip_InitDeflate", "deflateInit2_", "deflateInit_"):
            if self.fn == "Gzip_InitDeflate":
                pass
            if n != "Gzip_InitDeflate" and (n == "deflateInit_" or c.args[3] != C(31)):
                A.report(st, c, "a stream is begun which is not gzip")
            if self.fn != "Gzip_InitDeflate":
                self.site("stream begun", c)
                put(st, "init", T(c.args[0]))
        elif n in ("Gzip_AddAa", "deflateSetHeader"):
            for x in has(st, "init"):
                if x[1][1] == c.args[0] or A.same(st, x[1][1], c.args[0]):
                    drop(st, x)
            if n == "deflateSetHeader":
                self.site("extra field given", c)
                g = self.p.m.globals.get(c.args[1][1]) if c.args[1][0] == "g" else None
                e = dict((k, v) for k, v in g["init"][2]) if g is not None and g["init"][0] == "st" else {}
                x = gbytes(self.p, e["extra"][1]) if e.get("extra", [""])[0] == "g" else None
                if x is None or e.get("extra_len") != ["c", len(x)] or e.get("os") != ["c", 3] or \
                        any(e.get(k, ["c", 0])[1] for k in ("text", "time", "name", "comment", "hcrc")):
                    A.report(st, c, "the header deflate is given is not the one expected with the extra field")
                else:
                    self.name("extra " + x.hex(), "deflateSetHeader")
        return None

    def ret(self, A, st, val, i):
        self.done(A, st, i, "left")


class InitR(Init):
    def __init__(self, prog, fn):
        Init.__init__(self, prog)
        self.fn = fn


class Sep(FsRule):
    """the separator"""
    dull = Base.dull

    def before(self, A, st, c):
        if has(st, "sep") and c.name in ("Wsilo_GetSpace", "Wsilo_Finish", "Wsilo_Install", "Wsilo_Commit"):
            A.report(st, c, "the separator may not have been stored")
            droptag(st, "sep")

    def call(self, A, st, c):
        n = c.name
        if n in ("llvm.memcpy.p0.p0.i64", "memcpy") and c.args[1] == ("g", SEP):
            self.site("separator stored", c)
            if c.args[2] != C(24) or not any(x[1][1] == c.args[0] for x in has(st, "space")):
                A.report(st, c, "the separator is not put whole into the space obtained")
            setone(st, "sep")
        elif n == "Wsilo_Store" and has(st, "sep"):
            droptag(st, "sep")
            if c.args[1] != C(24):
                A.report(st, c, "not exactly the separator is stored")
        elif n in ("write", "pwrite", "fwrite") and ("g", SEP) in c.args[:2]:
            self.site("separator stored", c)
            if c.args[2] != C(24):
                A.report(st, c, "not exactly the separator is written")
        return None

    def after(self, A, st, c):
        if c.name == "Wsilo_GetSpace":
            setone(st, "space", T(A.load(st, c.args[1])))

    def ret(self, A, st, val, i):
        if has(st, "sep"):
            A.report(st, i, "the separator may not have been stored")


class Finish(FsRule):
    """(d)"""
    dull = Base.dull

    def call(self, A, st, c):
        n = c.name
        if n == "lseek":
            setone(st, "pos", T(c.args[0]), T(c.args[1]), c.args[2][1] if is_c(c.args[2]) else None)
            if tuple(c.args[1:]) == (C(0), C(1)):
                droptag(st, "pos")
        elif n == "Gzip_WriteAa":
            self.site("length of the body written", c)
            p = one(st, "pos")
            if p is None or p[3] != 0 or p[1][1] != c.args[0]:
                A.report(st, c, "the length of the body is written without the position of its member having been set")
                return None
            q = p[2][1]
            if self.field(q, "hd_start") and self.field(q, "hd_len"):
                self.site("segment", c)
                if not self.is_end(A, st, add(c.args[1], add(q, C(24)))):
                    A.report(st, c, "the length written is not that of the member between the header and the separator")
            elif is_field(q, "rebuild", "body_start") or has(st, "start") and q == one(st, "start")[1][1]:
                self.site("rebuild", c)
                e = one(st, "end")
                if e is None or not A.same(st, c.args[1], sub(e[1][1], q)):
                    A.report(st, c, "the length written is not that of what was written since the start of the member")
                setone(st, "after", e[1] if e is not None else T(C(0)))
            else:
                A.report(st, c, "the length of the body is written somewhere else than at the start of its member")
        elif n == "write":
            if has(st, "after"):
                self.site("separator behind the body", c)
                p = one(st, "pos")
                a = one(st, "after")
                if p is None or p[3] != 0 or p[2][1] != a[1][1] or c.args[1] != ("g", SEP):
                    A.report(st, c, "the separator is not written right behind the body")
                droptag(st, "after")
            droptag(st, "end")
            droptag(st, "here")
        elif n in ("deflateEnd",):
            setone(st, "ended")
        elif n in ("deflate", "Gzip_InitDeflate"):
            droptag(st, "ended")
        return None

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.name == "lseek" and tuple(c.args[1:]) == (C(0), C(1)):
            setone(st, "here", T(c.res))
            if has(st, "ended"):
                setone(st, "end", T(c.res))

    def field(self, t, f):
        return t[0] == "lin" and any(is_field(x, "wsilo", f) and k == 1 for x, k in t[2]) and len(t[2]) == 2 and t[1] == 0

    def is_end(self, A, st, t):
        return is_field(t, "wsilo", "hold_len")

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("rebuild", "body_start"):
            self.site("start of the member noted", i)
            h = one(st, "here")
            if h is None or h[1][1] != val:
                A.report(st, i, "the start of the member is not noted as where the output is")
            setone(st, "start", T(val))


class Room(FsRule):
    """(e)"""
    dull = frozenset(["strcmp", "strcasecmp"])

    def start(self, A):
        return frozenset([("stored", T(C(0)))])

    def call(self, A, st, c):
        if c.name == "Wsilo_Store" and self.fn == "Wsilo_Header":
            x = one(st, "stored")
            setone(st, "stored", T(add(x[1][1], c.args[1])))
            setone(st, "silo", T(c.args[0]))
        elif c.name == "pwrite":
            self.site("header replaced", c)
            sl = root(c.args[3])
            v = c.args[1]
            L = c.args[2]
            if not call_is(v, "VSB_data", None) or not A.same(st, ("pure", "VSB_len", v[2], v[3]), L):
                A.report(st, c, "the header which replaces the reserved room may not fill it exactly")
            if not is_field(c.args[3], "wsilo", "hd_start") or not (is_field(L, "wsilo", "hd_len") or any(
                    is_field(x, "wsilo", "hd_len") and A.same(st, x, L) for x in self.lens(A, st, c.args[3]))):
                A.report(st, c, "the header is not written to the room reserved for it")
        return None

    def branch(self, A, st, i, cond):
        if self.fn == "Wsilo_Commit":
            for t in subterms(cond):
                if call_is(t, "VSB_len", None):
                    setone(st, "cmp", T(t))

    def lens(self, A, st, start):
        a = start[2]
        return [A.load(st, ("fld", a[1], "wsilo", "hd_len"))] if a[0] == "fld" else []

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] == "wsilo":
            if addr[3] == "hd_start":
                self.site("start of the header noted", i)
                ok = is_field(val, "wsilo", "hold_len") and one(st, "stored")[1][1] == C(0)
                if not ok:
                    A.report(st, i, "the start of the header is not noted as where the output is")
                put(st, "st")
            elif addr[3] == "hd_len":
                setone(st, "hl", T(val), T(addr))

    def ret(self, A, st, val, i):
        if self.fn == "Wsilo_Header":
            self.site("room reserved", i)
            h = one(st, "hl")
            if h is None or not A.same(st, h[1][1], one(st, "stored")[1][1]) or not has(st, "st"):
                A.report(st, i, "the room noted for the header is not what was stored for it")


class RoomR(Room):
    def __init__(self, prog, fn):
        Room.__init__(self, prog)
        self.fn = fn


class Rsilo(FsRule):
    """(f)"""
    dull = Base.dull

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("rsilo", "silo_bodylen"):
            d = sub(val, A.load(st, addr))
            r = one(st, "got")
            if val == C(0) and not has(st, "aa"):
                return
            a = one(st, "aa")
            if a is not None and val == a[1][1]:
                self.site("body length taken", i)
            elif r is not None and d == neg_(r[1][1]):
                self.site("body length counted down", i)
                if has(st, "counted"):
                    A.report(st, i, "what was read is counted twice")
                setone(st, "counted")
            else:
                A.report(st, i, "the length of the body is changed to something else than what is left of it")

    def before(self, A, st, c):
        if c.name == "read" and self.fn == "Rsilo_ReadGZChunk":
            self.site("body read", c)
            left = A.load(st, ("fld", ("arg", 0), "rsilo", "silo_bodylen"))
            if not A.le(st, c.args[2], left):
                A.report(st, c, "more than the body may be read")
            if has(st, "got") and not has(st, "counted"):
                A.report(st, c, "what was read is not counted")
            droptag(st, "counted")

    def call(self, A, st, c):
        n = c.name
        if n == "Gzip_ReadAa":
            self.site("length of the body read", c)
            z = one(st, "z")
            if z is None or A.eval(st, rel_eq(z[2][1], C(1))) is not True:
                A.report(st, c, "the length of the body is looked for without the header having been read to its end")
            elif c.args[0] != A.load(st, ("fld", z[1][1], "z_stream_s", "next_in")) or \
                    c.args[1] != A.load(st, ("fld", z[1][1], "z_stream_s", "avail_in")):
                A.report(st, c, "the length of the body is not taken from the member behind the header")
        elif n == "lseek" and self.fn == "Rsilo_NextHeader":
            self.site("body skipped", c)
            o = add(c.args[1], C(-24))
            if not is_field(o, "rsilo", "silo_bodylen") or c.args[2] != C(1):
                A.report(st, c, "skipping a body is not by its length and that of the separator")
        elif c.fptr is not None and self.fn == "Rsilo_ReadGZChunk":
            r = one(st, "got")
            if r is None or c.args[1] != r[2][1] or c.args[2] != r[1][1]:
                A.report(st, c, "what is handed on is not what was read")
        return None

    def after(self, A, st, c):
        n = c.name
        if n == "inflate":
            setone(st, "z", T(c.args[0]), T(c.res))
        elif n == "Gzip_ReadAa":
            setone(st, "aa", T(c.res))
        elif n == "read":
            setone(st, "got", T(c.res), T(c.args[1]), T(c.args[2]))
        elif c.fptr is not None:
            setone(st, "cb", T(c.res))

    def branch(self, A, st, i, cond):
        if self.fn == "Rsilo_ReadGZChunk":
            setone(st, "left", T(A.load(st, ("fld", ("arg", 0), "rsilo", "silo_bodylen"))))
        for t in subterms(cond):
            if t[0] == "pure" and t[1] in ("memcmp", "bcmp") and A.eval(st, rel_eq(t, C(0))) is True and ("g", SEP) in t[2] and A.eval(st, rel_eq(t[2][2], C(24))) is True:
                r = one(st, "got")
                if r is not None and r[2][1] in t[2] and A.eval(st, rel_eq(r[1][1], C(24))) is True:
                    put(st, "sep")

    def ret(self, A, st, val, i):
        if self.fn == "Rsilo_ReadGZChunk":
            self.site("body read to its end", i)
            cb = one(st, "cb")
            left = A.load(st, ("fld", ("arg", 0), "rsilo", "silo_bodylen"))
            if not (cb is not None and A.eval(st, rel_eq(cb[1][1], C(0))) is False) and not A.le(st, left, C(0)):
                A.report(st, i, "the body may not have been read to its end")
        elif self.fn == "Rsilo_SkipCRNL":
            self.site("separator read", i)
            r = one(st, "got")
            if not has(st, "sep") or r is None or r[3][1] != C(24):
                A.report(st, i, "not exactly a separator was read")


class RsiloR(Rsilo):
    def __init__(self, prog, fn):
        Rsilo.__init__(self, prog)
        self.fn = fn


def neg_(t):
    return mulc(t, -1)


class Stitch(Base):
    """the gzip delivery"""
    WANT = (0, 1, 2, 3, 12, 13, 14, 15)

    def start(self, A):
        return frozenset()

    def call(self, A, st, c):
        if c.name == "le64dec":
            b = add(c.args[0], C(-16))
            self.site("length used by the gzip delivery", c)
            t = sorted(self.known)[0] if self.known else None
            g = gbytes(self.p, t) if t else None
            for k in self.WANT:
                v = [x for x in has(st, "byte") if x[1][1] == add(b, C(k))]
                if g is None or not any(x[2] == g[k] for x in v):
                    A.report(st, c, "the length is taken from what is not known to begin with the header all writers make")
                    break
            setone(st, "hd", T(b))
            return None
        return None

    def branch(self, A, st, i, cond):
        for t in subterms(cond):
            if t[0] == "mem":
                lo, hi = A.interval(st, t)
                if lo == hi:
                    put(st, "byte", T(t[2]), int(lo) & 255)

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[3] == "gzlen":
            if any(call_is(t, "le64dec", None) for t in subterms(val)):
                x = [t for t in subterms(val) if call_is(t, "le64dec", None)][0]
                d = sub(val, x)
                setone(st, "skipped", int(d[1]) if is_c(d) else None)


def constants(p, res, tm, ex):
    def bad(msg):
        res.add("const:" + msg, "gzip.c", msg, function="constants")
    s = gbytes(p, SEP)
    try:
        ok = len(s) == 24 and _gz.decompress(s) == b"\r\n\r\n"
    except Exception:
        ok = False
    res.site("constant", SEP)
    if not ok:
        bad("the separator is not a gzip member of 24 bytes holding CRLF CRLF")
    if len(tm) != 1 or len(ex) != 1:
        bad("the ends do not use the same header (%d) and extra field (%d)" % (len(tm), len(ex)))
        return
    t = gbytes(p, tm[0])
    x = bytes.fromhex(ex[0])
    res.site("constant", tm[0])
    res.site("constant", "extra field")
    if t[:4] != b"\x1f\x8b\x08\x04" or len(t) != 16 or t[4:8] != bytes(4) or t[9] != 3:
        bad("the header compared with is not that of a gzip member with an extra field")
    if int.from_bytes(t[10:12], "little") != len(x) or t[12:16] != x[:4] or x[:4] != b"Aa\x08\x00" or len(x) != 12:
        bad("the header compared with does not agree with the extra field streams are given")


def run(tier):
    p = Prog()
    res = Result("C08")

    def key(n):
        return p.m.named(n).key
    jobs = [(AaR, key("Gzip_ReadAa"), "Gzip_ReadAa"), (AaR, key("Gzip_WriteAa"), "Gzip_WriteAa"), (Vsb, key("Gzip_Vsb"), None)]
    jobs += [(InitR, k, p.m.raw[k]["name"]) for k in p.callers({"Gzip_InitDeflate", "deflateInit2_", "deflateInit_", "Gzip_AddAa", "deflateSetHeader"})]
    uses = [k for k in p.entries() if any(("g", SEP) == tuple(o[:2]) for b in p.m.raw[k]["blocks"] for i in b
            for o in (i["ops"] if i["op"] == "call" else ()) if isinstance(o, (list, tuple)))]
    jobs += [(Sep, k, None) for k in uses]
    jobs += [(Finish, k, None) for k in p.callers({"Gzip_WriteAa"})]
    jobs += [(RoomR, key(n), n) for n in ("Wsilo_Header", "Wsilo_Commit")]
    jobs += [(RsiloR, key(n), n) for n in ("Rsilo_ReadHeader", "Rsilo_NextHeader", "Rsilo_ReadGZChunk", "Rsilo_ReadChunk", "Rsilo_SkipCRNL", "Rsilo_Open")]

    def job(k):
        r = Result("C08")
        r.run(p, k[1], k[0](p, k[2]) if k[2] is not None else k[0](p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    tm = sorted(res.sites.get("template", ()))
    ex = sorted({k[6:] for k in res.sites if k.startswith("extra ") and k != "extra field given"})
    constants(p, res, tm, ex)
    s = Stitch(p)
    s.known = tm
    r = Result("C08")
    r.run(p, key("gzip_stitch_feed"), s)
    res.merge(r)
    for v in (2, 4):
        if not res.count("accepts XFL %d" % v) and res.count("template"):
            res.add("xfl %d" % v, "gzip.c", "a member deflate made at a level which makes XFL %d is not accepted" % v, function="constants")
    for k, n in (("length read behind the template", 1), ("length written behind the template", 1), ("accepts XFL 2", 1), ("accepts XFL 4", 1),
                 ("length stored", 1), ("member ended", 1), ("stream begun", 3), ("extra field given", 1), ("separator stored", 3),
                 ("length of the body written", 2), ("segment", 1), ("rebuild", 1), ("separator behind the body", 1),
                 ("start of the member noted", 1), ("header replaced", 1), ("start of the header noted", 1), ("room reserved", 1),
                 ("body length taken", 1), ("body length counted down", 1), ("length of the body read", 1), ("body skipped", 1),
                 ("body read", 1), ("body read to its end", 1), ("separator read", 1), ("length used by the gzip delivery", 1), ("constant", 3)):
        res.need(k, n)
    return res
