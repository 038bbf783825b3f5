"""C07: no silo grows past silo.max_size.
Appending: whenever bytes are written to an opened silo, the size found by
fstat() of that descriptor (or by positioning at its end) after the hold file
was created, plus the number of bytes of the write, is known on that path not
to exceed aardwarc.silo_maxsize.
Building: the space handed out for a new silo is never more than what is left
below the limit, nor more than the buffer; everything stored in a new silo was put
in space obtained since the last store to it, and is not longer than that space;
storing writes no more than it is asked to and accounts for it in the length; the
header written later occupies exactly the room made for it. The limit is not
changed after it was configured, and nothing else extends a silo or a hold file."""
from common import *

TITLE = "No silo grows past silo.max_size"
ASSUMES = ["the silo does not grow while its hold is owned by this process (C02)", "zlib does not count avail_out up"]


def maxterms(A, st):
    return [x[1][1] for x in has(st, "max")]


class R07a(FsRule):
    """writes to an opened silo"""
    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n = c.name
        if n in ("open", "fopen"):
            cls = self.pathclass(A, st, c.args[0])
            if cls[0] == "HOLD":
                setone(st, "hold")
                droptag(st, "size")
        elif n == "fstat" and has(st, "hold"):
            f = self.fdinfo(st, c.args[0])
            if f is not None and f[0][0] == "SILO":
                for x in has(st, "size"):
                    if x[1][1] == c.args[0]:
                        drop(st, x)
                put(st, "size", T(c.args[0]), T(A.load(st, ("fld", c.args[1], "stat", "st_size"))))
        elif n == "lseek" and c.args[2] == C(2) and c.args[1] == C(0) and has(st, "hold"):
            put(st, "size", T(c.args[0]), T(c.res))
        elif n in ("writev", "write"):
            for x in has(st, "size"):
                if x[1][1] == c.args[0]:
                    drop(st, x)
        return None

    def load(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("aardwarc", "silo_maxsize"):
            put(st, "max", T(val))
        return None

    def before(self, A, st, c):
        n = c.name
        if n in ("write", "writev", "pwrite", "pwritev", "fwrite", "ftruncate", "fputs", "fprintf", "fputc", "copy_file_range", "sendfile"):
            fd = c.args[{"fwrite": 3, "fputs": 1, "fputc": 1}.get(n, 0)]
            f = self.fdinfo(st, fd)
            if f is None or f[0][0] != "SILO":
                return
            if n not in ("write", "writev"):
                A.report(st, c, "a silo is modified by something else than write() or writev()")
                return
            self.site("append", c)
            tot, _ = reqlen(A, st, c)
            if tot is None or not any(A.le(st, add(s[2][1], tot), m) for s in has(st, "size") if s[1][1] == fd
                                      for m in maxterms(A, st)):
                A.report(st, c, "bytes are appended to a silo although its size after that is not known to be at most silo.max_size")


class R07b(FsRule):
    """handing out space: (writer, pointer, length)"""
    def load(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] in ("aardwarc", "wsilo"):
            put(st, "is", addr[3], T(val))
        return None

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] in ("aardwarc", "wsilo"):
            A.report(st, i, "handing out space changes the writer")
        elif addr == ("arg", 2):
            setone(st, "len", T(val))
        elif addr == ("arg", 1):
            setone(st, "ptr", T(val))
        return None

    def was(self, st, f):
        return [x[2][1] for x in has(st, "is") if x[1] == f]

    def ret(self, A, st, val, i):
        self.site("space", i)
        l, p = one(st, "len"), one(st, "ptr")
        if l is None or not any(A.le(st, l[1][1], sub(m, h)) for m in self.was(st, "silo_maxsize") for h in self.was(st, "hold_len")):
            A.report(st, i, "more space is handed out than is left below silo.max_size")
        if l is None or not any(A.le(st, l[1][1], b) for b in self.was(st, "buf_len")):
            A.report(st, i, "more space is handed out than the buffer has")
        if p is None or p[1][1] not in self.was(st, "buf_ptr"):
            A.report(st, i, "the space handed out is not the start of the buffer")


class R07c(FsRule):
    """using the space"""
    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.name == "Wsilo_GetSpace":
            setone(st, "space", T(c.args[0]), T(A.load(st, c.args[2])))
        elif c.name == "deflate":
            return A.assume(st, rel_le0(sub(C(0), A.load(st, ("fld", c.args[0], "z_stream_s", "avail_out")))), True)
        elif c.name == "Header_Len":
            return A.assume(st, rel_le0(sub(C(0), c.res)), True)
        return None

    def writer(self, A, st, a, b):
        """the same writer (that a segment's output goes to its own is part of C16)"""
        fa, fb = field_of(a), field_of(b)
        return A.same(st, a, b) or fa is not None and fb is not None and fa[:2] == fb[:2] == ("segment", "silo")

    def before(self, A, st, c):
        if c.name == "Wsilo_Store":
            self.site("store", c)
            sp = [x for x in has(st, "space") if self.writer(A, st, x[1][1], c.args[0])]
            if not sp:
                A.report(st, c, "bytes are stored without obtaining space since the last time")
            elif not A.le(st, c.args[1], sp[0][2][1]):
                A.report(st, c, "more bytes may be stored than there is space")
            for x in sp:
                drop(st, x)
            o = one(st, "sum")
            if o is not None:
                setone(st, "sum", T(add(o[1][1], c.args[1])))


class R07h(R07c):
    """making room for a header"""
    def start(self, A):
        return frozenset([("sum", T(C(0)))])

    def store(self, A, st, addr, val, i):
        if addr == ("fld", ("arg", 0), "wsilo", "hd_start"):
            if one(st, "sum")[1][1] != C(0) or not A.same(st, val, A.load(st, ("fld", ("arg", 0), "wsilo", "hold_len"))):
                A.report(st, i, "the position of the header is not the end of what was stored before it")
            setone(st, "start")
        return None

    def ret(self, A, st, val, i):
        self.site("header", i)
        if not has(st, "start"):
            A.report(st, i, "the position of the header is not recorded")
        if not A.same(st, one(st, "sum")[1][1], A.load(st, ("fld", ("arg", 0), "wsilo", "hd_len"))):
            A.report(st, i, "the room made for the header is not as long as recorded")


class R07w(FsRule):
    """writes to a hold file"""
    def start(self, A):
        return frozenset([("sum", T(C(0)))])

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("wsilo", "hold_len") and has(st, "wrote"):
            setone(st, "grown", T(sub(val, A.load(st, addr))))
        return None

    def before(self, A, st, c):
        n = c.name
        if n in ("write", "writev", "pwrite", "pwritev", "fwrite", "ftruncate", "fallocate", "posix_fallocate", "copy_file_range", "sendfile"):
            fd = c.args[3 if n == "fwrite" else 0]
            f = self.fdinfo(st, fd)
            if f is None or f[0][0] != "HOLD":
                return
            tot, parts = reqlen(A, st, c)
            base = fd[2][1] if is_field(fd, "wsilo", "hold_fd") else None
            if n == "pwrite" and base is not None:
                self.site("header write", c)
                if not A.same(st, c.args[3], A.load(st, ("fld", base, "wsilo", "hd_start"))) or \
                        not A.le(st, tot, A.load(st, ("fld", base, "wsilo", "hd_len"))):
                    A.report(st, c, "what is written over is not the room made for the header")
                return
            if n != "write" or base is None:
                A.report(st, c, "a hold file is modified by something else than its writer")
                return
            self.site("hold write", c)
            setone(st, "wrote", T(tot))
            if ("arg", 1) != tot and not A.le(st, tot, ("arg", 1)):
                A.report(st, c, "more bytes are written than asked for")
            if not A.le(st, tot, A.load(st, ("fld", base, "wsilo", "buf_len"))):
                A.report(st, c, "more bytes are written than the buffer has")

    def ret(self, A, st, val, i):
        if has(st, "wrote"):
            g = one(st, "grown")
            if g is None or not (A.same(st, g[1][1], ("arg", 1))):
                A.report(st, i, "the length of the new silo is not increased by what was stored")


class R07l(FsRule):
    """the limit"""
    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("aardwarc", "silo_maxsize"):
            self.site("limit", i)
            if not A.fn.name == "AardWARC_New":
                A.report(st, i, "the limit is changed")
        return None


def run(tier):
    p = Prog()
    res = Result("C07")
    jobs = []
    for k in p.entries():
        n = p.m.raw[k]["name"]
        cs = p.calls_in(k)
        if cs & {"write", "writev", "pwrite", "pwritev", "fwrite", "ftruncate", "sendfile", "copy_file_range", "fallocate", "posix_fallocate"}:
            jobs += [(R07a, k), (R07w, k)]
        if n == "Wsilo_GetSpace":
            jobs.append((R07b, k))
        if "Wsilo_Store" in cs:
            jobs.append((R07h if n == "Wsilo_Header" else R07c, k))
        if p.stores_field(k, "aardwarc", "silo_maxsize"):
            jobs.append((R07l, k))

    def job(k):
        r = Result("C07")
        r.run(p, k[1], k[0](p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for k, n in (("append", 1), ("space", 1), ("store", 5), ("header", 1), ("header write", 1), ("hold write", 1), ("limit", 1)):
        res.need(k, n)
    return res
