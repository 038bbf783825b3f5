"""C09: index entries are written and read with the same layout.
 (a) whoever writes to the appendix writes exactly the 32 bytes of one buffer,
     in which, by then, bytes 0-11 hold digits of its ID argument, and the
     flags, silo and offset arguments and the digits of the continuation are
     at 12, 16, 20 and 28, encoded big-endian in 4, 4, 8 and 4 bytes;
 (b) whoever hands entries to the function it was given reads 32 bytes, and
     passes the key printed from the big-endian words at 0 (8 bytes) and 8,
     and the words at 12, 16, 20 (8 bytes) and, printed, at 28;
 (c) the table at the start of the sorted index: whoever writes it writes
     2^b words of 8 bytes in order, b >= 2, the first of which is
     0x4161<<48 | b<<40 | number of entries (below 2^40); whoever reads from
     the sorted index checks 0x4161, takes b and the number from the same
     bits, and reads entries only at the end of the table or at 32*(bucket +
     prediction) when that is known not to be inside the table; both make
     the same bucket number and prediction from the key, and the bucket holds
     entry number minus prediction;
 (d) between the places where an offset, size or silo number arises and the
     index, and between the index and where they are used, no value is cut to
     fewer bits (program-wide flow on the representation before inlining)."""
from common import *
from narrow import Flow
from engine import Module

TITLE = "Index entries are written and read with the same layout"
TECHNIQUE = "static analysis: path-sensitive value-numbering dataflow of buffer layouts over LLVM IR, plus a whole-program forward flow of 64-bit values to narrowing conversions"
ASSUMES = ["be32enc/be64enc/be32dec/be64dec are the inverse big-endian conversions their names say",
           "silo files are read and written by functions whose results are checked elsewhere (C04)"]
LAYOUT = {12: ("be32", 2, "flags"), 16: ("be32", 3, "silo"), 20: ("be64", 4, "offset")}


def off(a, b):
    """a - b if constant"""
    d = sub(a, b)
    return d[1] if is_c(d) else None


def strip(t):
    """without the generations of what was read"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "pure":
        return ("pure", t[1], tuple(strip(x) for x in t[2]), ())
    if t[0] == "mem":
        return ("mem", (), strip(t[2]))
    if t[0] == "lin":
        return ("lin", t[1], tuple(sorted(((strip(x), k) for x, k in t[2]), key=repr)))
    return tuple(strip(x) if isinstance(x, tuple) else x for x in t)


def _pow2(n):
    return n.bit_length() - 1 if n > 0 and not n & (n - 1) else None


def norm(t):
    """shifts for divisions by powers of two, masks for remainders"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "op":
        o, a, b = t[1], norm(t[2]), norm(t[3])
        k = _pow2(b[1]) if is_c(b) else None
        if o == "udiv" and k is not None:
            o, b = "lshr", C(k)
        elif o == "urem" and k is not None:
            o, b = "and", C(b[1] - 1)
        elif o == "shl" and is_c(a) and _pow2(a[1]) is not None and a[1] > 1:
            return mulc(norm(("op", "shl", C(1), b)), a[1])
        elif o == "shl" and a == C(1) and b[0] == "lin" and 0 < b[1] < 64:
            return mulc(("op", "shl", a, add(b, C(-b[1]))), 1 << b[1])
        if o in ("mul", "and") and repr(a) > repr(b):
            a, b = b, a
        return ("op", o, a, b)
    if t[0] == "lin":
        r = C(t[1])
        for x, k in t[2]:
            r = add(r, mulc(norm(x), k))
        return r
    if t[0] in ("ors", "and", "or"):
        return (t[0], tuple(sorted((norm(x) for x in t[1]), key=repr)))
    return t


def same(a, b):
    return norm(strip(a)) == norm(strip(b))


class Writer(FsRule):
    """(a)"""
    cursors = frozenset(["E0", "E28"])
    dull = frozenset(["VSB_len"])

    def reg(self, st, o, w, what):
        for x in has(st, "at"):
            if x[1] < o + w and o < x[1] + x[2]:
                drop(st, x)
        put(st, "at", o, w, what)

    def call(self, A, st, c):
        n = c.name
        if n in ("be16enc", "be32enc", "be64enc", "le16enc", "le32enc", "le64enc"):
            r = root(c.args[0])
            o = off(c.args[0], r)
            if r[0] == "alloca" and o is not None:
                w = int(n[2:4]) // 8
                self.reg(st, o, w, (n[:4], c.args[1][1] if c.args[1][0] == "arg" else None))
                setone(st, "buf", T(r))
        elif n == "write":
            k = self.fdinfo(st, c.args[0])
            if k is None or k[0] != ("INDEX", "appendix"):
                return None
            self.site("entry written", c)
            b = one(st, "buf")
            if b is None or c.args[1] != b[1][1] or c.args[2] != C(32):
                A.report(st, c, "what is written to the appendix is not the 32 bytes of one entry")
                return None
            for o, (enc, arg, txt) in LAYOUT.items():
                x = [x for x in has(st, "at") if x[1] == o]
                if len(x) != 1 or x[0][3] != (enc, arg) or x[0][2] != int(enc[2:]) // 8:
                    A.report(st, c, "the entry written does not have the %s at byte %d as %s bit big-endian" % (txt, o, enc[2:]))
            for o, n_, arg, txt in ((0, 12, 1, "ID"), (28, 4, 5, "continuation")):
                for x in has(st, "E%d" % o):
                    if not A.le(st, add(b[1][1], C(o + n_)), x[1][1]):
                        A.report(st, c, "not all of the bytes of the entry for the %s are set from it" % txt)
                if not any(x[1] == o and x[2] == arg for x in has(st, "dig")) and \
                        not (arg == 5 and A.isnull(st, ("arg", 5))) and not has(st, "empty%d" % arg):
                    A.report(st, c, "the entry written does not have the digits of the %s at byte %d" % (txt, o))
        return None

    def store(self, A, st, addr, val, i):
        r = root(addr)
        for o in (0, 28):
            x = one(st, "E%d" % o)
            if x is not None and A.same(st, x[1][1], addr):
                setone(st, "E%d" % o, T(add(addr, C(1))))
        if r is None or r[0] != "alloca":
            return None
        o = off(addr, r)
        if o not in (0, 28):
            return None
        if not has(st, "E%d" % o):
            put(st, "E%d" % o, T(add(addr, C(1))))
        n, arg = (12, 1) if o == 0 else (4, 5)
        for t in subterms(val):
            if t[0] == "mem":
                a = root(t[2])
                if a == ("arg", arg):
                    put(st, "dig", o, arg)
                    self.site("digits of the " + ("ID" if arg == 1 else "continuation"), i)
                elif a is not None and a[0] == "arg":
                    A.report(st, i, "digits of argument %d are stored at byte %d of the entry" % (a[1], o))
        return None

    def branch(self, A, st, i, cond):
        for arg in (1, 5):
            for t in subterms(cond):
                if t[0] == "mem" and t[2] == ("arg", arg) and A.le(st, t, C(0)):
                    put(st, "empty%d" % arg)


class Reader(FsRule):
    """(b)"""
    dull = frozenset(["VSB_len", "strspn"])

    def dullmem(self, addr):
        return True

    def dullread(self, addr):
        return root(addr) == ("arg", 1)

    def word(self, t, fn, b, o):
        return t[0] == "pure" and t[1] == fn and t[2][0] == add(b, C(o))

    def call(self, A, st, c):
        if c.fptr is not None and c.fptr == ("arg", 2):
            self.site("entry handed on", c)
            b = one(st, "buf")
            if b is None or len(c.args) != 6:
                A.report(st, c, "what is handed on was not read as one 32 byte entry")
                return None
            b = b[1][1]
            for n, fn, o, txt in ((2, "be32dec", 12, "flags"), (3, "be32dec", 16, "silo"), (4, "be64dec", 20, "offset")):
                if not self.word(c.args[n], fn, b, o):
                    A.report(st, c, "the %s handed on is not the %s bit big-endian word at byte %d of the entry" % (txt, fn[2:4], o))
            for n, txt, fmt, want in ((1, "key", ("%016jx%08x", "%016lx%08x", "%016llx%08x"), (("be64dec", 0), ("be32dec", 8))),
                                      (5, "continuation key", ("%08x",), (("be32dec", 28),))):
                x = [x for x in has(st, "txt") if x[1][1] == c.args[n]]
                ok = x and x[0][2] in fmt and len(x[0]) == 3 + len(want) and \
                    all(self.word(v[1], w[0], b, w[1]) for v, w in zip(x[0][3:], want))
                if not ok:
                    A.report(st, c, "the %s handed on is not printed from the bytes of the entry which hold it" % txt)
        elif c.name == "snprintf" and c.args[2][0] == "s":
            for x in has(st, "txt"):
                if x[1][1] == c.args[0]:
                    drop(st, x)
            put(st, "txt", T(c.args[0]), c.args[2][1], *[T(a) for a in c.args[3:]])
        return None

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.name == "fread":
            droptag(st, "buf")
            droptag(st, "txt")
            if (c.args[1], c.args[2]) in ((C(1), C(32)), (C(32), C(1))):
                self.site("entry read", c)
                put(st, "buf", T(c.args[0]))
        return None


class Table(FsRule):
    """(c)"""
    cursors = frozenset(["K", "N"])
    dull = frozenset(["VSB_len", "strspn", "memcmp"])

    def dullmem(self, addr):
        return not is_field(addr, "bucket", "buckets")

    def dullread(self, addr):
        return root(addr) == ("arg", 1)

    def suf(self, st, f):
        k = self.fdinfo(st, f)
        return k[0][1] if k is not None and k[0][0] == "INDEX" else None

    # terms of the header word h
    def nb(self, h):
        return ("op", "and", ("op", "lshr", h, C(40)), C(255))

    def isnb(self, t, h):
        return same(t, self.nb(h))

    def pred(self, key, nrec):
        return ("op", "lshr", ("op", "mul", ("op", "lshr", key, C(40)), nrec), C(24))

    def keyof(self, t):
        """be64dec(key) a term was made from"""
        for x in subterms(norm(t)):
            if x[0] == "op" and x[1] == "lshr" and x[2][0] == "pure" and x[2][1] == "be64dec" and x[3] != C(48):
                yield x[2]

    def seek(self, A, st, c, f, o):
        droptag(st, "pos")
        if o == C(0):
            put(st, "pos", T(f), "H")
            return
        h = one(st, "hw")
        if h is None:
            A.report(st, c, "a position in the sorted index is set without its first word having been read")
            return
        h = h[1][1]
        self.site("position set", c)
        if A.eval(st, rel_eq(("op", "lshr", h, C(48)), C(0x4161))) is not True:
            A.report(st, c, "the first word of the sorted index is used without its mark having been checked")
        first = ("op", "shl", C(1), add(self.nb(h), C(3)))
        if same(o, first):
            put(st, "pos", T(f), "R")
            return
        nrec = ("op", "and", h, C(0xffffffffff))
        for key in self.keyof(o):
            b = ("op", "lshr", key, sub(C(64), self.nb(h)))
            if same(o, mulc(b, 8)):
                self.site("bucket read", c)
                put(st, "pos", T(f), "B")
                setone(st, "b", T(b))
                return
            bk = one(st, "bk")
            if bk is not None and has(st, "b") and same(one(st, "b")[1][1], b) and \
                    same(o, mulc(add(bk[1][1], self.pred(key, nrec)), 32)):
                self.site("prediction used", c)
                put(st, "pos", T(f), "R")
                if not any(same(x, first) for x in self.atleast(A, st, o, first)):
                    A.report(st, c, "the position in the sorted index may be inside its table")
                return
        A.report(st, c, "the position in the sorted index is not one made from its first word and the key in the documented way")

    def atleast(self, A, st, o, first):
        n = [x for x in self.firsts(st) if A.le(st, x, o)]
        return n

    def firsts(self, st):
        h = one(st, "hw")[1][1]
        out = []
        for nb in (self.nb(h), ("op", "urem", ("op", "lshr", h, C(40)), C(256))):
            out += [("op", "shl", C(1), add(nb, C(3))), mulc(("op", "shl", C(1), nb), 8), ("op", "shl", C(8), nb)]
        return out

    def before(self, A, st, c):
        if c.name == "fread":
            droptag(st, "tab")

    def call(self, A, st, c):
        n = c.name
        if n in ("fseek", "fseeko", "rewind"):
            s = self.suf(st, c.args[0])
            wh = C(0) if n == "rewind" else c.args[2]
            o = C(0) if n == "rewind" else c.args[1]
            if s == "sorted":
                if wh != C(0):
                    droptag(st, "pos")
                else:
                    self.seek(A, st, c, c.args[0], o)
            elif s is not None and s.startswith("tmp"):
                self.tabdone(A, st, c)
                if (o, wh) == (C(0), C(0)):
                    setone(st, "K", T(C(0)))
        elif n == "fread":
            s = self.suf(st, c.args[3])
            if s != "sorted":
                return None
            w = c.args[1][1] * c.args[2][1] if is_c(c.args[1]) and is_c(c.args[2]) else None
            p = one(st, "pos")
            p = p[2] if p is not None and p[1][1] == c.args[3] else None
            if w == 8 and p in ("H", "B"):
                self.site("table word read", c)
                droptag(st, "pos")
                setone(st, "rd8", T(c.args[0]), p)
            elif w == 32:
                self.site("sorted entry read", c)
                if p != "R":
                    A.report(st, c, "an entry is read from the sorted index at a position which is not known to be the start of one")
            else:
                A.report(st, c, "something which is neither a word of the table nor an entry is read from the sorted index")
        elif n == "be64enc":
            setone(st, "enc", T(c.args[0]), T(c.args[1]))
        elif n == "fwrite":
            s = self.suf(st, c.args[3])
            if s is None or not s.startswith("tmp"):
                return None
            w = c.args[1][1] * c.args[2][1] if is_c(c.args[1]) and is_c(c.args[2]) else None
            if w == 8:
                self.table(A, st, c)
            elif w == 32:
                self.tabdone(A, st, c)
                N = one(st, "N")
                if N is not None:
                    drop(st, N)
                    put(st, "N", T(add(N[1][1], C(1))))
            else:
                A.report(st, c, "something which is neither a word of the table nor an entry is written to the new index")
        elif n == "fclose":
            s = self.suf(st, c.args[0])
            if s is not None and s.startswith("tmp"):
                self.tabdone(A, st, c)
        return None

    def base(self, a):
        """the table and the index of an address in it"""
        if a[0] == "lin":
            p = [x for x, k in a[2] if k == 1]
            if len(p) == 1:
                d = sub(a, p[0])
                if is_c(d):
                    return p[0], C(d[1] // 8) if d[1] % 8 == 0 else None
                if d[0] == "lin" and d[1] % 8 == 0 and all(k % 8 == 0 for _, k in d[2]):
                    r = C(d[1] // 8)
                    for x, k in d[2]:
                        r = add(r, mulc(x, k // 8))
                    return p[0], r
            return None, None
        return a, C(0)

    def table(self, A, st, c):
        self.site("table word written", c)
        if has(st, "partial"):
            A.report(st, c, "the first word of the table is something else than the mark, size and number of entries")
        e = one(st, "enc")
        K = one(st, "K")
        if e is None or e[1][1] != c.args[0] or K is None:
            A.report(st, c, "what is written to the table of the new index is not a big-endian 64 bit word, or not in order")
            return
        v = e[2][1]
        w = one(st, "w0")
        if A.eval(st, rel_eq(K[1][1], C(0))) is True and w is not None and (v == w[2][1] or v[0] == "mem" and v[2] == w[1][1]):
            ok = True
        else:
            ok = False
            if v[0] == "mem":
                b, k = self.base(v[2])
                ok = w is not None and b is not None and k is not None and strip(b) == strip(self.base(w[1][1])[0]) and \
                    (k == K[1][1] or A.same(st, k, K[1][1]))
        if not ok:
            A.report(st, c, "the words of the table of the new index are not written in order, starting with the current first word")
        droptag(st, "K")
        put(st, "K", T(add(K[1][1], C(1))))
        droptag(st, "enc")

    def hdr(self, v):
        """b and nrec of a header word"""
        if v[0] not in ("ors", "lin"):
            return None
        if v[0] == "ors":
            c = [x for x in v[1] if is_c(x)]
            r = [x for x in v[1] if not is_c(x)]
        else:
            c, r = [C(v[1])], [mulc(x, k) for x, k in v[2]]
        const = c[0][1] if c else 0
        b = n = None
        for x in r:
            if x[0] == "lin" and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1 << 40:
                b = x[2][0][0]
            elif x[0] == "op" and x[1] == "shl" and x[3] == C(40):
                b = x[2]
            else:
                n = x
        if b is None and const >> 48 == 0x4161:
            b = C((const >> 40) & 255)
            const -= b[1] << 40
        if const != 0x4161 << 48 or b is None or n is None or len(r) > 2:
            return None
        return b, n

    def tabdone(self, A, st, c):
        """the table, if one was begun, is complete"""
        K = one(st, "K")
        if K is None or K[1][1] == C(0):
            return
        w = one(st, "w0")
        if w is None:
            return
        self.site("table complete", c)
        droptag(st, "K")
        n = one(st, "nbucket")
        if n is None or not A.le(st, A.load(st, n[1][1]), K[1][1]):
            A.report(st, c, "the table of the new index may not have been written completely")

    def store(self, A, st, addr, val, i):
        f = addr_field(addr) if addr[0] == "fld" else None
        if addr[0] == "fld" and addr[2] == "bucket":
            if addr[3] == "nrec":
                setone(st, "nrec", T(val))
            elif addr[3] == "nbucket":
                setone(st, "nbucket", T(addr))
            return
        h = self.hdr(val)
        if h is not None:
            self.site("first word made", i)
            setone(st, "w0", T(addr), T(val))
            droptag(st, "partial")
            if not is_field(h[0], "bucket", "bbucket") and \
                    h[0] != A.load(st, ("fld", root(self.base(addr)[0][2]), "bucket", "bbucket")):
                A.report(st, i, "the first word of the table does not hold the number of bits of the table")
            nr = one(st, "nrec")
            if not is_field(h[1], "bucket", "nrec") and not (nr is not None and h[1] == nr[1][1]):
                A.report(st, i, "the first word of the table does not hold the number of entries predictions are made with")
            if nr is not None and not (A.le(st, nr[1][1], C(0xffffffffff)) or has(st, "below40")):
                A.report(st, i, "the number of entries may be too large for the first word of the table")
            return
        p, k = self.base(addr)
        if is_c(val) and val[1] >= 1 << 31:
            # larger than any prediction: no entry there
            return
        if p is not None and is_field(p, "bucket", "buckets") and k != C(0):
            self.site("bucket updated", i)
            ok = False
            for key in self.keyof(addr):
                k2 = norm(k)
                if k2[0] != "op" or k2[1] != "lshr" or not same(k2[2], key):
                    continue
                bb = sub(C(64), k2[3])
                if not is_field(bb, "bucket", "bbucket") and bb != A.load(st, ("fld", root(p[2]), "bucket", "bbucket")):
                    continue
                nr = [x for x in subterms(val) if is_field(x, "bucket", "nrec")]
                N = one(st, "N")
                if nr and N is not None and same(val, sub(N[1][1], self.pred(key, nr[0]))):
                    ok = True
                elif nr and is_c(add(val, self.pred(key, nr[0]))) and N is not None and A.same(st, add(val, self.pred(key, nr[0])), N[1][1]):
                    ok = True
            if not ok:
                A.report(st, i, "a bucket is not set to the entry's number minus the position predicted from its key")
        elif p is not None and is_field(p, "bucket", "buckets"):
            setone(st, "partial", "t")

    def branch(self, A, st, i, cond):
        n = one(st, "nrec")
        for t in subterms(cond):
            if t[0] == "op" and t[1] == "and" and is_c(t[3]) and A.eval(st, rel_eq(t, C(0))) is True and \
                    t[3][1] in (-1 << 40, (1 << 64) - (1 << 40)):
                put(st, "masked", T(t[2]))
            elif t[0] == "op" and t[1] == "lshr" and t[3] == C(40) and A.eval(st, rel_eq(t, C(0))) is True:
                put(st, "masked", T(t[2]))
        if n is not None and any(x[1] == n[1] for x in has(st, "masked")):
            put(st, "below40")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n = c.name
        if n == "fopen" and self.suf(st, c.res) is not None:
            s = self.suf(st, c.res)
            if s == "sorted":
                for t in ("pos", "hw", "bk", "b", "rd8"):
                    droptag(st, t)
            elif s.startswith("tmp"):
                for t in ("K", "w0", "enc"):
                    droptag(st, t)
                setone(st, "N", T(C(0)))
                setone(st, "K", T(C(0)))
        elif n == "be64dec":
            x = one(st, "rd8")
            if x is not None and x[1][1] == c.args[0]:
                setone(st, "hw" if x[2] == "H" else "bk", T(c.res))
        elif n == "fread" and self.suf(st, c.args[3]) == "sorted" and c.args[1] != C(8) and c.args[2] != C(8):
            # positions: an entry is followed by an entry
            pass
        return None


class Size(FsRule):
    """(c) how large the table is made"""
    dull = frozenset(["calloc", "malloc"])

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("bucket", "nbucket"):
            setone(st, "n", T(addr[1]), T(val))

    def call(self, A, st, c):
        if c.name in ("calloc", "malloc"):
            self.check(A, st, c)

    def ret(self, A, st, val, i):
        self.check(A, st, i)

    def check(self, A, st, i):
        x = one(st, "n")
        if x is not None:
            droptag(st, "n")
            val = x[2][1]
            b = A.load(st, ("fld", x[1][1], "bucket", "bbucket"))
            self.site("table sized", i)
            if not (is_c(b) and is_c(val) and val[1] == 1 << b[1] or same(val, ("op", "shl", C(1), b))):
                A.report(st, i, "the number of buckets is not 2 to the number of bits stored")
            if not A.le(st, C(2), b):
                A.report(st, i, "the table may not be a whole number of entries long")


OFFSETS = {"IDX_Insert": 4, "Rsilo_Open": 3}


def narrowing(p, res):
    """(d)"""
    F = Flow(p)
    src = [x for x in F.results({"lseek", "lseek64", "ftello", "Rsilo_Tell"})]
    for n, a in OFFSETS.items():
        src.append((p.m.named(n).key, ("a", a)))
    src += [(k, ("a", 4)) for k in p.callbacks_of("IDX_Iter")]
    for s in ("segment", "seg", "gj_seg"):
        src.append(("F", s, "off"))
    src += [("F", "stat", "st_size"), ("F", "wsilo", "hd_start"), ("F", "aardwarc", "silo_maxsize")]
    src += list(F.results({"be64dec"}))
    out, seen = F.run(src)
    for k in sorted({x[0] for x in seen if x[0] in p.m.raw}):
        res.site("64 bit value followed through", k)
    for k, i, why in out:
        res.add("narrow:%s:%s" % (k, Module.fmtloc(i)), Module.fmtloc(i),
                "a 64 bit offset, size or index word is cut to %s here" % i["ty"], function=p.m.raw[k]["name"])
    for k in F.defs:
        for i in F.defs[k].values():
            if i["op"] == "call" and i.get("fn") in OFFSETS:
                res.site("offset handed over", Module.fmtloc(i))
                o = i["ops"][OFFSETS[i["fn"]]]
                d = F.defs[k].get(o[1]) if o[0] == "v" else None
                if d is not None and d["op"] in ("sext", "zext"):
                    res.add("widened:%s:%s" % (k, Module.fmtloc(i)), Module.fmtloc(i),
                            "the offset handed to %s was held in fewer than 64 bits" % i["fn"], function=p.m.raw[k]["name"])


def run(tier):
    p = Prog()
    res = Result("C09")
    jobs = [(Writer, k) for k in p.entries() if p.m.raw[k]["name"] == "IDX_Insert"] + \
        [(Reader, k) for k in p.entries() if p.m.raw[k]["name"] == "IDX_Iter"] + \
        [(Table, k) for k in p.entries() if p.m.raw[k]["name"] in ("IDX_Iter", "IDX_Resort")] + \
        [(Size, k) for k in sorted((k for k in p.m.raw if not p.m.raw[k]["decl"] and p.stores_field(k, "bucket", "nbucket")),
                                   key=lambda k: len(p.m.raw[k]["blocks"]))[:1]]

    def job(k):
        r = Result("C09")
        r.run(p, k[1], k[0](p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    narrowing(p, res)
    for k, n in (("entry written", 1), ("digits of the ID", 1), ("digits of the continuation", 1), ("entry read", 1), ("entry handed on", 1),
                 ("position set", 3), ("bucket read", 1), ("prediction used", 1), ("sorted entry read", 1), ("table word read", 1),
                 ("table word written", 1), ("table complete", 1), ("table sized", 1), ("first word made", 1), ("bucket updated", 1), ("64 bit value followed through", 8),
                 ("offset handed over", 5)):
        res.need(k, n)
    return res
