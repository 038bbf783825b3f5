"""C25: every silo starts with its warcinfo record, which is indexed.
The function which makes the record, on every path:
 (a) stores three things to the silo it was given, in this order and each whole:
     the header, the body as a gzip member, and the separator; each is copied to
     the room the silo offers, which is known to be enough, and storing it is
     known to have worked;
 (b) the header is made from headers which were set before: its type, the length
     of the body and the digest of the very same bytes, and the ID derived from
     that digest; the body which is compressed is that one;
 (c) returns a copy of the ID in that header.
The constructor of silos calls it exactly once, for the silo it returns and that
silo's number, keeps the ID, and stores nothing else; nobody else calls it.
Installing: an entry for the ID kept, at offset zero of that silo, flagged as
warcinfo, is made exactly once, after the silo is in place; no other function makes
an entry with that ID, or without installing.
Retrieval: a record is taken for (part of) an object only if its entry is not
flagged as warcinfo or it has another ID than the one asked for."""
from common import *
from c08 import gbytes, SEP

TITLE = "Every silo starts with its warcinfo record, which is indexed"
ASSUMES = ["storing to a silo appends (C08, C16)", "the silo is installed under its final name by link() (C01, C03)", "Gzip_Vsb makes a complete gzip member of what it is given (C08)"]
WARCINFO = 2
NUMFMT = frozenset(["%zd", "%zu", "%jd", "%ju", "%d", "%u", "%ld", "%lu"])


class Make(FsRule):
    """the record is made"""
    def put1(self, st, name, v):
        for x in list(has(st, "set")):
            if x[1] == name:
                drop(st, x)
        put(st, "set", name, *v)

    def get(self, st, name):
        for x in has(st, "set"):
            if x[1] == name:
                return x
        return None

    def before(self, A, st, c):
        if c.name == "Gzip_Vsb":
            b = A.load(st, c.args[0])
            droptag(st, "gzlen")
            put(st, "gzlen", T(("pure", "VSB_len", (b,), A.pgens(st, (b,)))))
        elif c.name == "Header_Serialize":
            self.check(A, st, c, c.args[0])

    def check(self, A, st, c, h):
        self.site("header made", c)
        x = self.get(st, "WARC-Type")
        if x is None or x[2][1] != h or x[3:] != (None, T(("s", "warcinfo"))):
            A.report(st, c, "the record is not given the type warcinfo")
        x = self.get(st, "Content-Length")
        n = None
        if x is None or x[2][1] != h or x[3] not in NUMFMT:
            A.report(st, c, "the record is not given the length of its body")
        else:
            n = x[4][1]
        x = self.get(st, "WARC-Block-Digest")
        s = None
        if x is None or x[2][1] != h or x[3] != "sha256:%s":
            A.report(st, c, "the record is not given the digest of its body")
        else:
            for y in has(st, "sum"):
                if y[1][1] == x[4][1]:
                    s = y[2][1]
            if s is None:
                A.report(st, c, "the digest of the record is not that of its body")
            x2 = self.get(st, "ID")
            if x2 is None or x2[2][1] != h or x2[4][1] != x[4][1]:
                A.report(st, c, "the record is not given the ID made from the digest of its body")
        if n is not None and s is not None and n != s:
            A.report(st, c, "length and digest of the record are not those of the same body")
        droptag(st, "body")
        put(st, "body", T(n or s or C(0)))

    def call(self, A, st, c):
        n = c.name
        if n == "Header_Set":
            name, fmt = lit(A, st, c.args[1]), lit(A, st, c.args[2])
            if name is not None:
                if fmt is not None and "%" in fmt and len(c.args) > 3:
                    v = (fmt, c.args[3])
                    if fmt == "%s":
                        s = lit(A, st, c.args[3])
                        v = (None, ("s", s)) if s is not None else v
                else:
                    v = (None, ("s", fmt)) if fmt is not None else ("?", ("c", 0))
                self.put1(st, name, (T(c.args[0]), v[0], T(v[1])))
        elif n == "Ident_Set":
            self.put1(st, "ID", (T(c.args[1]), "?", T(c.args[2])))
        elif n in ("memcpy", "memmove") or n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            sp = one(st, "space")
            if sp is not None and c.args[0] == sp[1][1]:
                if not A.le(st, c.args[2], sp[2][1]):
                    A.report(st, c, "more may be stored than there is room for")
                setone(st, "copied", T(c.args[1]), T(c.args[2]))
        elif n == "Wsilo_Store":
            self.stored(A, st, c)
        elif n in ("Wsilo_Header", "Wsilo_Finish", "Wsilo_Commit", "Wsilo_Install", "Wsilo_Abandon"):
            A.report(st, c, "something else is done to the silo while its first record is made")
        return None

    def worked(self, A, st, where):
        r = one(st, "res")
        if r is not None and A.eval(st, rel_eq(r[1][1], C(0))) is not True:
            A.report(st, where, "storing a part of the record may have failed")
        droptag(st, "res")

    def stored(self, A, st, c):
        self.worked(A, st, c)
        k = one(st, "n")
        k = k[1] if k is not None else 0
        cp = one(st, "copied")
        droptag(st, "copied")
        droptag(st, "space")
        self.site("part stored", c)
        if c.args[0] != ("arg", 1):
            A.report(st, c, "the record is stored to another silo")
        if cp is None or c.args[1] != cp[2][1] and not A.same(st, c.args[1], cp[2][1]):
            A.report(st, c, "something is stored which was not copied to the silo")
            return
        src, n = cp[1][1], cp[2][1]
        if k == 0:
            v = self.vsb(src, n)
            x = call_of(st, v) if v is not None else None
            if x is None or x[0] != "Header_Serialize":
                A.report(st, c, "the first thing stored is not the header of the record")
        elif k == 1:
            v = self.vsb(src, n)
            g = one(st, "gz")
            if v is None or g is None or g[1][1] != v:
                A.report(st, c, "the second thing stored is not the compressed body of the record")
        elif k == 2:
            s = gbytes(self.p, SEP)
            if src != ("g", SEP) or n != C(len(s or b"")):
                A.report(st, c, "the third thing stored is not the separator")
        else:
            A.report(st, c, "more than the record is stored")
        setone(st, "n", k + 1)

    def vsb(self, src, n):
        if src[0] == "pure" and src[1] == "VSB_data" and n[0] == "pure" and n[1] == "VSB_len" and src[2:] == n[2:]:
            return src[2][0]
        return None

    def after(self, A, st, c):
        n = c.name
        FsRule.after(self, A, st, c)
        if n == "Wsilo_GetSpace":
            if c.args[0] != ("arg", 1):
                A.report(st, c, "the record is stored to another silo")
            setone(st, "space", T(A.load(st, c.args[1])), T(A.load(st, c.args[2])))
        elif n == "Wsilo_Store":
            setone(st, "res", T(c.res))
        elif n == "Gzip_Vsb":
            self.site("body compressed", c)
            setone(st, "gz", T(A.load(st, c.args[0])))
        elif n in ("SHA256Data", "SHA256_Data"):
            d, l = c.args[:2]
            if d[0] == "pure" and d[1] == "VSB_data" and l[0] == "pure" and l[1] == "VSB_len" and d[2:] == l[2:]:
                put(st, "sum", T(c.res), T(l))

    def ret(self, A, st, val, i):
        self.site("record complete", i)
        self.worked(A, st, i)
        k = one(st, "n")
        if k is None or k[1] != 3:
            A.report(st, i, "the record may not have been stored completely")
        b, g = one(st, "body"), one(st, "gzlen")
        if b is None or g is None or g[1][1] != b[1][1]:
            A.report(st, i, "the body stored is not the one the header describes")
        x = call_of(st, val)
        h = hdrid(x[1][0]) if x is not None and x[0] == "strdup" else None
        s = self.get(st, "ID")
        if h is None or s is None or s[2][1] != h:
            A.report(st, i, "what is returned is not a copy of the ID of the record")


class Construct(FsRule):
    """the constructor of silos"""
    def call(self, A, st, c):
        n = c.name
        if n == "Warcinfo_New":
            self.site("constructor", c)
            if has(st, "made"):
                A.report(st, c, "the record is stored twice")
            w = c.args[1]
            if not A.same(st, A.load(st, ("fld", w, "wsilo", "silo_no")), c.args[2]):
                A.report(st, c, "the record is made for another silo number")
            put(st, "made", T(w))
        elif n in ("Wsilo_Store", "Wsilo_Finish", "Wsilo_Header", "Wsilo_Commit", "write", "pwrite", "writev"):
            A.report(st, c, "something else is written when a silo is made")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.name == "Warcinfo_New":
            put(st, "id", T(c.res))

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("wsilo", "warcinfo_id"):
            m, d = one(st, "made"), one(st, "id")
            droptag(st, "kept")
            if d is not None and val == d[1][1] and addr[1] == m[1][1]:
                put(st, "kept")

    def ret(self, A, st, val, i):
        if val is None or A.isnull(st, val):
            return
        self.site("silo made", i)
        m = one(st, "made")
        if m is None or m[1][1] != val:
            A.report(st, i, "a silo may be made without its first record")
        elif not has(st, "kept"):
            A.report(st, i, "the ID of the first record is not kept with the silo")


class Inst(FsRule):
    """installing"""
    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.name in ("link", "linkat", "rename"):
            setone(st, "link", T(c.res))

    def call(self, A, st, c):
        if c.name != "IDX_Insert":
            return
        self.site("warcinfo entry", c)
        key, flags, silo, off = c.args[1:5]
        l = one(st, "link")
        if l is None or A.eval(st, rel_eq(l[1][1], C(0))) is not True:
            A.report(st, c, "the entry is made although the silo may not be in place")
        if not is_field(key, "wsilo", "warcinfo_id"):
            A.report(st, c, "the entry made is not for the first record")
        elif not is_field(silo, "wsilo", "silo_no") or field_of(silo)[2] != field_of(key)[2]:
            A.report(st, c, "the entry is for another silo")
        if flags != C(WARCINFO) or off != C(0):
            A.report(st, c, "the entry is not one of a warcinfo record at offset zero")
        if has(st, "entry"):
            A.report(st, c, "the entry is made twice")
        put(st, "entry")

    def ret(self, A, st, val, i):
        self.site("silo installed", i)
        if not has(st, "entry"):
            A.report(st, i, "a silo is installed without an entry for its first record")


class Other(FsRule):
    """nobody else makes an entry for it"""
    dull = frozenset(["strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "Header_Get", "Header_Get_Number", "strlen", "strrchr"])

    def dullmem(self, addr):
        return root(addr)[0] != "alloca"

    def call(self, A, st, c):
        if c.name == "IDX_Insert":
            self.site("other entry", c)
            if is_field(c.args[1], "wsilo", "warcinfo_id"):
                A.report(st, c, "an entry for the first record of a silo is made without installing it")


class Get(FsRule):
    """records taken for an object"""
    def branch(self, A, st, i, cond):
        learnflags(A, st, "flags", cond, lambda t: t == ("arg", 2))
        for t in subterms(cond):
            if t[0] == "pure" and t[1] in ("strcasecmp", "strcmp") and any(hdrid(a) is not None for a in t[2][:2]) and \
                    any(is_field(a, "getjob", "id") for a in t[2][:2]):
                if t[1] == "strcasecmp" and A.eval(st, rel_eq(t, C(0))) is False:
                    setone(st, "differs")

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("getjobseg", "rs") and A.isnull(st, val) is not True:
            self.site("record taken", i)
            if any(v & WARCINFO for v in flagvals(st, "flags")) and not has(st, "differs"):
                A.report(st, i, "a warcinfo record may be retrieved as an object")


def run(tier):
    p = Prog()
    res = Result("C25")
    key = lambda n: p.m.named(n).key
    jobs = [(key("Warcinfo_New"), Make), (key("Wsilo_New"), Construct), (key("Wsilo_Install"), Inst)]
    jobs += [(k, Other) for k in p.callers({"IDX_Insert"}) if k != key("Wsilo_Install")]
    jobs += [(k, Get) for k in p.callbacks_of("IDX_Iter") if p.stores_field(k, "getjobseg", "rs")]

    def job(k):
        r = Result("C25")
        r.run(p, k[0], k[1](p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for f in p.callers({"Warcinfo_New"}):
        if f != key("Wsilo_New"):
            res.add("caller:%s" % f, f, "a warcinfo record is stored elsewhere than at the start of a silo", function=f)
    o = p.origin_calls("wsilo", "warcinfo_id")
    if not {"Warcinfo_New"} <= o <= {"Warcinfo_New", "?0"}:
        res.add("id", "wsilo.c", "the ID kept with a silo is not only the one of its first record (%s)" % ", ".join(sorted(o)), function="Wsilo_New")
    for k, n in (("header made", 1), ("part stored", 3), ("body compressed", 1), ("record complete", 1), ("constructor", 1), ("silo made", 1),
                 ("warcinfo entry", 1), ("silo installed", 1), ("other entry", 3), ("record taken", 1)):
        res.need(k, n)
    return res
