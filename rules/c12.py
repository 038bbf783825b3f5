"""C12: reindexing reproduces the index which storing created.
The flags of an entry: RESOURCE (4) or METADATA (8) by the type of the record,
WARCINFO (2) for a warcinfo record; for a segment SEGMENTED (16), with FIRSTSEG
(32) for the one numbered 1 and LASTSEG (64) for the one with no successor
(which is the one with the total length, C13).
Storing: the flags kept with a silo being written start at zero and get the bit
of the type of the very header room is made for; a record is indexed with these
and, if it is a segment, the bits above; with the ID and continuation key given;
an appended record has neither segment bits nor continuation key; the warcinfo
record is indexed with WARCINFO alone, offset 0 and no continuation key.
Reindexing: every silo is visited; for each header read from it an entry is made
at once, or a segment is put in the list (or both, for the last segment), with
 (a) the ID in that header, the flags by the same table, the number of the silo
     visited, and the position the reader had before that header was read;
 (b) no continuation key unless a successor exists: then the ID of the segment
     with the next number of the same object, or (for segments whose successor
     is not in a silo visited) that of the entry already in the index for it;
 (c) the list is kept by object and falling number, both neighbours of a new
     segment are tried, and a segment leaves it only after its entry was made;
 (d) a silo is left only at its end."""
from common import *

TITLE = "Reindexing reproduces the index that storing created"
ASSUMES = ["offset and silo of the entries made by storing (C03)", "the header fields of segments (C13)", "the key is inserted as given (C09)",
           "for an explicitly named file the silo number is parsed from its name"]

WARCINFO, RESOURCE, METADATA, SEGMENTED, FIRST, LAST = 2, 4, 8, 16, 32, 64
TYPES = {"warcinfo": WARCINFO, "resource": RESOURCE, "metadata": METADATA}


def bits(t):
    """(base, mask) of flags or-ed together"""
    if is_c(t):
        return None, t[1]
    if t[0] == "ors":
        m, base = 0, []
        for x in t[1]:
            if is_c(x):
                m |= x[1]
            else:
                base.append(x)
        return (base[0] if len(base) == 1 else t), m
    return t, 0


NEVER = -1      # the type is two things at once: no execution gets here


class Types:
    """what is known about the type of the record of a header"""
    def learn(self, A, st, cond):
        for t in subterms(cond):
            if t[0] == "pure" and t[1] in ("strcmp", "strcasecmp"):
                for a, b in (t[2][:2], t[2][1::-1]):
                    if a[0] == "pure" and a[1] == "Header_Get" and lit(A, st, a[2][1]) == "WARC-Type":
                        s = lit(A, st, b)
                        v = A.eval(st, rel_eq(t, C(0)))
                        if s is not None and v is not None:
                            put(st, "type", T(a[2][0]), s, v)
            elif t[0] == "pure" and t[1] == "Header_Get" and lit(A, st, t[2][1]) == "WARC-Type" and A.isnull(st, t):
                put(st, "type", T(t[2][0]), None, True)

    def typebits(self, A, st, h, names):
        """flags by the type of the header, None if the type is not known well enough"""
        k = {x[2]: x[3] for x in has(st, "type") if A.same(st, x[1][1], h)}
        yes = [s for s, v in k.items() if v]
        if len(yes) > 1:
            return NEVER
        if yes:
            return TYPES.get(yes[0], 0)
        if all(k.get(s) is False for s in names):
            return 0
        return None


class Hdr(Types, FsRule):
    """room is made for a header"""
    def branch(self, A, st, i, cond):
        self.learn(A, st, cond)

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2:] == ("wsilo", "idx"):
            old = A.load(st, addr)
            b, m = bits(val)
            ob, om = bits(old)
            if (b, om & m) != (ob, om):
                A.report(st, i, "the flags kept with the silo are replaced")
            setone(st, "bits", m)
            self.site("type flag", i)
        elif addr[0] == "fld" and addr[2:] == ("wsilo", "hd"):
            setone(st, "hd", T(val))

    def ret(self, A, st, val, i):
        self.site("room made", i)
        h = one(st, "hd")
        if h is None:
            A.report(st, i, "the header is not kept with the silo")
            return
        t = self.typebits(A, st, h[1][1], ("resource", "metadata"))
        b = one(st, "bits")
        if t is not NEVER and (t is None or t != (b[1] if b else 0)):
            A.report(st, i, "the flags do not get the bit of the type of the record")


class Commit(FsRule):
    """entries made by storing"""
    def start(self, A):
        return frozenset()

    def branch(self, A, st, i, cond):
        for t in subterms(cond):
            if t[0] == "pure" and t[1] in ("strcmp", "strcasecmp"):
                for a, b in (t[2][:2], t[2][1::-1]):
                    if a[0] == "pure" and a[1] == "Header_Get" and lit(A, st, a[2][1]) == "WARC-Segment-Number" and lit(A, st, b) == "1" and \
                            is_field(a[2][0], "wsilo", "hd"):
                        v = A.eval(st, rel_eq(t, C(0)))
                        if v is not None:
                            setone(st, "first", v)
            elif t[0] == "pure" and t[1] == "Header_Get_Number" and lit(A, st, t[2][1]) == "WARC-Segment-Number" and is_field(t[2][0], "wsilo", "hd"):
                v = A.eval(st, rel_eq(t, C(1)))
                if v is not None:
                    setone(st, "first", v)
            elif t[0] == "mem" and t[2][0] == "pure" and t[2][1] == "Header_Get" and lit(A, st, t[2][2][1]) == "WARC-Segment-Number" and \
                    is_field(t[2][2][0], "wsilo", "hd") and A.eval(st, rel_eq(t, C(ord("1")))) is False:
                setone(st, "first", False)

    def call(self, A, st, c):
        if c.name != "IDX_Insert":
            return None
        key, flags, off, cont = c.args[1], c.args[2], c.args[4], c.args[5]
        if is_field(key, "wsilo", "warcinfo_id"):
            self.site("warcinfo entry", c)
            if flags != C(WARCINFO) or off != C(0) or not A.isnull(st, cont):
                A.report(st, c, "the warcinfo record is not indexed as such at offset 0")
            return None
        b, m = bits(flags)
        if not is_field(b, "wsilo", "idx") and b is not None or b is None:
            A.report(st, c, "a record is not indexed with the flags kept with its silo")
            return None
        if key != ("arg", 2):
            A.report(st, c, "a record is not indexed with the ID it is committed under")
        if cont == C(0) or not A.same(st, cont, ("arg", 3)):
            # appended: never a segment
            if cont != C(0) and not A.isnull(st, cont):
                A.report(st, c, "a record is not indexed with the continuation key given")
            if cont == C(0) and A.isnull(st, ("arg", 3)) is not True:
                A.report(st, c, "the continuation key is dropped")
        segd = A.eval(st, rel_eq(("arg", 1), C(0)))
        if segd is None:
            A.report(st, c, "a record is indexed without regard to its being a segment")
        elif segd:
            self.site("entry of a whole object", c)
            if m:
                A.report(st, c, "a record which is not a segment is indexed as one")
        else:
            self.site("entry of a segment", c)
            last = A.isnull(st, ("arg", 3))
            f = one(st, "first")
            want = SEGMENTED | (LAST if last else 0) | (FIRST if f is not None and f[1] else 0)
            if not last and not A.nonnull(st, ("arg", 3)):
                A.report(st, c, "a segment is indexed without regard to its being the last")
            elif f is None:
                A.report(st, c, "a segment is indexed without regard to its being the first")
            elif m != want:
                A.report(st, c, "a segment is indexed with the wrong flags")
        return None


class Scan(Types, FsRule):
    """records of a silo"""
    FORGET = frozenset(["strcmp", "strncmp", "strcasecmp", "strncasecmp", "strrchr", "strtoul", "Header_Get", "Header_Get_Number"])

    def dullmem(self, addr):
        return addr[0] == "fld" and addr[2] == "seg" and addr[3] in ("silono", "off", "used", "done") or addr[0] == "g" or \
            addr[0] == "fld" and addr[2] == "anon" or addr[0] == "mem" or addr[0] == "fld" and addr[1][0] == "g"


    def learnseg(self, A, st, cond):
        for t in subterms(cond):
            if t[0] != "pure" or t[1] not in ("Header_Get", "Header_Get_Number"):
                continue
            n = lit(A, st, t[2][1])
            h = t[2][0]
            if n == "WARC-Segment-Number":
                if t[1] == "Header_Get":
                    if A.isnull(st, t):
                        put(st, "seg", T(h), "no")
                else:
                    if A.eval(st, rel_le0(add(t, C(1)))) is True:
                        put(st, "seg", T(h), "no")
                    elif A.eval(st, rel_le0(sub(C(0), t))) is True:
                        put(st, "seg", T(h), "yes")
                    if A.le(st, t, C(1)):
                        put(st, "seg", T(h), "first")
                    elif A.le(st, C(2), t):
                        put(st, "seg", T(h), "later")
            elif n == "WARC-Segment-Total-Length":
                gone = A.isnull(st, t) if t[1] == "Header_Get" else A.eval(st, rel_le0(add(t, C(1)))) is True
                if gone:
                    put(st, "seg", T(h), "notlast")
                elif A.nonnull(st, t) if t[1] == "Header_Get" else A.eval(st, rel_le0(sub(C(0), t))) is True:
                    put(st, "seg", T(h), "last")

    def branch(self, A, st, i, cond):
        self.learn(A, st, cond)
        self.learnseg(A, st, cond)
        if A.eval(st, rel_le0(add(("arg", 2), C(1)))) is True:
            setone(st, "neg")

    def forget(self, st):
        """what the tags keep need not be kept twice"""
        all = has(st, "linked")
        for k in list(st.facts):
            for x in subterms(k):
                if x[0] == "pure" and x[1] in self.FORGET or x[0] == "mem" and (all and x[2][0] != "fld" or x[2][0] == "fld" and (
                        x[2][2] == "seg" or all and x[2][2] == "anon")):
                    del st.facts[k]
                    break

    def seg(self, st, h):
        return {x[2] for x in has(st, "seg") if x[1][1] == h}

    def hdr(self, st):
        """header read last"""
        r = one(st, "rec")
        return r[1][1] if r else None

    def flags(self, A, st, where, h, val):
        t = self.typebits(A, st, h, TYPES)
        s = self.seg(st, h)
        if t is NEVER:
            return
        if t is None:
            A.report(st, where, "the flags of an entry do not depend on the type of the record")
            return
        if "no" in s:
            want = t
        elif "yes" in s:
            if not s & {"first", "later"}:
                A.report(st, where, "the flags of an entry do not depend on its being the first segment")
                return
            if not s & {"last", "notlast"}:
                A.report(st, where, "the flags of an entry do not depend on its being the last segment")
                return
            want = t | SEGMENTED | (FIRST if "first" in s else 0) | (LAST if "last" in s else 0)
        else:
            A.report(st, where, "the flags of an entry do not depend on the record being a segment")
            return
        if A.eval(st, rel_eq(val, C(want))) is not True:
            A.report(st, where, "the flags of an entry are not those storing uses for such a record")

    def isid(self, A, st, t, h):
        g = hdrid(t)
        if g is None:
            x = call_of(st, t)
            if x is not None and x[0] == "strdup":
                g = hdrid(x[1][0])
        return g is not None and A.same(st, g, h)

    def silo(self, A, st, t):
        if t == ("arg", 2):
            return True
        x = t if t[0] == "pure" else None
        if x is not None:
            n, a = x[1], x[2]
        else:
            y = call_of(st, t)
            if y is None:
                return False
            n, a = y[0], y[1]
        return n in ("strtoul", "strtol", "strtoull") and has(st, "neg") and a[2] in (C(10), C(0))

    def pos(self, A, st, t):
        r = one(st, "rec")
        return r is not None and r[2][1] == t

    def entry(self, A, st, where, id, flags, silo, off):
        h = self.hdr(st)
        if h is None:
            A.report(st, where, "an entry is made without a header having been read")
            return
        if not self.isid(A, st, id, h):
            A.report(st, where, "the ID of an entry is not that in the header just read")
        self.flags(A, st, where, h, flags)
        if not self.silo(A, st, silo):
            A.report(st, where, "the silo of an entry is not the one being read")
        if not self.pos(A, st, off):
            A.report(st, where, "the offset of an entry is not where its header starts")

    def segfields(self, A, st, S):
        return tuple(A.load(st, ("fld", S, "seg", f)) for f in self.fields)

    def call(self, A, st, c):
        n = c.name
        if n == "IDX_Insert":
            id, flags, silo, off, cont = c.args[1:6]
            f = field_of(id)
            if f is not None and f[0] == "seg":
                self.chain(A, st, c, f[2])
                return None
            sg = self.fresh(st, id)
            if sg is not None and not A.isnull(st, cont):
                self.chain(A, st, c, sg)
                return None
            self.site("entry", c)
            if sg is not None:
                if tuple(c.args[1:5]) != tuple(A.load(st, ("fld", sg, "seg", f)) for f in ("id", "flg", "silono", "off")):
                    A.report(st, c, "an entry is not made from the fields of one segment")
            else:
                self.entry(A, st, c, id, flags, silo, off)
            h = self.hdr(st)
            s = self.seg(st, h) if h else set()
            if not A.isnull(st, cont):
                A.report(st, c, "a record which has no successor is given a continuation key")
            if not s & {"no", "last"}:
                A.report(st, c, "a segment which is not the last is indexed without a continuation key")
            droptag(st, "pending")
            if sg is not None:
                put(st, "emitted", T(sg))
            return None
        if n in ("Rsilo_ReadHeader", "Rsilo_Tell"):
            self.left(A, st, c)
        if n in ("Rsilo_NextHeader", "Rsilo_SkipCRNL", "Rsilo_ReadChunk", "Rsilo_ReadGZChunk"):
            droptag(st, "pos")
        elif n == "Rsilo_Close":
            r = one(st, "rec")
            if r is not None and A.isnull(st, r[1][1]):
                setone(st, "eof")
            else:
                A.report(st, c, "a silo is left before its end")
        elif n == "Rsilo_Open":
            self.site("silo opened", c)
            if c.args[3] != C(0) or c.args[1] != ("arg", 1):
                A.report(st, c, "not the silo given is read from its beginning")
        return None

    def fresh(self, st, id):
        """the segment under construction if id was made for it"""
        for x in has(st, "new"):
            if x[2][1] == id:
                return x[1][1]
        return None

    def left(self, A, st, where):
        """another header is read: the one before must have been dealt with"""
        if has(st, "pending"):
            r = one(st, "rec")
            if r is not None and not A.isnull(st, r[1][1]):
                A.report(st, where, "no entry is made for a record")
        droptag(st, "pending")

    def after(self, A, st, c):
        n = c.name
        FsRule.after(self, A, st, c)
        if n == "Header_Get_Id":
            return A.assume(st, rel_eq(c.res, C(0)), False)     # it never is (asserted there)
        if n == "Rsilo_Tell":
            setone(st, "pos", T(c.res))
        elif n == "Rsilo_ReadHeader":
            self.site("header read", c)
            p = one(st, "pos")
            for t in ("rec", "type", "seg", "new", "pos", "cur", "linked", "looked", "side", "ord", "num", "next", "emitted"):
                droptag(st, t)
            put(st, "rec", T(c.res), T(p[1][1] if p else C(-1)))
            put(st, "pending")

    # --- the list of segments ---

    fields = ("id", "flg", "silono", "off", "segno", "parent")

    def chain(self, A, st, c, S):
        """an entry with a continuation key"""
        self.site("entry with continuation", c)
        want = tuple(A.load(st, ("fld", S, "seg", f)) for f in ("id", "flg", "silono", "off"))
        if tuple(c.args[1:5]) != want:
            A.report(st, c, "an entry is not made from the fields of one segment")
        cont = c.args[5]
        S2 = None
        f = field_of(cont)
        if f is not None and f[:2] == ("seg", "id"):
            S2 = f[2]
        else:
            S2 = self.fresh(st, cont)
        if S2 is None:
            A.report(st, c, "the continuation key is not the ID of a segment")
            return
        a, b = (A.load(st, ("fld", x, "seg", "segno")) for x in (S, S2))
        if not A.same(st, add(a, C(1)), b) and not any((x[1][1], x[2][1]) == (a, b) for x in has(st, "next")):
            A.report(st, c, "the continuation key is not that of the segment with the next number")
        pa, pb = (A.load(st, ("fld", x, "seg", "parent")) for x in (S, S2))
        if not (self.order(st, "ord", pa, pb) <= {0} or A.same(st, pa, pb)):
            A.report(st, c, "the continuation key may be that of a segment of another object")
        put(st, "emitted", T(S))
        for t in ("ord", "num", "next"):
            droptag(st, t)


class Scan2(Scan):
    cursors = frozenset(["cur"])

    def signs(self, A, st, t):
        return frozenset(s for s, v in ((-1, rel_le0(add(t, C(1)))), (0, rel_eq(t, C(0))), (1, rel_le0(sub(C(1), t)))) if A.eval(st, v) is not False)

    def learn2(self, st, tag, a, b, s):
        for x in has(st, tag):
            if (x[1][1], x[2][1]) == (a, b):
                drop(st, x)
                s = s & x[3]
        if len(s) < 3:
            put(st, tag, T(a), T(b), s)

    def order(self, st, tag, a, b):
        """signs the comparison of a with b may have"""
        for x in has(st, tag):
            if (x[1][1], x[2][1]) == (a, b):
                return x[3]
            if (x[1][1], x[2][1]) == (b, a):
                return frozenset(-s for s in x[3])
        return frozenset((-1, 0, 1))

    def branch(self, A, st, i, cond):
        Scan.branch(self, A, st, i, cond)
        for t in subterms(cond):
            if t[0] == "pure" and t[1] in ("strcmp", "strcasecmp", "strncmp", "strncasecmp"):
                a, b = t[2][:2]
                if a[0] != "s" and b[0] != "s" and (len(t[2]) < 3 or is_field(t[2][2], "aardwarc", "id_size") or is_c(t[2][2]) and t[2][2][1] >= 64):
                    self.learn2(st, "ord", a, b, self.signs(A, st, t))
        c = cond
        while c[0] == "not":
            c = c[1]
        if c[0] == "rel":
            ls = [t for t in subterms(c) if is_field(t, "seg", "segno") or t[0] == "pure" and t[1] == "Header_Get_Number"]
            for a in ls:
                for b in ls:
                    if a != b and A.eval(st, rel_eq(add(a, C(1)), b)) is True:
                        put(st, "next", T(a), T(b))
            if len(ls) == 2 and ls[0] != ls[1]:
                self.learn2(st, "num", ls[0], ls[1], self.signs(A, st, sub(ls[0], ls[1])))
            if has(st, "linked"):
                for t in subterms(c):
                    if t[0] in ("mem", "old") and A.isnull(st, t):
                        self.look(st, one(st, "new")[1][1], t)
        self.forget(st)

    def link(self, addr):
        """(segment, link) if the address is one of the links of a segment, (None, link) for those of the list"""
        if addr[0] == "fld" and addr[2] == "anon" and addr[1][0] == "fld" and addr[1][2:] == ("seg", "list"):
            return addr[1][1], addr[3]
        if addr[0] == "fld" and addr[1][0] == "g" and addr[3] in ("#0", "#1") or addr[0] == "g":
            return None, addr[3] if addr[0] == "fld" else "#0"
        return None

    def side(self, st, S, X):
        """is X a neighbour of S (or reached by one)"""
        d = {x[2] for x in has(st, "side") if any(y == x[1][1] for y in subterms(X))}
        d |= {x[3] for x in subterms(X) if x[0] == "fld" and x[2] == "anon" and x[1] == ("fld", S, "seg", "list")}
        return "#1" if "#1" in d else "#0" if d else None

    def look(self, st, S, X):
        """something is found out about X"""
        d = self.side(st, S, X)
        if d is not None:
            put(st, "looked", d)
            if d == "#1":
                droptag(st, "side")

    def fields2(self, A, st, S):
        return A.load(st, ("fld", S, "seg", "segno")), A.load(st, ("fld", S, "seg", "parent"))

    def load(self, A, st, addr, val, i):
        l = self.link(addr)
        n = one(st, "new")
        if n is not None and has(st, "linked") and addr[0] == "fld" and addr[2] == "seg":
            self.look(st, n[1][1], addr[1])
        if n is not None and has(st, "linked") and ("looked", "#1") not in st.auto and addr[0] != "g" and self.side(st, n[1][1], addr) == "#1":
            o = one(st, "side")
            if o is None or any(y == o[1][1] for y in subterms(addr)):
                setone(st, "side", T(val), "#1")
        if l is None or n is None or has(st, "linked"):
            return None
        S = n[1][1]
        if l == (None, "#0"):
            setone(st, "cur", T(val))
            for x in has(st, "seg"):
                if x[2] != "last":
                    drop(st, x)
        elif l[1] == "#0" and l[0] is not None and l[0] != S:
            c = one(st, "cur")
            if c is None or not A.same(st, c[1][1], l[0]):
                return None
            (na, pa), (nb, pb) = self.fields2(A, st, l[0]), self.fields2(A, st, S)
            o, m = self.order(st, "ord", pa, pb), self.order(st, "num", na, nb)
            self.site("segment passed", i)
            if not (o <= {-1} or o <= {-1, 0} and m <= {0, 1}):
                A.report(st, i, "a new segment may be put behind one it belongs before")
            for t in ("ord", "num"):
                droptag(st, t)
            setone(st, "cur", T(val))
        return None

    def linked(self, A, st, S, val, i):
        """S is put before val (or at the end of the list)"""
        c = one(st, "cur")
        self.site("segment put in the list", i)
        if c is None or not A.same(st, c[1][1], val) and not (A.isnull(st, c[1][1]) and A.isnull(st, val)):
            A.report(st, i, "a new segment is not put where the search for its place ended")
        elif not A.isnull(st, val):
            (na, pa), (nb, pb) = self.fields2(A, st, val), self.fields2(A, st, S)
            o, m = self.order(st, "ord", pa, pb), self.order(st, "num", na, nb)
            if not (o <= {1} or o <= {0, 1} and m <= {-1}):
                A.report(st, i, "a new segment may be put before one it belongs behind")
        for t in ("pending", "cur", "ord", "num", "type"):
            droptag(st, t)
        s = self.seg(st, self.hdr(st))
        droptag(st, "seg")
        setone(st, "linked")

    def left(self, A, st, where):
        if has(st, "linked") and {x[1] for x in has(st, "looked")} != {"#0", "#1"}:
            A.report(st, where, "a new segment is not tried with both its neighbours")
        droptag(st, "linked")
        Scan.left(self, A, st, where)

    def store(self, A, st, addr, val, i):
        l = self.link(addr)
        if l is not None and l[0] is not None and l[1] == "#0" and not has(st, "linked") and one(st, "new") is not None and l[0] == one(st, "new")[1][1]:
            self.linked(A, st, l[0], val, i)
        if addr[0] != "fld" or addr[2] != "seg":
            return
        S, f = addr[1], addr[3]
        h = self.hdr(st)
        if f == "done" and A.eval(st, rel_eq(val, C(0))) is not True:
            if not any(A.same(st, x[1][1], S) for x in has(st, "emitted")):
                A.report(st, i, "a segment is marked as indexed although no entry was made for it")
            for x in has(st, "emitted"):
                if A.same(st, x[1][1], S):
                    drop(st, x)
        if f in self.fields and not A.isnull(st, val):
            x = call_of(st, S)
            if x is None or x[0] not in ("calloc", "malloc"):
                A.report(st, i, "what is known about a segment is changed after it was read")
                return
            if h is None:
                A.report(st, i, "a segment is made without a header")
                return
            self.site("segment " + f, i)
            if f == "id":
                if not self.isid(A, st, val, h):
                    A.report(st, i, "the ID of a segment is not that in the header just read")
                put(st, "new", T(S), T(val))
            elif f == "flg":
                self.flags(A, st, i, h, val)
            elif f == "silono":
                if not self.silo(A, st, val):
                    A.report(st, i, "the silo of a segment is not the one being read")
            elif f == "off":
                if not self.pos(A, st, val):
                    A.report(st, i, "the offset of a segment is not where its header starts")
            elif f == "segno":
                if not (val[0] == "pure" and val[1] == "Header_Get_Number" and val[2][0] == h and lit(A, st, val[2][1]) == "WARC-Segment-Number"):
                    A.report(st, i, "the number of a segment is not that in the header just read")
            elif f == "parent":
                self.parent(A, st, val, i, h)

    def parent(self, A, st, val, i, h):
        x = call_of(st, val)
        t = x[1][0] if x is not None and x[0] == "strdup" else val
        later = "later" in self.seg(st, h)
        if later:
            ok = "WARC-Segment-Origin-ID" in str(t) and str(("call", 0))[:1] and any(
                y[0] == "pure" and y[1] == "Header_Get" and y[2][0] == h and lit(A, st, y[2][1]) == "WARC-Segment-Origin-ID" for y in subterms(t))
        else:
            ok = hdrid(t) == h
        if not ok:
            A.report(st, i, "a segment is not assigned to the object it belongs to")

    def ret(self, A, st, val, i):
        if has(st, "rec") and not has(st, "eof"):
            A.report(st, i, "a silo is left before its end")


class Match(FsRule):
    """segments whose successor was not read: the entry the index has"""
    def branch(self, A, st, i, cond):
        for t in subterms(cond):
            if t[0] == "pure" and t[1] in ("strcmp", "strcasecmp", "strncmp", "strncasecmp") and A.eval(st, rel_eq(t, C(0))) is True:
                for a, b in (t[2][:2], t[2][1::-1]):
                    f = field_of(b)
                    if a == ("arg", 1) and f is not None and f[:2] == ("seg", "id") and (len(t[2]) < 3 or is_c(t[2][2]) and t[2][2][1] >= 16):
                        setone(st, "match", T(f[2]))
        learnflags(A, st, "flags", cond, lambda t: t == ("arg", 2))

    def call(self, A, st, c):
        if c.name != "IDX_Insert":
            return
        self.site("entry by the index", c)
        m = one(st, "match")
        f = field_of(c.args[1])
        if f is None or f[:2] != ("seg", "id"):
            A.report(st, c, "an entry is not made for a segment")
            return
        S = f[2]
        if tuple(c.args[1:5]) != tuple(A.load(st, ("fld", S, "seg", x)) for x in ("id", "flg", "silono", "off")):
            A.report(st, c, "an entry is not made from the fields of one segment")
        if c.args[5] != ("arg", 5):
            A.report(st, c, "the continuation key is not that of the entry in the index")
        if m is None or m[1][1] != S or any(not v & SEGMENTED for v in flagvals(st, "flags")):
            A.report(st, c, "the continuation key may be that of an entry for something else")


class SiloIter(FsRule):
    """every silo there is is visited"""
    cursors = frozenset(["u"])

    def __init__(self, prog):
        FsRule.__init__(self, prog)
        self.dirfns = set()
        for k in ("Silo_Filename",):
            for b in prog.m.raw[prog.m.named(k).key]["blocks"]:
                for i in b:
                    if i["op"] == "call" and i.get("fn") in prog.m.raw:
                        self.dirfns.add(i["fn"])

    def start(self, A):
        return frozenset([("u", T(C(0)))])

    def name(self, A, st, t):
        """number of the silo whose file name it is"""
        if t[0] == "pure" and t[1] == "VSB_data":
            x = call_of(st, t[2][0])
            if x is not None and x[0] == "Silo_Filename" and x[1][0] == ("arg", 0) and A.eval(st, rel_eq(x[1][2], C(0))) is True:
                return x[1][1]
        return None

    def at(self, A, st, n):
        u = one(st, "u")
        return n is not None and u is not None and A.same(st, u[1][1], n)

    def next(self, st):
        u = one(st, "u")
        setone(st, "u", T(add(u[1][1], C(1))))
        for t in ("st", "dir"):
            droptag(st, t)

    def call(self, A, st, c):
        if c.fptr is not None:
            self.site("silo visited", c)
            n = self.name(A, st, c.args[1])
            if not self.at(A, st, n) or not A.same(st, c.args[2], n):
                A.report(st, c, "the silo visited is not the next one")
            if c.fptr != ("arg", 1) or c.args[0] != ("arg", 2):
                A.report(st, c, "it is not the function given which is called")
            self.next(st)
        elif c.name in self.dirfns and len(c.args) >= 3 and c.args[1] == C(0):
            setone(st, "dir", T(c.args[0]), T(c.args[2]))

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.fptr is not None:
            setone(st, "cb", T(c.res))
        elif c.name in ("stat", "lstat", "access"):
            n = self.name(A, st, c.args[0])
            if n is not None:
                setone(st, "st", T(c.res), T(n), T(c.args[1]))
            else:
                d = one(st, "dir")
                if d is not None and c.args[0][0] == "pure" and c.args[0][1] == "VSB_data" and c.args[0][2][0] == d[1][1]:
                    setone(st, "dst", T(c.res), d[2])

    def branch(self, A, st, i, cond):
        x = one(st, "st")
        if x is not None and self.at(A, st, x[2][1]):
            if A.eval(st, rel_eq(x[1][1], C(0))) is False:
                self.next(st)
            else:
                for t in subterms(cond):
                    if t[0] == "op" and t[1] == "and" and C(0o170000) in t and any(y[0] == "mem" and y[2][0] == "fld" and y[2][3] == "st_mode" for y in subterms(t)):
                        if A.eval(st, rel_eq(t, C(0o100000))) is False:
                            self.next(st)
                            return
        d = one(st, "dst")
        if d is not None and self.at(A, st, d[2][1]) and A.eval(st, rel_eq(d[1][1], C(0))) is False and \
                d[1][1][0] == "call" and A.eval(st, rel_eq(("mem", (), ("errno", d[1][1][1])), C(2))) is True:
            setone(st, "end")
        b = one(st, "cb")
        if b is not None and A.eval(st, rel_eq(b[1][1], C(0))) is False:
            setone(st, "stopped", b[1])

    def ret(self, A, st, val, i):
        self.site("silos exhausted", i)
        s = one(st, "stopped")
        if s is not None:
            if not A.same(st, val, s[1][1]):
                A.report(st, i, "the failure of the function called is not returned")
        elif not has(st, "end"):
            A.report(st, i, "the iteration ends although there may be more silos")


def scanfn(p):
    """the function called for each silo, and the one for each entry of the index"""
    out = {}
    for b in p.m.raw[p.m.named("main_reindex").key]["blocks"]:
        for i in b:
            if i["op"] == "call" and i.get("fn") in ("Silo_Iter", "IDX_Iter"):
                o = i["ops"][1 if i["fn"] == "Silo_Iter" else 2]
                if o[0] != "f":
                    raise AnalysisError("C12: the callback of %s is not a constant" % i["fn"])
                out.setdefault(i["fn"], set()).add(o[1])
    if any(len(out.get(k, ())) != 1 for k in ("Silo_Iter", "IDX_Iter")):
        raise AnalysisError("C12: callbacks of reindexing not found: %s" % out)
    return out["Silo_Iter"].pop(), out["IDX_Iter"].pop()


def run(tier):
    p = Prog()
    res = Result("C12")
    key = lambda n: p.m.named(n).key
    sc, mt = scanfn(p)
    jobs = [(key("Wsilo_Header"), Hdr), (key("Wsilo_Commit"), Commit), (key("Wsilo_Install"), Commit), (sc, Scan2), (mt, Match), (key("Silo_Iter"), SiloIter)]

    def job(k):
        r = Result("C12")
        r.run(p, k[0], k[1](p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for k, n in (("type flag", 1), ("room made", 1), ("warcinfo entry", 1), ("entry of a whole object", 1), ("entry of a segment", 1),
                 ("silo opened", 1), ("header read", 1), ("entry", 2), ("entry with continuation", 1), ("segment id", 1), ("segment flg", 1),
                 ("segment silono", 1), ("segment off", 1), ("segment segno", 1), ("segment parent", 1), ("segment put in the list", 1),
                 ("segment passed", 1), ("entry by the index", 1), ("silo visited", 1), ("silos exhausted", 1)):
        res.need(k, n)
    # nobody else changes what the entries of storing are made from
    for f in sorted(p.m.raw):
        if f not in (key("Wsilo_Header"), key("Wsilo_Commit")) and p.m.raw[f].get("blocks") and p.stores_field(f, "wsilo", "idx"):
            if f != key("Wsilo_New"):
                res.add("idx:%s" % f, f, "the flags kept with a silo are changed elsewhere", function=f)
    return res
