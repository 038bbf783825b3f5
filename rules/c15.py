"""C15: audit examines every record and reports every mismatch.
Records (the function which asks for the stored length of bodies): for every header
read, the whole body is read into a fresh digest and length, and before the next
header is read (a) the digest is compared with WARC-Block-Digest, the length with
Content-Length, the stored length with the distance of the offsets before and after
the body, and the ID with the one made from header and digest (not for the first of
several segments, nor for metadata if it was asked to ignore that); (b) what did not
match was said and printed; (c) the records for which all four matched and the
others were counted, and these numbers are what is printed in the end; (d) a record
with a segment number is on the list, with its number, offset and silo.
Segments (the function which reads them again): starts with one numbered 1, adds only
the segment with the next number and the ID of the first as origin, reads each from
where it was found, and at the one with a total length compares that, the digest of
the payload and the ID, and prints what did not match; gives up with an error only
when nothing was found. Every round takes something off the list. Main: every silo there is or was named, an error for each which cannot be
opened, then the segments until no first one is left, then what is left over."""
from common import *
from engine import _parts, ptr_base

TITLE = "Audit examines every record and reports every mismatch"
ASSUMES = ["Silo_Iter() hands out every existing silo (C12)", "the readers deliver the whole body or abort (C05, C14)", "strtoul() sets its end pointer",
           "a pass over the list of segments which finds nothing is the last one (the loop which goes through the list again must exist; its condition is not decided)",
           "a mismatch is what the comparison functions say (strcmp, memcmp, strncmp)"]
HEAD0 = ("fld", ("g", "segment_list"), "anon", "#0")
PRINTS = {"printf": 0, "fprintf": 1, "puts": 0, "fputs": 0}


def fbase(t, f):
    """the element of which t is the given field"""
    x = field_of(t)
    if x is not None and x[0] == "audit" and x[1] == f:
        return x[2]
    return None


CMP = frozenset(["strcmp", "memcmp", "strncmp", "strcasecmp", "strncasecmp"])


class Compare(FsRule):
    """verdicts from comparisons"""

    def kind(self, st, t):
        return None

    def ctx(self, A, st, t):
        return any(x[1][1] == t for x in has(st, "ctx"))

    pure_extra = frozenset(["strncmp"])

    def hname(self, A, st, t, skip=False):
        """(element or None, header name, offset known) if t points into the value of a header"""
        c, at = _parts(t)
        for a, k in at.items():
            if a[:2] == ("pure", "Header_Get") and k == 1:
                n = lit(A, st, a[2][1])
                return (self.elem(st, a[2][0]), n, c if len(at) == 1 else None)
        return None

    def elem(self, st, h):
        b = fbase(h, "hdr")
        if b is not None:
            return b
        for x in has(st, "hdr"):
            if x[1][1] == h:
                return ("rec",)
        return ("?",)

    def skind(self, A, st, t):
        for tag in ("dig", "szs", "idc", "oldid"):
            for x in has(st, tag):
                if x[1][1] == t:
                    return (tag,)
        if t[:2] == ("pure", "Header_Get_Id"):
            return ("oldid", self.elem(st, t[2][0]))
        h = self.hname(A, st, t)
        if h is not None:
            return ("h",) + h
        s = lit(A, st, t)
        return ("lit", s) if s is not None else None

    def learn(self, A, st, name, e, elem=None):
        """a comparison came out"""
        if e is None or ("v", name, e) in st.auto:
            return
        x = one(st, "bad!")
        if e:
            if x is None:
                put(st, "v", name, True)
            return
        for t in ("v", "sha", "meta", "ign"):
            droptag(st, t)
        put(st, "v", name, False)
        if has(st, "owe"):
            setone(st, "lost")
        setone(st, "bad!")
        setone(st, "owe", name)

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n, a = c.name, c.args
        if n == "SHA256End":
            droptag(st, "dig")
            if self.ctx(A, st, a[0]) and has(st, "read"):
                put(st, "dig", T(a[1]))
                put(st, "dig", T(c.res))
        elif n == "snprintf" and lit(A, st, a[2]) in ("%jd", "%zd", "%ld", "%ju", "%zu", "%lld") and self.size(A, st, a[3]):
            droptag(st, "szs")
            put(st, "szs", T(a[0]))
        elif n == "Ident_Create":
            self.site("ID computed", c)
            droptag(st, "idc")
            if self.skind(A, st, a[2]) == ("dig",) and self.mine(A, st, self.elem(st, a[1])):
                put(st, "idc", T(a[3]))
        elif n == "strdup":
            droptag(st, "oldid")
            k = self.skind(A, st, a[0])
            if k is not None and k[0] == "oldid" and (len(k) == 1 or self.mine(A, st, k[1])):
                put(st, "oldid", T(c.res))
        elif n in ("VSB_printf", "VSB_cat", "VSB_bcat", "VSB_putc") and a[0] == self.err(A, st):
            self.site("complaint", c)
            if not has(st, "bad!"):
                if not has(st, "num") and has(st, "read"):
                    A.report(st, c, "something is reported of a record where nothing differs")
                for t in ("v", "sha", "meta", "ign", "num"):
                    droptag(st, t)
                setone(st, "bad!")
            droptag(st, "owe")
            setone(st, "said")
        elif n == "VSB_clear" and a[0] == self.err(A, st):
            droptag(st, "said")
            droptag(st, "shown")
        elif n == "VSB_len" and a[0] == self.err(A, st):
            if has(st, "said"):
                A.setfact(st, c.res, 1, 1 << 40)
            else:
                A.setfact(st, c.res, 0, 0)
        elif n in PRINTS:
            if has(st, "said") and any(t[:2] == ("pure", "VSB_data") and t[2][0] == self.err(A, st) for t in a):
                setone(st, "shown")
            s = lit(A, st, a[PRINTS[n]])
            if s is not None and "ERROR" in s:
                self.errprint(A, st, c)

    def errprint(self, A, st, c):
        droptag(st, "owe")
        setone(st, "shown")

    def compared(self, A, st, t, e):
        """result of a comparison of strings"""
        ka, kb = self.skind(A, st, t[2][0]), self.skind(A, st, t[2][1])
        if ka is None or kb is None:
            return
        for x, y in ((ka, kb), (kb, ka)):
            if x[0] == "h" and self.mine(A, st, x[1]):
                if x[2] == self.DIGEST and y == ("lit", "sha256:") and t[1] in ("memcmp", "strncmp") and t[2][2] == C(7):
                    if e:
                        if not has(st, "bad!"):
                            setone(st, "sha")
                    else:
                        self.learn(A, st, "digest", False)
                elif x[2] == self.DIGEST and y == ("dig",) and t[1] == "strcmp" and x[3] == 7:
                    self.learn(A, st, "digest", e and bool(has(st, "sha") or ("v", "digest", True) in st.auto or has(st, "bad!")))
                    droptag(st, "sha")
            if x[0] == "h" and x[2] == self.LENGTH and y == ("szs",) and t[1] == "strcmp" and x[3] == 0 and self.lastone(A, st, x[1]):
                self.learn(A, st, "length", e)
            if x == ("idc",) and y[0] == "oldid" and t[1] == "strcmp" and (len(y) == 1 or self.mine(A, st, y[1])):
                self.learn(A, st, "ID", e)
            self.other(A, st, t, x, y, e)

    def other(self, A, st, t, x, y, e):
        pass

    def branch(self, A, st, i, cond):
        for t in subterms(cond):
            if t[0] == "pure" and t[1] in CMP:
                e = A.eval(st, rel_eq(t, C(0)))
                if e is not None:
                    self.compared(A, st, t, e)
            elif t[:2] == ("pure", "Header_Get"):
                h = self.hname(A, st, t)
                e = A.isnull(st, t)
                if e is not None:
                    self.present(A, st, h[0], h[1], not e)
        self.forget(A, st, cond)

    def forget(self, A, st, cond):
        """what differs has been noted"""
        for t in list(st.facts):
            if any(x[0] == "pure" and (x[1] in CMP or x[1] == "Header_Get" and lit(A, st, x[2][1]) != "WARC-Segment-Number") or
                    x[0] == "mem" and (x[2] == ("g", "ignore_metadata_record_id") or self.kind(st, x) == "bodylen")
                    for x in subterms(t)):
                del st.facts[t]

    def present(self, A, st, el, name, e):
        if not e and (name == self.DIGEST and self.mine(A, st, el) or name == self.LENGTH and self.lastone(A, st, el)):
            self.learn(A, st, "digest" if name == self.DIGEST else "length", False)

    def verdict(self, A, st, w, need):
        """True: all matched, False: something did not, None: alarm"""
        v = {x[1]: x[2] for x in has(st, "v")}
        if has(st, "bad!"):
            if has(st, "owe") or has(st, "lost"):
                A.report(st, w, "a mismatch (%s) is not reported" % ", ".join(sorted(k for k in v if v[k] is False)))
                return None
            if not has(st, "shown"):
                A.report(st, w, "a mismatch is not printed")
                return None
            return False
        for k in need:
            if k not in v:
                A.report(st, w, "the %s is not compared" % k)
                return None
        return True


class Rec(Compare):
    cursors = frozenset(["good", "bad"])
    DIGEST, LENGTH = "WARC-Block-Digest", "Content-Length"
    OFF = ("o0", "o1", "o2", "bodylen", "hdr", "silo_fn", "silo_no")
    PER = ("hdr", "k", "f", "v", "bad!", "owe", "lost", "shown", "sep", "ctx", "dig", "szs", "idc", "oldid", "sha", "read", "seg", "listed", "segno", "priv", "nul", "meta", "ign", "segset", "num", "nend")

    def __init__(self, prog, cbs):
        FsRule.__init__(self, prog)
        self.cbs = cbs
        self.like = {}

    def likely(self, A, tag):
        if tag not in self.like:
            ids = set()
            for b in A.fn.blocks.values() if isinstance(A.fn.blocks, dict) else A.fn.blocks:
                for i in b:
                    s = i["ops"][0] if i["op"] == "call" and i.get("fn") == "printf" else None
                    if s is not None and s[0] == "s" and "good" in s[1] and "bad" in s[1]:
                        w = ["good", "bad"] if s[1].index("good") < s[1].index("bad") else ["bad", "good"]
                        ids.add(tuple(i["ops"][1 + w.index(tag)][:2]))
            ids = {o[1] for o in ids if o[0] == "v"}
            todo = set(ids)
            while todo:
                d = A.fn.instrs.get(todo.pop())
                for o in [o for _, o in d["ops"]] if d is not None and d["op"] == "phi" else d["ops"] if d is not None and d["op"] not in ("call", "load") else ():
                    if o[0] == "v" and o[1] not in ids:
                        ids.add(o[1])
                        todo.add(o[1])
            self.like[tag] = ids
        return self.like[tag]

    def err(self, A, st):
        x = one(st, "err")
        return x[1][1] if x else None

    def mine(self, A, st, el):
        x = one(st, "priv")
        return el == ("rec",) or x is not None and A.same(st, el, x[1][1])

    lastone = mine

    def size(self, A, st, t):
        return fbase(t, "sz") is not None and self.mine(A, st, fbase(t, "sz")) and has(st, "read")

    def kind(self, st, t):
        for x in has(st, "k"):
            if x[2][1] == t:
                return x[1]
        x = field_of(t)
        if x is not None and x[0] == "audit":
            for y in has(st, "f"):
                if y[1] == x[1] and y[3][1] == x[2]:
                    return y[2]
        if t[:2] == ("pure", "Rsilo_BodyLen"):
            return "bodylen"
        return None

    def setk(self, st, kind, t):
        for x in has(st, "k"):
            if x[1] == kind:
                drop(st, x)
        put(st, "k", kind, T(t))

    def call(self, A, st, c):
        n, a = c.name, c.args
        rs = one(st, "rs")
        mine = rs is not None and a and a[0] == rs[1][1]
        if n == "Rsilo_ReadHeader" and mine:
            self.finish(A, st, c)
        elif n == "Rsilo_ReadChunk" and mine:
            self.site("body read", c)
            if not has(st, "hdr"):
                A.report(st, c, "a body is read without its header")
            if a[1][0] != "f" or a[1][1] not in self.cbs:
                A.report(st, c, "the function given the body is not known to digest and count it")
            p = a[2]
            setone(st, "priv", T(p))
            if ("ctx", T(("fld", p, "audit", "sha256"))) not in st.auto:
                A.report(st, c, "the body is not read into a fresh digest")
            if not any(x[1][1] == p for x in has(st, "sz0")):
                A.report(st, c, "the length of the body does not start at zero")
            droptag(st, "sz0")
            setone(st, "read")
        elif n in ("Rsilo_ReadGZChunk", "Rsilo_NextHeader") and mine and not has(st, "read"):
            A.report(st, c, "a body is not examined")
        elif n == "printf":
            s = lit(A, st, a[0]) or ""
            if "good" in s and "bad" in s:
                self.site("totals printed", c)
                self.finish(A, st, c)
                w = [x for x in ("good", "bad")]
                if s.index("bad") < s.index("good"):
                    w.reverse()
                for k, x in zip(w, a[1:3]):
                    if not A.same(st, x, one(st, k)[1][1]):
                        A.report(st, c, "the number of %s records printed is not the number there were" % k)
                if not has(st, "eof"):
                    A.report(st, c, "the totals are printed before the end of the silo was found")
                setone(st, "total")
        elif n == "free" and has(st, "listed") and one(st, "priv")[1][1] == a[0]:
            A.report(st, c, "a segment on the list is released")

    def after(self, A, st, c):
        n, a = c.name, c.args
        Compare.after(self, A, st, c)
        rs = one(st, "rs")
        mine = rs is not None and a and a[0] == rs[1][1]
        if n == "Rsilo_Open":
            self.site("silo opened", c)
            if A.eval(st, rel_eq(a[3], C(0))) is not True:
                A.report(st, c, "a silo is not examined from its start")
            if tuple(a[:3]) != (("arg", 0), ("arg", 1), ("arg", 2)):
                A.report(st, c, "the silo opened is not the one asked for")
            setone(st, "rs", T(c.res))
            put(st, "good", T(C(0)))
            put(st, "bad", T(C(0)))
        elif n == "Rsilo_ReadHeader" and mine:
            self.site("header read", c)
            self.counters(st)
            k = [x for x in has(st, "k") if x[1] == "o0"]
            f = [x for x in has(st, "f") if x[2] == "o0"]
            for x in self.PER:
                droptag(st, x)
            for x in k + f:
                put(st, *x)
            put(st, "hdr", T(c.res))
            self.setk(st, "hdr", c.res)
        elif n == "Rsilo_Tell" and mine:
            self.setk(st, "o3" if has(st, "sep") else "o2" if has(st, "read") else "o1" if has(st, "hdr") else "o0", c.res)
        elif n == "Rsilo_SkipCRNL" and mine:
            setone(st, "sep")
        elif n == "Rsilo_BodyLen" and mine:
            self.setk(st, "bodylen", c.res)
        elif n == "SHA256Init":
            put(st, "ctx", T(a[0]))
        elif n == "calloc":
            droptag(st, "sz0")
            put(st, "sz0", T(c.res))
        elif n in ("VSB_new", "VSB_new_auto") and not has(st, "err"):
            put(st, "err", T(c.res))
        elif n == "strtoul":
            h = self.skind(A, st, a[0])
            if h is not None and h[0] == "h" and h[2] == "WARC-Segment-Number":
                setone(st, "segno", T(c.res))
                setone(st, "nend", T(a[1]))

    def finish(self, A, st, w):
        """the record is over"""
        if not has(st, "read"):
            if has(st, "hdr"):
                if A.isnull(st, one(st, "hdr")[1][1]) is True:
                    return
                A.report(st, w, "a record is not examined")
            return
        v = self.verdict(A, st, w, ("digest", "length", "stored length", "ID"))
        if not has(st, "seg"):
            A.report(st, w, "whether the record is a segment was not looked at")
        elif one(st, "seg")[1] and not has(st, "listed"):
            A.report(st, w, "a segment is not put on the list")
        elif one(st, "seg")[1] and not has(st, "segset"):
            A.report(st, w, "a segment is put on the list without its number")
        if v is not None:
            k = "good" if v else "bad"
            t = add(one(st, k)[1][1], C(1))
            if _parts(t)[0] > 3:
                A.report(st, w, "the %s records are not known to be counted" % k)
                t = C(0)
            setone(st, k, T(t))
        for x in self.PER:
            droptag(st, x)

    def backedge(self, A, st, head):
        if has(st, "read") and any(i["op"] == "call" and i.get("fn") == "Rsilo_ReadHeader" for b in A.fn.loopbody.get(head, ()) for i in A.fn.blocks[b]):
            self.finish(A, st, self.where)

    def store(self, A, st, addr, val, i):
        x = addr_field(addr)
        if x is not None and x[0] == "audit":
            for y in has(st, "f"):
                if y[1] == x[1] and y[3][1] == x[2]:
                    drop(st, y)
            k = self.kind(st, val)
            if k is not None:
                put(st, "f", x[1], k, T(x[2]))
            if x[1] == "sz":
                droptag(st, "sz0")
                if A.eval(st, rel_eq(val, C(0))) is True:
                    put(st, "sz0", T(x[2]))
            if x[1] == "segment" and has(st, "segno") and one(st, "segno")[1][1] == val and self.mine(A, st, x[2]):
                setone(st, "segset")
            return
        p = one(st, "priv")
        if p is not None and val == p[1][1] and root_(addr) != val:
            self.site("segment put on the list", i)
            setone(st, "listed")
            for f, k in (("o0", "o0"), ("hdr", "hdr"), ("o2", "o2")):
                if ("f", f, k, T(val)) not in st.auto:
                    A.report(st, i, "a segment is put on the list without its %s" % f)

    def forget(self, A, st, cond):
        x = cond_about(cond)
        self.later(A, st, x, self.where)
        Compare.forget(self, A, st, cond)
        self.counters(st)
        for t in list(st.facts):
            if any(x[0] == "mem" and any(y[1][1] == x[2] for y in has(st, "nend")) for x in subterms(t)):
                del st.facts[t]

    def branch(self, A, st, i, cond):
        self.where = i
        Compare.branch(self, A, st, i, cond)
        h = one(st, "hdr")
        if h is not None and not has(st, "read") and A.isnull(st, h[1][1]) is True:
            droptag(st, "hdr")
            setone(st, "eof")

    def counters(self, st):
        for t in list(st.facts):
            if t[0] == "phi":
                del st.facts[t]

    def later(self, A, st, x, i):
        n = one(st, "nend")
        if n is not None and x is not None and any(t[0] == "mem" and t[2] == n[1][1] for t in subterms(x)):
            # where the number ends
            c, at = _parts(x)
            z = A.eval(st, rel_eq(x, C(0)))
            if len(at) == 2 and z is True or len(at) == 1 and list(at)[0][0] == "mem" and list(at)[0][2] != n[1][1] and z is False:
                if not has(st, "bad!"):
                    setone(st, "num")
        if x is not None and has(st, "read"):
            c, at = _parts(x)
            ks = {}
            for t, k in at.items():
                ks[self.kind(st, t)] = k
            if c == 0 and ks in ({"bodylen": 1, "o1": 1, "o2": -1}, {"bodylen": -1, "o1": -1, "o2": 1}):
                self.site("stored length compared", i)
                self.learn(A, st, "stored length", A.eval(st, rel_eq(x, C(0))))
            if x[0] == "mem" and x[2] == ("g", "ignore_metadata_record_id") and A.eval(st, rel_eq(x, C(0))) is False:
                if not has(st, "bad!"):
                    setone(st, "ign")
                self.skip(A, st)

    def skip(self, A, st):
        if has(st, "ign") and has(st, "meta"):
            self.learn(A, st, "ID", True)
            droptag(st, "ign")
            droptag(st, "meta")

    def other(self, A, st, t, x, y, e):
        if x[0] == "h" and self.mine(A, st, x[1]) and e and x[3] == 0 and t[1] == "strcmp":
            if x[2] == "WARC-Type" and y == ("lit", "metadata"):
                if not has(st, "bad!"):
                    setone(st, "meta")
                self.skip(A, st)
            if x[2] == "WARC-Segment-Number" and y == ("lit", "1"):
                self.learn(A, st, "ID", True)

    def present(self, A, st, el, name, e):
        Compare.present(self, A, st, el, name, e)
        if name == "WARC-Segment-Number" and self.mine(A, st, el):
            setone(st, "seg", e)

    def ret(self, A, st, val, i):
        x = one(st, "rs")
        if x is None:
            A.report(st, i, "no silo is opened")
        elif A.isnull(st, x[1][1]) is True:
            if A.eval(st, rel_eq(val, C(0))) is not False:
                A.report(st, i, "a silo which cannot be opened is not reported")
        elif not has(st, "total"):
            A.report(st, i, "the silo is left before its end")


def root_(addr):
    from engine import root
    return root(addr)


class Cb(FsRule):
    """the function given a body: digest and length"""

    def call(self, A, st, c):
        if c.name == "SHA256Update":
            self.site("digested", c)
            x = addr_field(c.args[0])
            if x is None or x[1] != "sha256" or x[2] != ("arg", 0) or c.args[1:3] != (("arg", 1), ("arg", 2)) or has(st, "upd"):
                A.report(st, c, "not exactly what was read is digested")
            setone(st, "upd")

    def store(self, A, st, addr, val, i):
        x = addr_field(addr)
        if x is not None and x[0] == "audit":
            if x[1] != "sz" or not A.same(st, val, add(("mem", (), addr), ("arg", 2))) and not A.same(st, val, add(A.load(st, addr), ("arg", 2))) or has(st, "cnt"):
                A.report(st, i, "not exactly what was read is counted")
            setone(st, "cnt")

    def ret(self, A, st, val, i):
        if A.eval(st, rel_eq(val, C(0))) is not True:
            A.report(st, i, "the rest of a body is not examined")
        for x in ("upd", "cnt"):
            if not has(st, x) and A.le(st, C(1), ("arg", 2)) is not False:
                A.report(st, i, "a part of a body is not examined")


class Pend(Compare):
    cursors = frozenset(["lnk", "prev"])
    DIGEST, LENGTH = "WARC-Payload-Digest", "WARC-Segment-Total-Length"

    def __init__(self, prog, cbs, err):
        FsRule.__init__(self, prog)
        self.cbs = cbs
        self.errarg = err
        self.heads = set()

    def err(self, A, st):
        return ("arg", self.errarg)

    def ctx(self, A, st, t):
        x = addr_field(t)
        return x is not None and x[:2] == ("audit", "sha256") and self.mine(A, st, x[2])

    def dullmem(self, addr):
        return self.link(addr) or addr[0] == "fld" and addr[2:] == ("audit", "gzsz")

    @staticmethod
    def link(addr):
        if addr[0] == "mem":
            addr = addr[2]
        return addr[0] == "fld" and (addr[3] in ("#0", "#1") and (addr[1] == ("g", "segment_list") or addr[1][0] == "fld" and addr[1][2:] == ("audit", "list")))

    def dullread(self, addr):
        return any(x[:2] == ("pure", "VSB_data") or x[0] == "phi" and x == addr for x in subterms(addr)) or \
            addr[0] == "fld" and addr[2:] == ("audit", "magic")

    def mine(self, A, st, el):
        x = one(st, "first")
        return x is not None and A.same(st, el, x[1][1])

    def lastone(self, A, st, el):
        x = one(st, "prev")
        return x is not None and A.same(st, el, x[1][1])

    def size(self, A, st, t):
        b = fbase(t, "sz")
        return b is not None and self.mine(A, st, b) and has(st, "read")

    def load(self, A, st, addr, val, i):
        if addr == ("g", "segment_list") or addr == HEAD0:
            self.heads.add(i["id"])
            droptag(st, "rm")
            droptag(st, "end")
            if not has(st, "ever"):
                setone(st, "lnk", T(val))
        elif addr[0] == "fld" and addr[3] == "#0" and addr[1][0] == "fld" and addr[1][2:] == ("audit", "list"):
            if not has(st, "ever"):
                setone(st, "lnk", T(val))

    def store(self, A, st, addr, val, i):
        x = addr_field(addr)
        if addr[0] == "mem" and addr[2][0] == "fld" and addr[2][3] == "#1" and addr[2][1][0] == "fld" and addr[2][1][2:] == ("audit", "list"):
            self.site("taken off the list", i)
            setone(st, "rm")
            setone(st, "ever")
            droptag(st, "lnk")
            droptag(st, "end")
            if has(st, "one"):
                if not has(st, "first") and A.same(st, one(st, "one")[1][1], addr[2][1][1]):
                    put(st, "first", T(addr[2][1][1]))
                    droptag(st, "one")
        elif x is not None and x[0] == "audit" and x[1] == "sz":
            droptag(st, "sz0")
            if A.eval(st, rel_eq(val, C(0))) is True:
                put(st, "sz0", T(x[2]))

    def call(self, A, st, c):
        n, a = c.name, c.args
        if n == "Rsilo_ReadChunk":
            self.site("segment read again", c)
            e = [x[2][1] for x in has(st, "rs") if x[1][1] == a[0]]
            p = a[2]
            if not e or not has(st, "rh"):
                A.report(st, c, "a segment is not read from where it was found")
                return
            e = e[0]
            if a[1][0] != "f" or a[1][1] not in self.cbs:
                A.report(st, c, "the function given the body is not known to digest and count it")
            if not self.mine(A, st, p):
                A.report(st, c, "a segment is not added to the first one of its object")
            if has(st, "read"):
                x = one(st, "next")
                if x is None or not A.same(st, x[1][1], e) or not A.same(st, x[2][1], one(st, "prev")[1][1]):
                    A.report(st, c, "a segment is added which is not known to be the next one")
                if not any(A.same(st, y[1][1], e) for y in has(st, "orig")):
                    A.report(st, c, "a segment is added which is not known to belong to the object")
            else:
                if not A.same(st, e, p):
                    A.report(st, c, "the first segment is not the first one added")
                if not any(A.same(st, x[1][1], ("fld", p, "audit", "sha256")) for x in has(st, "ctx")):
                    A.report(st, c, "the segments are not read into a fresh digest")
                if not any(A.same(st, x[1][1], p) for x in has(st, "sz0")):
                    A.report(st, c, "the length of the object does not start at zero")
                droptag(st, "ctx")
                droptag(st, "sz0")
            setone(st, "read")
            setone(st, "prev", T(e))
            for x in ("next", "orig", "rs", "rh"):
                droptag(st, x)

    def after(self, A, st, c):
        n, a = c.name, c.args
        Compare.after(self, A, st, c)
        if n == "Rsilo_Open":
            droptag(st, "rs")
            droptag(st, "rh")
            e = [fbase(a[k], f) for k, f in ((1, "silo_fn"), (2, "silo_no"), (3, "o0"))]
            if None not in e and e[0] == e[1] == e[2]:
                put(st, "rs", T(c.res), T(e[0]))
        elif n == "Rsilo_ReadHeader":
            setone(st, "rh")
        elif n == "SHA256Init":
            put(st, "ctx", T(a[0]))

    def errprint(self, A, st, c):
        setone(st, "errpr")

    def branch(self, A, st, i, cond):
        self.where = i
        Compare.branch(self, A, st, i, cond)
        for x in has(st, "lnk"):
            e = A.isnull(st, x[1][1])
            if e is not None:
                drop(st, x)
                if e:
                    setone(st, "end")
        x = cond_about(cond)
        if x is not None:
            c, at = _parts(x)
            segs = [(fbase(t, "segment"), k) for t, k in at.items()]
            if len(segs) == 1 and segs[0][0] is not None and not has(st, "ever"):
                if A.eval(st, rel_eq([t for t in at][0], C(1))) is True:
                    setone(st, "one", T(segs[0][0]))
            if len(segs) == 2 and all(b is not None for b, _ in segs) and {k for _, k in segs} == {1, -1}:
                for (b, k), (d, _) in (segs, segs[::-1]):
                    if c == -k and A.eval(st, rel_eq(x, C(0))) is True:
                        setone(st, "next", T(b), T(d))

    def present(self, A, st, el, name, e):
        if name == self.LENGTH and self.lastone(A, st, el):
            if e:
                setone(st, "last")
            elif not has(st, "last"):
                return
        Compare.present(self, A, st, el, name, e)

    def other(self, A, st, t, x, y, e):
        if x[0] == "h" and x[2] == "WARC-Segment-Origin-ID" and y[0] == "oldid" and len(y) == 2 and self.mine(A, st, y[1]) and e:
            setone(st, "orig", T(x[1]))

    def backedge(self, A, st, head):
        ids = A.fn.loopids(head)
        if self.heads & ids:
            self.site("another pass", self.where)
            # a pass which found nothing is the last one: see ASSUMES
            if not has(st, "rm"):
                return False

    def ret(self, A, st, val, i):
        z = A.eval(st, rel_eq(val, C(0)))
        if not has(st, "ever"):
            if z is not True:
                A.report(st, i, "nothing was taken off the list, but there is to be another round")
            elif not has(st, "end"):
                A.report(st, i, "the list was not searched to its end")
            return
        if z is not False:
            A.report(st, i, "the remaining segments are not examined")
        if has(st, "last"):
            self.site("object complete", i)
            self.verdict(A, st, i, ("digest", "length", "ID"))
            return
        self.site("object given up", i)
        if not has(st, "errpr"):
            A.report(st, i, "an object is given up without an error")


class Calls(FsRule):
    """the silos: callback and main function"""

    def __init__(self, prog, silo, pend, cbs):
        FsRule.__init__(self, prog)
        self.silo, self.pend, self.cbs = silo, pend, cbs

    def due(self, A, st, w):
        x = one(st, "res")
        if x is not None:
            if A.eval(st, rel_eq(x[1][1], C(0))) is not True:
                A.report(st, w, "a silo which cannot be opened is not reported")
            droptag(st, "res")

    def call(self, A, st, c):
        if c.key == self.silo:
            self.site("silo examined", c)
            self.due(A, st, c)
            a = c.args
            if A.fn.key in self.cbs:
                ok = A.isnull(st, a[1]) is True and a[2] == ("arg", 2) or a[1] == ("arg", 1)
            else:
                ok = a[1][0] == "mem" and A.eval(st, rel_eq(a[2], C(-1))) is True
            if not ok:
                A.report(st, c, "the silo examined is not the one handed out or named")
            setone(st, "did")
        elif c.key == self.pend:
            self.due(A, st, c)
            self.site("segments examined", c)
        elif c.name == "Silo_Iter":
            if c.args[1][0] != "f" or c.args[1][1] not in self.cbs:
                A.report(st, c, "the silos are not handed to the function which examines them")
            setone(st, "all")
        elif c.name == "printf" and has(st, "res"):
            if "ERROR" in (lit(A, st, c.args[0]) or ""):
                droptag(st, "res")

    def after(self, A, st, c):
        if c.key == self.silo:
            setone(st, "res", T(c.res))
        elif c.key == self.pend:
            setone(st, "pend", T(c.res))

    def branch(self, A, st, i, cond):
        x = one(st, "res")
        if x is not None and A.eval(st, rel_eq(x[1][1], C(0))) is True:
            droptag(st, "res")
        x = one(st, "pend")
        if x is not None and len(x) == 2:
            e = A.eval(st, rel_eq(x[1][1], C(0)))
            if e is not None:
                setone(st, "pend", e, 0)

    def backedge(self, A, st, head):
        if has(st, "res") and any(i["op"] == "call" and i.get("callee") == self.silo for b in A.fn.loopbody.get(head, ()) for i in A.fn.blocks[b]):
            self.due(A, st, self_where(A))

    def ret(self, A, st, val, i):
        self.due(A, st, i)
        if A.fn.key in self.cbs:
            if not has(st, "did"):
                A.report(st, i, "a silo handed out is not examined")
            if A.eval(st, rel_eq(val, C(0))) is not True:
                A.report(st, i, "the silos after this one may not be examined")
            return
        if not has(st, "all") and not has(st, "did"):
            # silos were named: none left
            if A.eval(st, rel_eq(val, C(0))) is True and not has(st, "named"):
                pass
        x = one(st, "pend")
        if x is None or x[1] is not True:
            A.report(st, i, "the segmented objects are not examined until none is left")


def self_where(A):
    return A.fn.blocks[0][0]


def run(tier):
    p = Prog()
    res = Result("C15")

    def outer(fns):
        """the outermost helpers which contain calls of one of the functions, and the entries which do so themselves"""
        out = set()
        for k in p.entries():
            if p.m.raw[k].get("file", "").endswith("main_audit.c") or k == "main_audit":
                pass
            if "SHA256Init" not in p.calls_in(k) or "Ident_Create" not in p.calls_in(k) or "Rsilo_ReadChunk" not in p.calls_in(k):
                continue
            for b in p.m.raw[k]["blocks"]:
                for i in b:
                    if i["op"] == "call" and i.get("fn") in fns:
                        out.add(i["loc"][-2][2] if len(i["loc"]) > 1 else i["loc"][0][2])
        return out
    recs = outer({"Rsilo_BodyLen"})
    pends = outer({"Rsilo_ReadChunk"}) - recs
    if len(recs) == 1 and not pends:
        res.add("segments", "main_audit.c", "segmented objects are not examined")
        return res
    if len(recs) != 1 or len(pends) != 1:
        raise AnalysisError("C15: the functions of audit are not found: %s %s" % (recs, pends))
    q = Prog(more=sorted(recs | pends))
    key = {q.m.raw[k]["name"]: k for k in q.m.raw if not q.m.raw[k]["decl"]}
    rec, pend = key[recs.pop()], key[pends.pop()]
    cbs = set()
    for k in (rec, pend):
        for b in q.m.raw[k]["blocks"]:
            for i in b:
                if i["op"] == "call" and i.get("fn") == "Rsilo_ReadChunk" and i["ops"][1][0] == "f":
                    cbs.add(i["ops"][1][1])
    npar = len(q.m.raw[pend].get("args", []))
    callers = [k for k in q.entries() if any(i["op"] == "call" and i.get("callee") == rec for b in q.m.raw[k]["blocks"] for i in b)]
    scb = set(q.callbacks_of("Silo_Iter")) & set(callers)
    jobs = [(rec, Rec(q, cbs)), (pend, Pend(q, cbs, npar - 1))] + [(k, Cb(q)) for k in sorted(cbs)] + \
        [(k, Calls(q, rec, pend, scb)) for k in sorted(callers)]

    def job(j):
        r = Result("C15")
        r.run(q, *j)
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    if len(scb) != 1 or len(callers) != 2:
        res.add("callers", "main_audit.c", "silos are not examined for both commands lines: %s" % callers)
    for k, n in (("silo opened", 1), ("header read", 1), ("body read", 1), ("stored length compared", 1), ("totals printed", 1), ("segment put on the list", 1),
                 ("ID computed", 2), ("segment read again", 1), ("taken off the list", 1), ("another pass", 1), ("object complete", 1), ("object given up", 1),
                 ("silo examined", 2), ("segments examined", 1), ("digested", 1)):
        res.need(k, n)
    return res
