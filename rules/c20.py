"""C20: IDs are validated and compared without regard to case.
The function which validates IDs says yes to exactly those which, without the prefix
of the archive, have the configured length and hexadecimal digits only, and hands
back the part after the prefix.  Whatever is looked up in the index, or stored as ID
of a retrieval job or given to a store job, was validated by it on that path (byid:
only digits, fragments are allowed); the candidates of filter are the first digits,
as many as configured, of a line, all of them checked, in lower case.  IDs given by
the user are never compared by functions which distinguish upper and lower case with
something else (filter: both sides are lower case), and every path which turns digits
into the keys of the index maps upper and lower case digits to the same value."""
from common import *
from engine import add, sub, _parts

TITLE = "IDs are validated and compared without regard to case"
ASSUMES = ["filter cuts longer IDs to the configured length and byid looks up fragments, as they always did",
           "the keys which the index functions hand to callbacks are formatted by the printf family"]
HEX = set("0123456789abcdefABCDEF")
SENS = {"strcmp": 2, "strncmp": 2, "memcmp": 2, "bcmp": 2, "strstr": 2}
INSENS = {"strcasecmp": 2, "strncasecmp": 2}
COMPARES = set(SENS) | set(INSENS)
FORMATS = {"snprintf": 2, "sprintf": 1, "vsnprintf": 2}


def id_size(t):
    return is_field(t, "aardwarc", "id_size")


def isf(addr, s, f):
    x = addr_field(addr)
    return x is not None and x[:2] == (s, f)


class IdRule(FsRule):
    """what is known of strings"""

    def branch(self, A, st, i, cond):
        ts = list(subterms(cond))
        spn = [t for t in ts if t[:2] == ("pure", "strspn")]
        lens = [t for t in ts if t[:2] == ("pure", "strlen")]
        for t in spn:
            s = lit(A, st, t[2][1])
            if s is None or not set(s) <= HEX:
                continue
            end = None
            for m in ts:
                if m[0] == "mem" and m[2] == add(t[2][0], t):
                    end = A.eval(st, rel_eq(m, C(0)))
            if end is False and set(s) == HEX:
                put(st, "nohex", T(t[2][0]))
            for n in [n for n in ts if id_size(n)]:
                if A.le(st, n, t):
                    put(st, "hexn", T(t[2][0]))
            for y in [y for y in lens if y[2][0] == t[2][0]] or [("pure", "strlen", (t[2][0],), t[3])]:
                e = A.eval(st, rel_eq(t, y))
                if e is True or end is True:
                    put(st, "hex", T(t[2][0]))
                elif e is False and set(s) == HEX:
                    put(st, "nohex", T(t[2][0]))
        for t in lens:
            for n in [n for n in ts if id_size(n)]:
                if A.le(st, n, t):
                    put(st, "min", T(t[2][0]), T(n))
                if A.le(st, t, n):
                    put(st, "max", T(t[2][0]))
                if A.le(st, add(t, C(1)), n):
                    put(st, "short", T(t[2][0]))
                if A.le(st, add(n, C(1)), t):
                    put(st, "long", T(t[2][0]))
        for t in ts:
            if t[:2] == ("pure", "strncasecmp") and is_field(t[2][1], "aardwarc", "prefix"):
                e = A.eval(st, rel_eq(t, C(0)))
                if e is not None:
                    put(st, "pfx", T(t[2][0]), T(t[2][2]) if e else None)

    def stripped(self, A, st, p):
        for x in has(st, "pfx"):
            if x[2] is None and A.same(st, p, x[1][1]) or x[2] is not None and A.same(st, p, add(x[1][1], x[2][1])):
                return True
        return False

    def is_(self, A, st, tag, p):
        return any(A.same(st, x[1][1], p) for x in has(st, tag))


class Valid(IdRule):
    pure_extra = frozenset(["strspn", "strcspn", "strncasecmp"])

    def store(self, A, st, addr, val, i):
        if addr == ("arg", 2):
            self.site("ID handed back", i)
            setone(st, "nid", T(val))

    def ret(self, A, st, val, i):
        n = A.isnull(st, val)
        ps = set()
        for x in has(st, "pfx"):
            if x[1][1] == ("arg", 1):
                ps.add(("arg", 1) if x[2] is None else add(("arg", 1), x[2][1]))
        if n is not True:
            if n is None:
                A.report(st, i, "whether the ID is valid is not known")
            self.site("refused", i)
            if not any(self.is_(A, st, "nohex", p) or self.is_(A, st, "short", p) or self.is_(A, st, "long", p) or
                       self.bad(A, st, p) for p in ps):
                A.report(st, i, "an ID is refused although nothing is wrong with it")
            return
        self.site("accepted", i)
        if len(ps) != 1:
            A.report(st, i, "the prefix is not looked at")
            return
        p = ps.pop()
        for tag, s in (("hex", "only digits"), ("min", "not too short"), ("max", "not too long")):
            if not self.is_(A, st, tag, p):
                A.report(st, i, "an ID is accepted without knowing that it has/is %s" % s)
        x = one(st, "nid")
        if x is not None and not A.same(st, x[1][1], p):
            A.report(st, i, "the ID handed back is not the one which was checked")
        if x is None and A.isnull(st, ("arg", 2)) is not True:
            A.report(st, i, "no ID is handed back")

    def bad(self, A, st, p):
        return self.is_(A, st, "delim", p)

    def branch(self, A, st, i, cond):
        IdRule.branch(self, A, st, i, cond)
        for t in subterms(cond):
            # a reason to refuse it earlier, with a better message
            if t[:2] == ("pure", "strcspn"):
                s = lit(A, st, t[2][1])
                y = ("pure", "strlen", (t[2][0],), t[3])
                if s is not None and not set(s) & HEX and A.eval(st, rel_eq(t, y)) is False:
                    put(st, "delim", T(t[2][0]))


class Use(IdRule):
    pure_extra = frozenset(["strspn", "strncasecmp"])

    def __init__(self, prog, key, fragments, loose):
        IdRule.__init__(self, prog)
        self.key = key
        self.fragments = fragments
        self.loose = loose

    def after(self, A, st, c):
        IdRule.after(self, A, st, c)
        if c.name == "IDX_Valid_Id":
            self.site("validation", c)
            if A.isnull(st, c.args[2]) is not True:
                put(st, "vq", T(c.res), T(A.load(st, c.args[2])))

    def branch(self, A, st, i, cond):
        IdRule.branch(self, A, st, i, cond)
        for x in has(st, "vq"):
            e = A.isnull(st, x[1][1])
            if e is not None:
                st.auto = st.auto - {x}
                if e:
                    put(st, "valid", x[2])

    def call(self, A, st, c):
        if c.name == "IDX_Iter":
            self.site("index searched", c)
            v = c.args[1]
            if A.isnull(st, v) is True or self.loose:
                return
            if is_field(v, "getjobseg", "idx_cont"):
                return      # the continuation, from the index itself
            if not self.is_(A, st, "valid", v) and not (self.fragments and self.is_(A, st, "hex", v)):
                A.report(st, c, "the index is searched for an ID which was not validated")
        elif c.name == "SegJob_New":
            self.site("ID for a store job", c)
            if A.isnull(st, c.args[2]) is not True and not self.is_(A, st, "valid", c.args[2]):
                A.report(st, c, "an object is stored with an ID which was not validated")

    def store(self, A, st, addr, val, i):
        if isf(addr, "getjob", "id"):
            self.site("ID of a retrieval job", i)
            if not self.is_(A, st, "valid", val):
                A.report(st, i, "the ID of a retrieval job was not validated")


class Cmp(FsRule):
    """comparisons with the IDs given"""

    def __init__(self, prog, keyarg):
        FsRule.__init__(self, prog)
        self.keyarg = keyarg
        self.copies = set()

    def store(self, A, st, addr, val, i):
        if isf(addr, "cand", "id"):
            setone(st, "cid", T(val))

    def kind(self, st, t):
        if self.keyarg is not None and t == ("arg", self.keyarg):
            return "key"
        if is_field(t, "getjob", "id"):
            return "job"
        if is_field(t, "cand", "id") or has(st, "cid") and one(st, "cid")[1][1] == t:
            return "cand"
        f = addr_field(t)
        if f is not None and f[:2] in self.copies:
            return "last"

    def call(self, A, st, c):
        if c.name in ("strlcpy", "strcpy", "strncpy", "memcpy", "llvm.memcpy.p0.p0.i64") and self.keyarg is not None and c.args[1] == ("arg", self.keyarg) and \
                addr_field(c.args[0]) is not None:
            self.copies.add(addr_field(c.args[0])[:2])
        if c.name not in COMPARES:
            return
        ks = [self.kind(st, t) for t in c.args[:2]]
        if ks == [None, None]:
            return
        self.site("ID compared", c)
        if c.name in INSENS:
            return
        if "job" in ks or None in ks:
            A.report(st, c, "an ID is compared with regard to case")
        elif "cand" in ks:
            self.site("candidate in lower case needed", c)


class Lines(IdRule):
    """the candidates of filter"""
    pure_extra = frozenset(["strspn", "strncasecmp"])
    cursors = frozenset(["low"])

    def __init__(self, prog, lower):
        IdRule.__init__(self, prog)
        self.lower = lower

    def after(self, A, st, c):
        IdRule.after(self, A, st, c)
        if c.name in ("strdup", "strndup"):
            droptag(st, "dup")
            put(st, "dup", T(c.res), T(c.args[0]), T(c.args[1]) if c.name == "strndup" else None)
        elif c.name == "tolower" and c.args[0][0] == "mem":
            setone(st, "tl", T(c.res), T(c.args[0][2]))
        elif c.name == "fgets":
            for x in ("hex", "hexn", "min", "max", "cut", "short", "long", "nohex", "pfx"):
                droptag(st, x)

    def done(self, A, st, w):
        if has(st, "id"):
            x = one(st, "low")
            if self.lower and x is not None:
                A.report(st, w, "the digits of a candidate are not known to be in lower case")
            droptag(st, "id")
            droptag(st, "low")

    def call(self, A, st, c):
        if c.name == "fgets":
            self.done(A, st, c)
        elif c.name in SENS and has(st, "low") and any(is_field(a, "cand", "id") or has(st, "id") and a == one(st, "id")[1][1] for a in c.args[:2]):
            A.report(st, c, "candidates are compared before their digits are in lower case")

    def ret(self, A, st, val, i):
        self.done(A, st, i)

    def store(self, A, st, addr, val, i):
        if isf(addr, "cand", "id"):
            if A.isnull(st, val) is True:
                return
            self.site("candidate", i)
            d = [x for x in has(st, "dup") if x[1][1] == val]
            if not d:
                A.report(st, i, "the ID of a candidate is not a copy of what was checked")
                return
            p = d[0][2][1]
            n = d[0][3]
            exact = n is not None and id_size(n[1])
            if exact and self.is_(A, st, "hexn", p):
                pass
            elif not self.is_(A, st, "cut", p) and not (exact and self.is_(A, st, "min", p)) and \
                    not (self.is_(A, st, "min", p) and self.is_(A, st, "max", p)):
                A.report(st, i, "the ID of a candidate may not have the configured length")
            if not self.is_(A, st, "hex", p) and not (self.is_(A, st, "hexn", p) and (exact or self.is_(A, st, "cut", p))):
                A.report(st, i, "the ID of a candidate may have something else than digits")
            if not self.stripped(A, st, p):
                A.report(st, i, "the ID of a candidate may have the prefix")
            setone(st, "id", T(val))
            setone(st, "low", T(val))
            return
        if val == C(0):
            for x in has(st, "min"):
                if A.same(st, addr, add(x[1][1], x[2][1])):
                    put(st, "cut", x[1])
        x, t = one(st, "low"), one(st, "tl")
        if x is not None and t is not None and A.same(st, addr, x[1][1]):
            if val == t[1][1] and A.same(st, t[2][1], addr):
                setone(st, "low", T(add(x[1][1], C(1))))
            droptag(st, "tl")

    def branch(self, A, st, i, cond):
        IdRule.branch(self, A, st, i, cond)
        x, y = one(st, "low"), one(st, "id")
        if x is None or y is None:
            return
        cur, base = x[1][1], y[1][1]
        for t in subterms(cond):
            if t[0] == "mem" and t[2] == cur and A.eval(st, rel_eq(t, C(0))) is True or \
                    (id_size(t) or t[:2] == ("pure", "strlen") and t[2][0] == base) and A.le(st, t, sub(cur, base)):
                self.site("candidate in lower case", i)
                droptag(st, "low")
                return


class Iter(FsRule):
    """the index function: what it hands out and how it looks"""

    def start(self, A):
        return frozenset()

    def call(self, A, st, c):
        if c.name in COMPARES and ("arg", 1) in c.args[:2]:
            self.site("key compared", c)
            if c.name in SENS:
                A.report(st, c, "an ID is compared with regard to case")
        elif c.name == "*" and c.fptr == ("arg", 2):
            self.site("entry handed out", c)
            if not any(x[1][1] == c.args[1] for x in has(st, "lower")):
                A.report(st, c, "the key handed out is not known to be in lower case")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        k = FORMATS.get(c.name)
        if k is not None:
            s = lit(A, st, c.args[k])
            for x in has(st, "lower"):
                if x[1][1] == c.args[0]:
                    st.auto = st.auto - {x}
            if s is not None and s.endswith("x") and "X" not in s and "s" not in s:
                put(st, "lower", T(c.args[0]))


class Digits(FsRule):
    """digits to keys"""

    def __init__(self, prog, args):
        FsRule.__init__(self, prog)
        self.args = args

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.name in ("tolower", "toupper") and c.args[0][0] == "mem":
            put(st, c.name, T(c.res), T(c.args[0]))

    def load(self, A, st, addr, val, i):
        return None

    def atoms(self, t):
        return [(a, k, c) for c, a, k in self.flat(t)]

    def flat(self, t):
        if t[0] == "ors":
            for x in t[1]:
                yield from self.flat(x)
        elif t[0] == "op" and t[1] in ("or",):
            yield from self.flat(t[2])
            yield from self.flat(t[3])
        elif t[0] == "op" and t[1] == "shl" and is_c(t[3]):
            for c, a, k in self.flat(t[2]):
                n = 1 << t[3][1]
                yield c * n, a, k * n
        else:
            c, at = _parts(t)
            for a, k in at.items():
                yield c, a, k

    def store(self, A, st, addr, val, i):
        if i.get("sty") != "i8":
            return
        for c, a, k in self.flat(val):
            low = [x for tag in ("tolower", "toupper") for x in has(st, tag) if x[1][1] == a]
            src = low[0][2][1] if low else a
            if src[0] != "mem" or not ({l for l in leaves(src[2])} & self.args or src[2] in self.args or
                                        any(l[0] == "phi" for l in leaves(src[2]))):
                continue
            self.site("digit decoded", i)
            lo, hi = A.interval(st, a)[:2]
            ok = False
            for d, h, v in ((48, 57, 48), (97, 102, 87), (65, 70, 55)):
                if d <= lo and hi <= h and c == -v * k:
                    ok = True
            if not ok:
                A.report(st, i, "a digit is turned into something else than its value")


def uses(p, k, s, f):
    """does the function touch the field?"""
    for b in p.m.raw[k]["blocks"]:
        for i in b:
            if i["op"] == "getelementptr":
                last = [x for x in i["path"] if x[0] == "f"]
                if last and last[-1][1] == s and last[-1][2] == f:
                    return True
    return False


def run(tier):
    p = Prog()
    res = Result("C20")
    pv = Prog(more=["IDX_Valid_Id"])
    ents = {p.m.raw[k]["name"]: k for k in p.entries()}
    valid = [k for k in pv.entries() if pv.m.raw[k]["name"] == "IDX_Valid_Id"]
    cbs = set(p.callbacks_of("IDX_Iter"))
    for k in valid:
        res.run(pv, k, Valid(pv))
    for k in sorted(pv.callers({"IDX_Iter", "SegJob_New"}) + [k for k in pv.entries() if pv.stores_field(k, "getjob", "id")]):
        n = pv.m.raw[k]["name"]
        if not pv.stores_field(k, "getjob", "id") and not pv.calls_in(k) & {"SegJob_New"} and \
                all(i["ops"][1] == ["c", 0] for b in pv.m.raw[k]["blocks"] for i in b if i["op"] == "call" and i.get("fn") == "IDX_Iter"):
            continue
        res.run(pv, k, Use(pv, k, n == "main_byid", n == "main_dumpindex"))
    # the functions which read lines are analysed on their own
    readers = set()
    for k in p.entries():
        if p.stores_field(k, "cand", "id"):
            for b in p.m.raw[k]["blocks"]:
                for i in b:
                    if i["op"] == "call" and i.get("fn") in ("fgets", "getline") and len(i["loc"]) > 1:
                        readers.add(i["loc"][-2][2])
    pl = Prog(more=sorted(readers))
    before = res.count("candidate in lower case needed")
    for k in sorted(pl.entries()):
        if pl.calls_in(k) & COMPARES and (k in cbs or uses(pl, k, "getjob", "id") or uses(pl, k, "cand", "id")):
            r = Cmp(pl, 1 if k in cbs else None)
            if k in cbs:
                # where it keeps copies of keys
                t = Result("C20")
                t.run(pl, k, r)
            res.run(pl, k, r)
    lower = res.count("candidate in lower case needed") > before
    for k in sorted(pl.entries()):
        if pl.stores_field(k, "cand", "id") and pl.calls_in(k) & {"fgets", "getline"}:
            res.run(pl, k, Lines(pl, lower))
    for n in ("IDX_Iter",):
        res.run(p, ents[n], Iter(p))
    for n in ("IDX_Iter", "IDX_Insert"):
        res.run(p, ents[n], Digits(p, {("arg", 1), ("arg", 5)}))
    for k, n in (("accepted", 1), ("refused", 1), ("index searched", 1), ("ID for a store job", 1), ("ID of a retrieval job", 1), ("ID compared", 1),
                 ("candidate", 1), ("key compared", 1), ("entry handed out", 1), ("digit decoded", 1)):
        res.need(k, n)
    return res
