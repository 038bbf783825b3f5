"""C21: configuration values take effect only after validation.
The constructor (the only function which reads single values of the configuration,
and the only one which sets the fields they are kept in) returns an object only if,
on that path, every field holds a value which passed its check: the prefix and the
directory were found and end in a slash, the length of IDs is a multiple of four
between 64 and 256 bits, in digits, the sizes were understood as numbers and the one
for sorting is large enough, the name of silos is compatible with %u according to
fmtcheck and has no slash; defaults built in pass the same.  It opens nothing itself.
The main function runs a command only with an object it got from there, and ends with
an error otherwise.  The only format strings which are not literals are the name of
silos, with one number, and those which are handed through."""
import re
from common import *

TITLE = "Configuration values take effect only after validation"
ASSUMES = ["fmtcheck(3) and VNUM_2bytes() check what they say", "lists (mime types, jobs, the body of warcinfo records) have no values to check"]
FIELDS = ("prefix", "id_size", "silo_dirname", "silo_maxsize", "silo_basename", "index_sort_size")
SECTION = {"prefix": "WARC-Record-ID", "silo_dirname": "silo.directory", "silo_basename": "silo.basename", "silo_maxsize": "silo.max_size", "index_sort_size": "index.sort_size"}
PRINTF = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "asprintf": 1, "VSB_printf": 1, "syslog": 1, "err": 1, "errx": 1, "warn": 0, "warnx": 0,
          "Header_Set": 2, "proto_send_msg": 1}
FILES = ("open", "openat", "mkdir", "unlink", "rename", "fopen", "link", "stat", "lstat", "access", "creat", "opendir")


def goodlit(f, s):
    """does the default pass the check?"""
    if s is None:
        return False
    if f in ("prefix", "silo_dirname"):
        return s.endswith("/")
    if f == "silo_basename":
        return "/" not in s and re.fullmatch(r"(%%|[^%])*%[-+ #0]*[0-9]*(\.[0-9]+)?u(%%|[^%])*", s) is not None
    return False


class New(FsRule):
    def branch(self, A, st, i, cond):
        for t in subterms(cond):
            if (t[:2] == ("op", "and") and t[3] == C(3) or t[:2] in (("op", "urem"), ("op", "srem")) and t[3] == C(4)) and A.eval(st, rel_eq(t, C(0))) is True:
                put(st, "mul4", T(t[2]))
            if t[0] == "mem" and t[2][0] == "lin" and t[2][1] == -1 and len(t[2][2]) == 2 and all(k == 1 for _, k in t[2][2]):
                (a, _), (b, _) = t[2][2]
                for x, y in ((a, b), (b, a)):
                    if y[:2] == ("pure", "strlen") and y[2][0] == x and A.eval(st, rel_eq(t, C(ord("/")))) is True:
                        put(st, "slash", T(x))
        for x in has(st, "get"):
            if A.eval(st, rel_eq(x[1][1], C(0))) is True:
                put(st, "got", x[2], x[3])
                st.auto = st.auto - {x}
        for x in has(st, "fc"):
            if A.same(st, x[1][1], x[2][1]):
                put(st, "fmt", x[2])
        for x in has(st, "sc"):
            if A.isnull(st, x[1][1]) is True:
                put(st, "noslash", x[2])
                st.auto = st.auto - {x}
        for x in has(st, "vn"):
            if A.isnull(st, x[1][1]) is True:
                put(st, "num", x[2], x[3])
                st.auto = st.auto - {x}
        for x in has(st, "f"):
            if x[1] == "index_sort_size" and A.le(st, C(4096), x[2][1]):
                setone(st, "big", x[2])

    def call(self, A, st, c):
        if c.name in FILES:
            A.report(st, c, "the constructor deals with files itself")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n, a = c.name, c.args
        if n == "Config_Get":
            self.site("value asked for", c)
            s = lit(A, st, a[1])
            for k in (2, 3):
                if A.isnull(st, a[k]) is True:
                    continue
                v = A.load(st, a[k])
                put(st, "get", T(c.res), T(v), s if k == 2 else s + "/arg")
                f = addr_field(a[k])
                if f is not None and f[0] == "aardwarc":
                    self.setf(st, f[1], v, None)
        elif n == "fmtcheck":
            if lit(A, st, a[1]) == "%u":
                put(st, "fc", T(c.res), T(a[0]))
        elif n in ("strchr", "strrchr", "index"):
            if a[1] == C(ord("/")):
                put(st, "sc", T(c.res), T(a[0]))
        elif n == "VNUM_2bytes":
            if A.eval(st, rel_eq(a[2], C(0))) is True:
                put(st, "vn", T(c.res), T(A.load(st, a[1])), T(a[0]))

    def setf(self, st, f, v, ok):
        for x in has(st, "f"):
            if x[1] == f:
                st.auto = st.auto - {x}
        put(st, "f", f, T(v), ok)

    def store(self, A, st, addr, val, i):
        if addr[0] == "fld" and addr[2] == "aardwarc" and addr[3] in FIELDS:
            self.site("field set", i)
            ok = None
            if addr[3] == "id_size":
                ok = is_c(val) and 16 <= val[1] <= 64
                if val[0] == "op" and (val[1], val[3]) in (("lshr", C(2)), ("ashr", C(2)), ("udiv", C(4)), ("sdiv", C(4))):
                    x = val[2]
                    ok = A.le(st, C(64), x) and A.le(st, x, C(256)) and ("mul4", T(x)) in st.auto
                    n = any(g[2] == "WARC-Record-ID/arg" for g in has(st, "got"))
                    ok = ok and n
            self.setf(st, addr[3], val, bool(ok))

    def ret(self, A, st, val, i):
        if A.isnull(st, val) is True:
            return
        self.site("object returned", i)
        fs = {x[1]: (x[2], x[3]) for x in has(st, "f")}
        for f in FIELDS:
            if f not in fs:
                A.report(st, i, "%s is not set" % f)
                continue
            v, ok = fs[f]
            if f == "id_size":
                if not ok:
                    A.report(st, i, "the length of IDs was not checked")
                continue
            src = v
            if f in ("silo_maxsize", "index_sort_size"):
                ts = set(subterms(v[1]))
                n = [x for x in has(st, "num") if x[1][1] in ts]
                if not n:
                    A.report(st, i, "%s may not be a number" % f)
                    continue
                src = n[0][2]
                if f == "index_sort_size" and ("big", v) not in st.auto:
                    A.report(st, i, "the size for sorting may be too small")
                if A.content(st, src[1]) is not None and lit(A, st, src[1]) is not None:
                    continue
            s = lit(A, st, src[1])
            if s is not None and f in SECTION and goodlit(f, s):
                continue
            if s is None and ("got", src, SECTION[f]) not in st.auto:
                A.report(st, i, "%s is not what the configuration says" % f)
            if f in ("prefix", "silo_dirname") and ("slash", src) not in st.auto:
                A.report(st, i, "whether %s ends in a slash was not checked" % f)
            if f == "silo_basename":
                if ("fmt", src) not in st.auto:
                    A.report(st, i, "the name of silos is a format string which was not checked")
                if ("noslash", src) not in st.auto:
                    A.report(st, i, "whether the name of silos has a slash was not checked")


class Main(FsRule):
    def __init__(self, prog, new):
        FsRule.__init__(self, prog)
        self.new = new

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.key == self.new:
            put(st, "new", T(c.res))

    def call(self, A, st, c):
        if c.name == "call_main":
            self.site("command run", c)
            v = c.args[1]
            if not any(x[1][1] == v for x in has(st, "new")) or A.isnull(st, v) is not False:
                A.report(st, c, "a command is run without a valid configuration")
            setone(st, "run")
        elif c.name in ("exit", "_exit"):
            if not has(st, "run") and A.eval(st, rel_eq(c.args[0], C(0))) is not False:
                A.report(st, c, "success is reported without a command run")

    def ret(self, A, st, val, i):
        if not has(st, "run") and A.eval(st, rel_eq(val, C(0))) is not False:
            A.report(st, i, "success is reported without a command run")


class Fmt(FsRule):
    def call(self, A, st, c):
        k = PRINTF.get(c.name)
        if k is not None and c.args[k][0] not in ("s", "c"):
            self.site("computed format", c)
            if not is_field(c.args[k], "aardwarc", "silo_basename"):
                A.report(st, c, "a format string comes from elsewhere")
            elif len(c.args) != k + 2:
                A.report(st, c, "not exactly one number is given to the format of the name of silos")


def run(tier):
    p = Prog()
    res = Result("C21")
    new = sorted(set(p.callers(["Config_Get"])))
    if new != sorted(set(p.callers(["Config_Read"]))) or len(new) != 1:
        res.add("new", "aardwarc.c", "single values of the configuration are used elsewhere than in the constructor: %s" % new)
        return res
    res.run(p, new[0], New(p))
    for k in sorted(p.entries()):
        if k == new[0]:
            continue
        for f in FIELDS:
            if p.stores_field(k, "aardwarc", f):
                res.add("set:%s:%s" % (k, f), k, "%s is changed outside of the constructor" % f, function=k)
    mains = sorted(k for k in p.callers(["call_main"]) if k in p.callers([p.m.raw[new[0]]["name"]]))
    for k in mains:
        res.run(p, k, Main(p, new[0]))
    n = 0
    todo = set()
    for k in sorted(p.entries()):
        for b in p.m.raw[k]["blocks"]:
            for i in b:
                if i["op"] == "call" and i.get("fn") in PRINTF:
                    n += 1
                    j = PRINTF[i["fn"]]
                    if j < len(i["ops"]) and i["ops"][j][0] not in ("s", "c"):
                        todo.add(k)
    for k in sorted(todo):
        res.run(p, k, Fmt(p))
    if n < 50:
        raise AnalysisError("C21: only %d format strings found" % n)
    for k, n in (("value asked for", 5), ("field set", 5), ("object returned", 1), ("command run", 1), ("computed format", 1)):
        res.need(k, n)
    return res
