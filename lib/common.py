"""Shared pieces of the rules: file-name classes, descriptor tracking, program
facts (callback parameters, origin of struct fields), result collection."""
import engine
import api
from build import AnalysisError
from engine import (memkey, Analysis, Rule, T, C, is_c, add, sub, mulc, ptr_base, prefixes, root, show, leaves,
                    rel_eq, neg, rel_le0)


# ------------------------------------------------------------ automaton ----
# The automaton state of every rule is a frozenset of tuples ("tag", ...).

def has(st, tag):
    return [x for x in st.auto if x[0] == tag]


def one(st, tag):
    for x in st.auto:
        if x[0] == tag:
            return x
    return None


def put(st, *item):
    st.auto = st.auto | {tuple(item)}


def drop(st, item):
    st.auto = st.auto - {item}


def droptag(st, tag):
    st.auto = frozenset(x for x in st.auto if x[0] != tag)


def setone(st, *item):
    st.auto = frozenset(x for x in st.auto if x[0] != item[0]) | {tuple(item)}


def fork(st, n=2):
    return [st] + [st.copy() for _ in range(n - 1)]


# ------------------------------------------------------------- matching ----

def field_of(t):
    """(struct, field, base) if t is the value of a struct field in memory"""
    if t is not None and t[0] == "mem" and t[2][0] == "fld":
        return t[2][2], t[2][3], t[2][1]
    if t is not None and t[0] == "old" and t[1] == "mem" and t[3][0] == "F":
        return t[3][1], t[3][2], None
    return None


def is_field(t, s, f):
    x = field_of(t)
    return x is not None and x[0] == s and x[1] == f


def addr_field(t):
    if t[0] == "fld":
        return t[2], t[3], t[1]
    return None


def strip_cast(t):
    return t


def call_of(st, t):
    """(name, args) of the call that produced t"""
    if t is not None and t[0] == "call":
        return st.calls.get(t[1])
    return None


# ------------------------------------------------------- file-name class ----

O_ACCMODE, O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 3, 1, 2, 0o100, 0o200, 0o1000, 0o2000


class Prog:
    def __init__(self, look=(), more=()):
        self.m = engine.module(sorted(set(api.opaque(look)) | set(more)))
        self._origin = {}
        self._cbs = None
        self._roots = None
        self.analysed = {}

    # -- functions worth analysing on their own
    def entries(self):
        """functions which are not fully inlined into their callers"""
        if self._roots is None:
            called = set()
            taken = set()
            for k, f in self.m.raw.items():
                if f["decl"]:
                    continue
                if f.get("addrtaken"):
                    taken.add(k)
                for b in f["blocks"]:
                    for i in b:
                        if i["op"] == "call" and i.get("callee") and i["callee"] != k:
                            called.add(i["callee"])
            self._roots = [k for k, f in self.m.raw.items()
                           if not f["decl"] and not f.get("sys") and
                           (not f["internal"] or k in taken or k in called or self.selfrec(k))]
        return self._roots

    def selfrec(self, k):
        for b in self.m.raw[k]["blocks"]:
            for i in b:
                if i["op"] == "call" and i.get("callee") == k:
                    return True
        return False

    def calls_in(self, k):
        out = set()
        for b in self.m.raw[k]["blocks"]:
            for i in b:
                if i["op"] == "call":
                    out.add(i.get("fn") or "*")
        return out

    def callers(self, names):
        names = set(names)
        return [k for k in self.entries() if self.calls_in(k) & names]

    # -- callbacks: function constants handed to iterators
    def callbacks(self):
        """{function key: set of (iterator name, argument index)}"""
        if self._cbs is None:
            cbs = {}
            for k, f in self.m.raw.items():
                if f["decl"]:
                    continue
                for b in f["blocks"]:
                    for i in b:
                        if i["op"] == "call":
                            for n, o in enumerate(i["ops"]):
                                if o[0] == "f":
                                    cbs.setdefault(o[1], set()).add((i.get("fn", "*"), n))
            self._cbs = cbs
        return self._cbs

    def callbacks_of(self, *names):
        return sorted(k for k, v in self.callbacks().items()
                      if any(n in names for n, _ in v) and not self.m.raw[k]["decl"])

    def cbname(self, k):
        return self.m.raw[k]["name"]

    # -- where the values of a struct field come from
    def origin(self, sname, fname):
        """set of descriptors of everything stored to the field, program wide"""
        key = (sname, fname)
        if key in self._origin:
            return self._origin[key]
        self._origin[key] = frozenset([("busy",)])
        res = set()

        class R(FsRule):
            def store(r, A, st, addr, val, i):
                if addr[0] == "fld" and addr[2] == sname and addr[3] == fname:
                    if is_c(val):
                        res.add(("const", val[1]))
                        return None
                    fd = r.fdinfo(st, val)
                    if fd is not None:
                        res.add(("fd", fd[0], fd[1]))
                        return None
                    cls = r.pathclass(A, st, val)
                    if cls[0] == "UNKNOWN":
                        cls = r.pathclass(A, st, ("pure", "VSB_data", (val,), ()))
                    res.add(("path",) + cls[:1])
                return None
        for k in self.entries():
            if self.stores_field(k, sname, fname):
                A = Analysis(self.m, self.m.fn(k), R(self))
                A.run()
        self._origin[key] = frozenset(res)
        return self._origin[key]

    def origin_calls(self, sname, fname):
        """names of the functions whose results are stored to the field, program wide ('?' for anything else;
        parameters of a function are followed to its callers when it is called directly)"""
        key = ("calls", sname, fname)
        if key in self._origin:
            return self._origin[key]
        res = set()

        class R(FsRule):
            def store(r, A, st, addr, val, i):
                if addr[0] == "fld" and addr[2] == sname and addr[3] == fname:
                    c = call_of(st, val)
                    if c is not None:
                        res.add(c[0])
                    elif val[0] == "pure":
                        res.add(val[1])
                    else:
                        res.add("?" + show(val, st))
                return None
        for k in self.entries():
            if self.stores_field(k, sname, fname):
                Analysis(self.m, self.m.fn(k), R(self)).run()
        self._origin[key] = frozenset(res)
        return self._origin[key]

    def stores_field(self, k, sname, fname):
        f = self.m.raw[k]
        ids = set()
        for b in f["blocks"]:
            for i in b:
                if i["op"] == "getelementptr":
                    last = [p for p in i["path"] if p[0] == "f"]
                    if last and last[-1][1] == sname and last[-1][2] == fname:
                        ids.add(i["id"])
                elif i["op"] == "store":
                    p = i["ops"][1]
                    if p[0] == "v" and p[1] in ids:
                        return True
        return False


SUFFIX_HELP = "/index"


class FsRule(Rule):
    """Base rule: tracks open descriptors/streams with the class of their file."""
    weak = frozenset(["fd"])

    def __init__(self, prog):
        self.p = prog
        self.sites = {}

    def start(self, A):
        return frozenset()

    def site(self, kind, where):
        self.sites.setdefault(kind, set()).add(engine.Module.fmtloc(where.instr if hasattr(where, "instr") else where))

    # -- classes of file names
    def pathclass(self, A, st, t):
        """('SILO'|'HOLD', number) | ('INDEX', suffix) | ('CACHE',) | ('SIDE',) | ('USER',) | ('CONST', s) |
        ('PARAM', n) | ('UNKNOWN', description)"""
        parts = A.content(st, t)
        return self.partsclass(A, st, parts)

    def partsclass(self, A, st, parts):
        if not parts:
            return ("UNKNOWN", "empty")
        h = parts[0]
        if h[0] == "silo":
            if len(parts) == 1:
                if is_c(h[2]):
                    return ("HOLD" if h[2][1] else "SILO", h[1])
                v = A.eval(st, rel_eq(h[2], C(0)))
                if v is None:
                    return ("UNKNOWN", "silo or hold")
                return ("SILO" if v else "HOLD", h[1])
            if self.nonempty_tail(parts[1:]):
                return ("SIDE",)
            return ("UNKNOWN", "silo name + ?")
        if h[0] == "s" and len(parts) == 1:
            return ("CONST", h[1])
        if h[0] == "t" and is_field(h[1], "aardwarc", "silo_dirname"):
            if len(parts) >= 2 and parts[1][0] == "s":
                tail = parts[1][1]
                if tail.startswith("/index."):
                    suf = tail[len("/index."):]
                    if len(parts) == 2:
                        return ("INDEX", suf)
                    if suf:
                        return ("INDEX", suf + "*")
                if tail.endswith(".cache") and len(parts) == 2:
                    return ("CACHE",)
                if len(parts) == 2:
                    return ("SILODIR", tail)
            return ("UNKNOWN", "file in the silo directory")
        if h[0] == "vsb":
            f = field_of(h[1])
            if f is not None:
                cls = self.fieldclass(f)
                if cls is not None:
                    if len(parts) > 1:
                        return ("SIDE",) if self.nonempty_tail(parts[1:]) and cls in ("SILO",) else ("UNKNOWN", "field")
                    return (cls, ("fieldno", f[0], f[2]))
        if h[0] == "t":
            f = field_of(h[1])
            if f is not None and len(parts) == 1:
                cls = self.fieldclass(f)
                if cls is not None:
                    return (cls, ("fieldno", f[0], f[2]))
            if h[1][0] == "arg":
                n = h[1][1]
                cls = self.paramclass(A.fn.key, n)
                if cls is not None:
                    if len(parts) == 1:
                        return (cls, ("arg", n + 1))
                    return ("SIDE",) if self.nonempty_tail(parts[1:]) else ("UNKNOWN", "")
                if len(parts) == 1:
                    return ("PARAM", n)
            if self.userterm(A, h[1]) and len(parts) == 1:
                return ("USER",)
            if self.userterm(A, h[1]):
                return ("SIDE",) if self.nonempty_tail(parts[1:]) else ("USER",)
        return ("UNKNOWN", "; ".join(self.showpart(p, st) for p in parts))

    def showpart(self, p, st):
        if p[0] == "s":
            return repr(p[1])
        return "%s(%s)" % (p[0], ", ".join(show(x, st) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in p[1:]))

    def nonempty_tail(self, parts):
        """does something that is certainly not empty follow?"""
        return any(p[0] == "s" and p[1] for p in parts)

    def userterm(self, A, t):
        """argv elements and option arguments"""
        if t[0] == "mem":
            a = t[2]
            if a == ("g", "optarg"):
                return True
            r = root(a)
            if r is not None and r[0] == "arg" and A.fn.raw_arg_is_argv(r[1]):
                return True
            for l in leaves(a):
                if l[0] == "arg" and A.fn.raw_arg_is_argv(l[1]):
                    return True
                if l[0] in ("phi", "w", "old") and A.fn.has_argv():
                    return True
        if t[0] in ("phi", "w", "old") and A.fn.has_argv():
            return True
        return False

    def fieldclass(self, f):
        o = {x for x in self.p.origin(f[0], f[1]) if x[0] != "const"}
        cls = {x[1] for x in o if x[0] == "path"}
        if len(o) == len(cls) and len(cls) == 1:
            c = cls.pop()
            if c in ("SILO", "HOLD", "SIDE", "CACHE"):
                return c
        return None

    def paramclass(self, key, n):
        cbs = self.p.callbacks().get(key, ())
        if any(nm == "Silo_Iter" for nm, _ in cbs) and n == 1:
            return "SILO"
        return None

    # -- descriptors
    def fdinfo(self, st, t):
        """(path class, mode) of an open descriptor/stream value"""
        for x in st.auto:
            if x[0] == "fd" and x[1][1] == t:
                return x[2], x[3]
        f = field_of(t)
        if f is not None:
            o = [x for x in self.p.origin(f[0], f[1]) if x[0] == "fd"]
            if o:
                return o[0][1], o[0][2]
        return None

    OPENS = {"open": (0, 1), "openat": (1, 2), "creat": (0, None), "fopen": (0, 1), "freopen": (0, 1)}

    def openmode(self, A, st, c):
        """(access, flags) : access in r,w,rw,a"""
        name = c.name
        if name in ("fopen", "freopen"):
            m = A.content(st, c.args[1])
            m = m[0][1] if len(m) == 1 and m[0][0] == "s" else "w+?"
            fl = 0
            if m[0] == "r":
                fl = O_RDWR if "+" in m else 0
            elif m[0] == "w":
                fl = (O_RDWR if "+" in m else O_WRONLY) | O_CREAT | O_TRUNC
            else:
                fl = (O_RDWR if "+" in m else O_WRONLY) | O_CREAT | O_APPEND
            if "x" in m:
                fl |= O_EXCL
            return fl
        if name == "creat":
            return O_WRONLY | O_CREAT | O_TRUNC
        a = c.args[self.OPENS[name][1]]
        return a[1] if is_c(a) else None

    def after(self, A, st, c):
        if c.name in self.OPENS:
            cls = self.pathclass(A, st, c.args[self.OPENS[c.name][0]])
            fl = self.openmode(A, st, c)
            put(st, "fd", T(c.res), hide(cls), fl)
        elif c.name == "fdopen":
            f = self.fdinfo(st, c.args[0])
            if f is not None:
                put(st, "fd", T(c.res), f[0], f[1])
        else:
            self.closed(st, c)
        return None

    def closed(self, st, c):
        """forget a descriptor or stream that has been closed"""
        if c.name in ("close", "fclose"):
            for x in has(st, "fd"):
                if x[1][1] == c.args[0]:
                    drop(st, x)


def hide(cls):
    """wrap terms of a class so that they are tracked inside automaton states"""
    return tuple(T(x) if isinstance(x, tuple) and x and x[0] in TERMK else x for x in cls)


TERMK = {"c", "s", "g", "f", "arg", "call", "phi", "w", "alloca", "mem", "pure", "lin", "fld", "op", "old", "undef", "rel"}


def unhide(x):
    return x[1] if isinstance(x, tuple) and x and x[0] == "T!" else x


def _raw_arg_is_argv(self, n):
    # main_f: (a0, aa, argc, argv)
    nm = self.params[n] if n < len(self.params) else ""
    return self.nargs >= 2 and n == self.nargs - 1 and (self.name.startswith("main") or nm == "argv")


def _has_argv(self):
    return self.name.startswith("main") or "argv" in self.params


engine.Fn.raw_arg_is_argv = _raw_arg_is_argv
engine.Fn.has_argv = _has_argv


def reqlen(A, st, c):
    """(length term, parts) a write-like call was asked to transfer"""
    if c.name in ("write", "pwrite"):
        return c.args[2], [(c.args[1], c.args[2])]
    if c.name in ("writev", "pwritev"):
        if not is_c(c.args[2]):
            return None, []
        tot = C(0)
        parts = []
        for k in range(c.args[2][1]):
            e = add(c.args[1], C(16 * k))
            l = A.load(st, ("fld", e, "iovec", "iov_len"))
            b = A.load(st, ("fld", e, "iovec", "iov_base"))
            tot = add(tot, l)
            parts.append((b, l))
        return tot, parts
    if c.name == "fwrite":
        return c.args[2], [(c.args[0], c.args[2])]
    return None, []


# ----------------------------------------------------------------- lists ----

HEAD = ("s", "list head")


def hdrid(t):
    """header whose ID the term is"""
    if t is not None and t[0] == "pure" and t[1] == "Header_Get_Id":
        return t[2][0]
    return None


class Walk:
    """goes along a list: which element is the next one to be dealt with"""
    def __init__(self, tag, struct, head, elem, link):
        self.tag, self.struct, self.head, self.elem, self.link = tag, struct, head, elem, link

    def headaddr(self, job):
        return ("fld", ("fld", job, self.struct, self.head), "anon", "#0")

    def nextaddr(self, node):
        return ("fld", ("fld", node, self.elem, self.link), "anon", "#0")

    def start(self, st, job):
        droptag(st, self.tag)
        put(st, self.tag, T(HEAD), T(job))

    def cur(self, A, st):
        x = one(st, self.tag)
        if x is None:
            return None
        if x[1][1] == HEAD:
            return A.load(st, self.headaddr(x[2][1]))
        return x[1][1]

    def at(self, A, st, node):
        c = self.cur(A, st)
        return c is not None and A.same(st, c, node)

    def step(self, A, st, node):
        """the element has been dealt with"""
        x = one(st, self.tag)
        if x is None:
            return
        n = A.load(st, self.nextaddr(node))
        drop(st, x)
        put(st, self.tag, T(HEAD if n == A.load(st, self.headaddr(x[2][1])) else n), x[2])

    def atend(self, A, st):
        c = self.cur(A, st)
        return c is not None and A.isnull(st, c)


def lit(A, st, t):
    """the literal string t points to, if known"""
    x = A.content(st, t)
    if x is not None and len(x) == 1 and x[0][0] == "s":
        return x[0][1]
    return None


def cond_about(cond):
    """the term a branch condition compares with a constant"""
    while cond[0] == "not":
        cond = cond[1]
    return cond[2] if cond[0] == "rel" and isinstance(cond[2], tuple) else None


def chain(t):
    """(address of the head or the address of the node, ...) helper: strip list links to the owner of the link"""
    while t is not None and t[0] == "fld":
        t = ptr_base(t[1])[0] if t[1][0] != "fld" else t[1]
    return t


def subterms(t):
    """the term and every term in it"""
    out = []
    todo = [t]
    while todo:
        x = todo.pop()
        if x and isinstance(x[0], str) and x[0] in TERMK:
            out.append(x)
        todo += [y for y in x if isinstance(y, tuple) and y]
    return out


FLAGBITS = 126


def submasks(m):
    v = m
    while True:
        yield v
        if not v:
            return
        v = (v - 1) & m


def flagtest(A, st, cond):
    """(term of the flags, set of the values the flags of an index entry may have) after a branch on some of their bits"""
    x = cond_about(cond)
    if x is None:
        return None
    for t in subterms(x):
        if t[0] == "op" and t[1] == "and" and len(t) == 4:
            k = [a[1] for a in t[2:] if is_c(a)]
            o = [a for a in t[2:] if not is_c(a)]
            if len(k) == 1 and len(o) == 1 and k[0] >= 0 and bin(k[0]).count("1") <= 8:
                ok = {v for v in submasks(k[0]) if A.eval(st, rel_eq(t, C(v))) is not False}
                return o[0], frozenset(v for v in submasks(FLAGBITS) if any((v & k[0]) == (w & FLAGBITS) for w in ok))
    return None


def learnflags(A, st, tag, cond, want):
    """narrow the set of values in the tag when the branch is about flags want(term) accepts"""
    x = flagtest(A, st, cond)
    if x is None or not want(x[0]):
        return
    o = one(st, tag)
    setone(st, tag, x[1] if o is None else o[1] & x[1])


def flagvals(st, tag):
    o = one(st, tag)
    return frozenset(submasks(FLAGBITS)) if o is None else o[1]


# --------------------------------------------------------------- results ----

class Result:
    def __init__(self, prop):
        self.prop = prop
        self.violations = {}
        self.functions = set()
        self.sites = {}
        self.states = 0
        self.joins = 0
        self.notes = []
        self.obligations = 0

    def add(self, key, loc, msg, function=None, path=()):
        self.violations.setdefault(key, dict(key=key, loc=loc, msg=msg, function=function, path=list(path)))

    def merge(self, r):
        for k, v in r.violations.items():
            self.violations.setdefault(k, v)
        self.functions |= r.functions
        for k, v in r.sites.items():
            self.sites.setdefault(k, set()).update(v)
        self.states += r.states
        self.joins += r.joins
        self.obligations += r.obligations
        self.notes += r.notes

    def count(self, kind):
        return len(self.sites.get(kind, ()))

    def site(self, kind, loc):
        self.sites.setdefault(kind, set()).add(loc)

    def need(self, kind, n):
        """instance floor: fewer than n sites means the rule no longer sees the code"""
        if self.count(kind) < n and not self.violations:
            raise AnalysisError("%s: only %d instances of '%s' found, at least %d expected" %
                                (self.prop, self.count(kind), kind, n))

    def run(self, prog, fnkey, rule, **kw):
        f = prog.m.fn(fnkey) if isinstance(fnkey, str) else fnkey
        if f is None:
            raise AnalysisError("no body for " + str(fnkey))
        A = Analysis(prog.m, f, rule, **kw)
        try:
            A.run()
        except Exception:
            # what was found up to here stands; without a finding there is no answer
            if not A.reports:
                raise
        self.functions.add(f.name)
        self.states += A.steps
        self.joins += A.joins
        for k, r in A.reports.items():
            self.add(r.get("key") or "%s:%s" % (f.name, r["msg"]), r["loc"], r["msg"], f.name, r["path"])
        for k, v in getattr(rule, "sites", {}).items():
            self.sites.setdefault(k, set()).update(v)
        return A


def parallel(jobs, fn, nproc=8):
    """run fn(job) for each job in forked workers, results in order"""
    import multiprocessing as mp
    if len(jobs) <= 1:
        return [fn(j) for j in jobs]
    global _PFN
    _PFN = fn
    ctx = mp.get_context("fork")
    with ctx.Pool(min(nproc, len(jobs))) as p:
        rs = p.map(_pcall, jobs, chunksize=1)
    bad = [r[1] for r in rs if type(r) is tuple and r[:1] == ("EXC",)]
    rs = [r for r in rs if not (type(r) is tuple and r[:1] == ("EXC",))]
    if bad and not any(getattr(r, "violations", None) for r in rs):
        raise AnalysisError(bad[0])
    return rs


def _pcall(j):
    try:
        return _PFN(j)
    except AnalysisError as e:
        return ("EXC", str(e))
    except Exception:
        import traceback
        return ("EXC", traceback.format_exc())
