"""Path-sensitive typestate dataflow over the IR dump (see DESIGN.md).

Abstract state = rule automaton state + symbolic values (value numbering) of
the live SSA values and memory locations + interval facts on linear terms
learned from branch conditions.  Fixpoint over the CFG; loop-carried values are
made opaque at loop headers, so the state space is finite.  No solver.
"""
import functools
import re
import sys
from build import AnalysisError, view as build_view

sys.setrecursionlimit(20000)

INF = 1 << 70


# ---------------------------------------------------------------- terms ----

def C(n):
    return ("c", n)


def is_c(t):
    return t[0] == "c"


def _parts(t):
    """term -> (const, {atom: coef})"""
    if t[0] == "c":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def _mk(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("c", c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def add(a, b, k=1):
    ca, da = _parts(a)
    cb, db = _parts(b)
    d = dict(da)
    for t, v in db.items():
        d[t] = d.get(t, 0) + k * v
    return _mk(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = _parts(a)
    return _mk(c * k, {t: v * k for t, v in d.items()})


def is_bool(t):
    return t[0] in ("rel", "not", "and", "or", "xor")


def neg(b):
    if b[0] == "not":
        return b[1]
    if b[0] == "c":
        return C(0 if b[1] else 1)
    return ("not", b)


def rel_eq(a, b):
    if is_bool(a) and is_c(b):
        return neg(a) if b[1] == 0 else a
    if is_bool(b) and is_c(a):
        return neg(b) if a[1] == 0 else b
    d = sub(a, b)
    if is_c(d):
        return C(1 if d[1] == 0 else 0)
    # canonical sign
    c, m = _parts(d)
    first = sorted(m.items(), key=lambda kv: repr(kv[0]))[0]
    if first[1] < 0:
        d = mulc(d, -1)
    return ("rel", "eq", d)


def rel_le0(d, uns=False):
    if is_c(d):
        return C(1 if d[1] <= 0 else 0)
    return ("rel", "ule" if uns else "le", d)


def cmp_term(pred, a, b):
    if pred == "eq":
        return rel_eq(a, b)
    if pred == "ne":
        return neg(rel_eq(a, b))
    uns = pred[0] == "u"
    p = pred[1:]
    if p == "lt":
        return rel_le0(add(sub(a, b), C(1)), uns)
    if p == "le":
        return rel_le0(sub(a, b), uns)
    if p == "gt":
        return rel_le0(add(sub(b, a), C(1)), uns)
    if p == "ge":
        return rel_le0(sub(b, a), uns)
    return ("op", "icmp", pred, a, b)


FMT = re.compile(r"%[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?(?:hh|h|ll|l|j|z|t|L|q)?[a-zA-Z%]")

LEAF = ("call", "phi", "w", "alloca", "arg", "mem", "pure", "old", "undef", "out")


@functools.lru_cache(maxsize=500000)
def leaves(t):
    """Opaque leaves of a term (recursively, including those in addresses)."""
    k = t[0]
    if k in ("c", "s", "g", "f", "fp"):
        return frozenset()
    if k in ("call", "phi", "w", "alloca", "arg", "old", "undef"):
        return frozenset((t,))
    out = set()
    if k in ("mem", "pure"):
        out.add(t)
    for x in t[1:]:
        if isinstance(x, tuple):
            _leaves_in(x, out)
    return frozenset(out)


def _leaves_in(x, out):
    if x and isinstance(x[0], str):
        out |= leaves(x)
    else:
        for y in x:
            if isinstance(y, tuple):
                _leaves_in(y, out)


_mention_cache = {}


def mentions(t, iid):
    """does any leaf / generation inside t refer to instruction iid?"""
    key = (t, iid)
    r = _mention_cache.get(key)
    if r is None:
        r = _mention(t, iid)
        if len(_mention_cache) > 2000000:
            _mention_cache.clear()
        _mention_cache[key] = r
    return r


def _mention(t, iid):
    k = t[0]
    if k in ("c", "s", "g", "f", "alloca", "arg", "old", "fp", "undef"):
        return False
    if k in ("call", "phi", "errno"):
        return t[1] == iid
    if k == "mem":
        return iid in t[1] or mentions(t[2], iid)
    if k == "pure":
        return iid in t[3] or any(mentions(x, iid) for x in t[2])
    if k == "w":
        return False
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                if mentions(x, iid):
                    return True
            else:
                for y in x:
                    if isinstance(y, tuple):
                        if y and isinstance(y[0], str):
                            if mentions(y, iid):
                                return True
                        elif y and isinstance(y[0], tuple) and mentions(y[0], iid):
                            return True
    return False


def rename_old(t, iid):
    """Replace leaves produced by the previous execution of iid."""
    if not mentions(t, iid):
        return t
    k = t[0]
    if k in ("call", "phi", "errno"):
        return ("old", k, iid)
    if k == "mem":
        return ("old", "mem", iid, memkey(t[2]))
    if k == "pure":
        return ("old", "pure", iid, t[1])
    if k == "lin":
        r = C(t[1])
        for a, c in t[2]:
            r = add(r, rename_old(a, iid), c)
        return r
    return tuple(rename_old(x, iid) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)


@functools.lru_cache(maxsize=500000)
def refs(t):
    """instructions a term refers to"""
    k = t[0]
    out = set()
    if k in ("call", "phi", "errno"):
        return frozenset((t[1],))
    if k in ("c", "s", "g", "f", "alloca", "arg", "old", "undef", "w"):
        return frozenset()
    if k == "mem":
        return frozenset(x for x in t[1] if isinstance(x, int)) | refs(t[2])
    if k == "pure":
        out |= {x for x in t[3] if isinstance(x, int)}
        for x in t[2]:
            out |= refs(x)
        return frozenset(out)
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                out |= refs(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        if isinstance(y[0], str):
                            out |= refs(y)
                        elif isinstance(y[0], tuple):
                            out |= refs(y[0])
    return frozenset(out)


@functools.lru_cache(maxsize=100000)
def _zkey(k):
    return ("z", repr(k))


@functools.lru_cache(maxsize=500000)
def gensof(t):
    """memory generations a term refers to"""
    out = set()
    for l in leaves(t):
        if l[0] == "mem":
            out.update(l[1])
            out |= gensof(l[2])
        elif l[0] == "pure":
            out.update(l[3])
            for x in l[2]:
                out |= gensof(x)
    return frozenset(out)


def undefd(t):
    return any(l[0] == "undef" for l in leaves(t))


def part_terms(p):
    for x in p[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield x
            else:
                yield from (y for y in x if isinstance(y, tuple) and y)


def widen_parts(v):
    """string content with the parts from earlier rounds made unknown"""
    out = []
    for q in v:
        if any(has_old(x) for x in part_terms(q)):
            q = ("*",)
            if out and out[-1] == q:
                continue
        out.append(q)
    return tuple(out)


def common_parts(a, b):
    """what two string contents have in common at their start, then anything"""
    out = []
    for p, q in zip(a, b):
        if p == q:
            out.append(p)
            continue
        if p[0] == "s" and q[0] == "s":
            n = 0
            while n < min(len(p[1]), len(q[1])) and p[1][n] == q[1][n]:
                n += 1
            if n:
                out.append(("s", p[1][:n]))
        break
    if not out or out[-1] != ("*",):
        out.append(("*",))
    return tuple(out)


def part_mentions(p, iid):
    return any(mentions(x, iid) for x in part_terms(p))


def rename_part(p, iid):
    if not part_mentions(p, iid):
        return p
    out = [p[0]]
    for x in p[1:]:
        if isinstance(x, tuple) and x:
            out.append(rename_old(x, iid) if isinstance(x[0], str) else tuple(rename_old(y, iid) for y in x))
        else:
            out.append(x)
    return tuple(out)


def subst(t, f):
    """Rebuild a term with f applied to each atom (f returns None to keep)."""
    r = f(t)
    if r is not None:
        return r
    if t[0] == "lin":
        out = C(t[1])
        for a, c in t[2]:
            out = add(out, subst(a, f), c)
        return out
    if t[0] in ("c", "s", "g", "f", "alloca", "arg", "call", "phi", "w", "old", "undef", "fp"):
        return t
    return tuple(subst(x, f) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)


def has_old(t):
    if t[0] == "old":
        return True
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                if has_old(x):
                    return True
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        if isinstance(y[0], str):
                            if has_old(y):
                                return True
                        elif isinstance(y[0], tuple) and has_old(y[0]):
                            return True
    return False


def repeats(t, seen=frozenset()):
    """does the access path go through the same struct field twice (walking a list)?"""
    if t[0] == "fld" and t[2] != "anon":
        k = t[2:4]
        if k in seen:
            return True
        seen = seen | {k}
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("fld", "mem", "lin"):
            if repeats(x, seen):
                return True
        elif isinstance(x, tuple) and t[0] == "lin":
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], tuple) and repeats(y[0], seen):
                    return True
    return False


def tsize(t):
    n = 1
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                n += tsize(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        n += tsize(y) if isinstance(y[0], str) else (tsize(y[0]) if isinstance(y[0], tuple) else 1)
    return n


# ------------------------------------------------------------ addresses ----

def ptr_base(t):
    """split an address term into (pointer atom, const offset, other offset terms)"""
    if t[0] == "lin":
        cand = None
        rest = {}
        for a, c in t[2]:
            if cand is None and c == 1 and a[0] in ("alloca", "g", "fld", "s"):
                cand = a
            else:
                rest[a] = c
        if cand is None:
            for a, c in t[2]:
                if c == 1 and a in rest:
                    cand = a
                    del rest[a]
                    break
        return cand, t[1], rest
    return t, 0, {}


def prefixes(addr):
    """address, and every object it lies in, outermost last"""
    out = []
    t = addr
    while True:
        b, off, rest = ptr_base(t)
        if b is None:
            return out
        out.append(b)
        if b[0] == "fld":
            t = b[1]
        else:
            return out


def root(addr):
    p = prefixes(addr)
    return p[-1] if p else None


def memkey(addr):
    b, off, rest = ptr_base(addr)
    if b is None:
        return ("P",)
    if b[0] == "fld":
        if b[2] == "anon":
            # a member of an unnamed struct: named after the field the struct is
            q = ptr_base(b[1])[0]
            if q is not None and q[0] == "fld":
                return ("F", q[2] + "." + q[3], b[3])
        return ("F", b[2], b[3])
    if b[0] == "alloca":
        return ("A", b[1])
    if b[0] == "g":
        return ("G", b[1])
    return ("P",)


def overlapping(k, l):
    """may places of these classes be the same?"""
    if k == l:
        return True
    return k[0] == l[0] == "F" and k[2] == l[2] and ("anon" in (k[1], l[1])) and ("." in k[1] or "." in l[1])


def wider(k):
    """the class under which a reader who does not know the surrounding field sees a place"""
    return ("F", "anon*", k[2]) if k[0] == "F" and "." in k[1] else None


FRESH = {"malloc", "calloc", "VSB_new_auto", "VSB_new", "strdup", "Header_New", "Header_Clone", "Silo_Filename",
         "realloc", "Header_Serialize"}

# Functions whose result is determined by their arguments and the memory they point to.
PURE = {"VSB_len", "VSB_data", "strlen", "Header_Get", "Header_Get_Id", "Header_Get_Number", "getpagesize",
        "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "be32dec", "be64dec", "le32dec", "le64dec",
        "IDX_Valid_Id", "strspn", "strcspn", "GetJob_Header", "Rsilo_BodyLen", "__errno_location", "strchr", "strrchr",
        "strstr", "be16dec", "le16dec", "Header_Len", "GetJob_IsSegmented"}

# out-parameters of library functions; absent = every pointer argument may be written through
OUT = {
    "read": [1], "pread": [1], "write": [], "writev": [], "pwrite": [], "open": [], "close": [], "unlink": [],
    "link": [], "rename": [], "lseek": [], "stat": [1], "fstat": [1], "lstat": [1], "mkdir": [], "mmap": [],
    "munmap": [], "fopen": [], "fclose": [0], "fflush": [], "fread": [0], "fwrite": [], "fgets": [0], "fseeko": [],
    "fseek": [], "ftello": [], "printf": [], "fprintf": [], "puts": [], "fputc": [], "putc": [], "fputs": [],
    "putchar": [], "setbuf": [], "strerror": [], "exit": [], "strdup": [], "free": [], "malloc": [], "calloc": [],
    "realloc": [], "memset": [0], "memcpy": [0], "memmove": [0], "strcpy": [0], "strcat": [0], "strlcpy": [0],
    "strlcat": [0], "snprintf": [0], "sprintf": [0], "vsnprintf": [0], "vasprintf": [0], "strtoul": [1], "strtol": [1],
    "getenv": [], "getopt": [], "fork": [], "pipe": [0], "dup2": [], "wait4": [1], "execlp": [], "closefrom": [],
    "time": [0], "gmtime_r": [1], "strftime": [0], "strsep": [0], "qsort": [0], "strnunvis": [0], "poll": [0],
    "SHA256_Init": [0], "SHA256_Update": [0], "SHA256_End": [0, 1], "SHA256_Data": [2], "SHA256_Final": [0, 1],
    "fmtcheck": [], "access": [], "fileno": [], "openat": [], "tmpfile": [], "fgetc": [], "getpid": [], "isatty": [],
    "fstatat": [1], "memchr": [], "strtoull": [1], "isgraph": [], "isspace": [], "toupper": [], "tolower": [],
    "__ctype_b_loc": [], "crc32": [], "crc32_combine": [], "be32enc": [0], "be64enc": [0], "le32enc": [0],
    "le64enc": [0], "be16enc": [0], "le16enc": [0], "VAS_Fail": [], "ferror": [], "feof": [], "fdopen": [], "ftruncate": [],
    "truncate": [], "fsync": [], "memcmp": [], "VNUM_2bytes": [1], "usage": [], "llvm.stacksave.p0": [], "llvm.stacksave": [],
    "llvm.stackrestore.p0": [], "llvm.stackrestore": [], "fileno_unlocked": [], "abort": [], "asprintf": [0],
    "VSB_cat": [0], "VSB_printf": [0], "VSB_bcat": [0], "VSB_finish": [0], "VSB_clear": [0], "VSB_putc": [0],
    "VSB_delete": [0], "VSB_destroy": [0], "VSB_vprintf": [0], "VSB_new_auto": [], "VSB_new": [1], "VSB_error": [],
    "Header_Set": [0], "Header_Set_Id": [0], "Header_Set_Ref": [0], "Header_Set_Date": [0], "Header_Delete": [0],
    "Header_Destroy": [0], "Header_Parse": [1], "Ident_Set": [1], "Ident_Create": [3], "Header_Serialize": [],
    "Header_Clone": [], "Header_New": [], "Silo_Filename": [], "Digest2Ident": [],
}


# -------------------------------------------------------------- module -----

class Fn:
    def __init__(self, mod, key, d):
        self.mod = mod
        self.key = key
        self.name = d["name"]
        self.file = d.get("file", "?")
        self.line = d.get("line", 0)
        self.params = d.get("params", [])
        self.nargs = len(d.get("args", []))
        self.blocks = d["blocks"]
        self.vararg = d.get("vararg", False)
        self.rettype = d.get("ret", "void")
        self.instrs = {}
        self._loopids = {}
        self._loopcmps = {}
        for b in self.blocks:
            for i in b:
                self.instrs[i["id"]] = i
        n = len(self.blocks)
        self.succ = [list(b[-1].get("succ", [])) if b else [] for b in self.blocks]
        self._loops()
        self._liveness()
        self._tables()

    def _loops(self):
        # back edges by DFS; loop membership by natural loops
        n = len(self.blocks)
        color = [0] * n
        self.back = set()
        st = [(0, iter(self.succ[0]))]
        color[0] = 1
        order = []
        while st:
            b, it = st[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    st.append((s, iter(self.succ[s])))
                    break
                if color[s] == 1:
                    self.back.add((b, s))
            else:
                color[b] = 2
                order.append(b)
                st.pop()
        self.rpo = list(reversed(order))
        self.rponum = {b: i for i, b in enumerate(self.rpo)}
        preds = [[] for _ in range(n)]
        for b in self.rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        self.headers = {h for _, h in self.back}
        self.loopbody = {}
        for t, h in self.back:
            body = self.loopbody.setdefault(h, {h})
            work = [t]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += preds[x]

    def _liveness(self):
        uses, defs, phiuse = [], [], {}
        callnames, loadkeys = [], []
        for bi, b in enumerate(self.blocks):
            u, d = set(), set()
            cn = set()
            for i in b:
                if i["op"] == "phi":
                    for pb, o in i["ops"]:
                        for v in opvals(o):
                            phiuse.setdefault((pb, bi), set()).add(v)
                else:
                    for o in i["ops"]:
                        for v in opvals(o):
                            if v not in d:
                                u.add(v)
                    for p in i.get("path", []):
                        for v in opvals(p[-1] if p[0] != "f" else None):
                            if v not in d:
                                u.add(v)
                    if "ptr" in i:
                        for v in opvals(i["ptr"]):
                            if v not in d:
                                u.add(v)
                d.add(i["id"])
                if i["op"] == "call":
                    cn.add(i.get("fn", "*"))
                elif i["op"] == "load":
                    cn.add("load")
            uses.append(u)
            defs.append(d)
            callnames.append(cn)
        n = len(self.blocks)
        live = [set() for _ in range(n)]
        reach = [set(callnames[b]) for b in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    phis = {i["id"] for i in self.blocks[s] if i["op"] == "phi"}
                    out |= (live[s] - phis)
                    out |= phiuse.get((b, s), set())
                    if not reach[s] <= reach[b]:
                        reach[b] |= reach[s]
                        ch = True
                new = uses[b] | (out - defs[b]) | {i["id"] for i in self.blocks[b] if i["op"] == "phi" }
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = [frozenset(x) for x in live]
        self.reach = reach
        # reachable blocks (transitive), for load keys
        self.rblocks = [None] * n
        for b in reversed(self.rpo):
            pass

    def _tables(self):
        """phis used to index constant tables: their values are kept exact"""
        self.tablephis = set()
        for b in self.blocks:
            for i in b:
                if i["op"] != "getelementptr" or i["ops"][0][0] != "g":
                    continue
                g = self.mod.globals.get(i["ops"][0][1])
                if not g or not g["const"]:
                    continue
                for p in i["path"]:
                    if p[0] == "f":
                        continue
                    o = p[2]
                    for _ in range(4):
                        if o[0] != "v":
                            break
                        d = self.instrs[o[1]]
                        if d["op"] == "phi":
                            self.tablephis.add(o[1])
                            break
                        if not d["ops"]:
                            break
                        o = d["ops"][0]

        # flags: variables that are only ever assigned constants
        src = {}
        for b in self.blocks:
            for i in b:
                if i["op"] == "phi":
                    src[i["id"]] = [o for _, o in i["ops"]]
                elif i["op"] == "select":
                    src[i["id"]] = list(i["ops"][1:3])
        flag = set(src)
        ch = True
        while ch:
            ch = False
            for k in list(flag):
                if not all(o[0] == "c" or o[0] == "v" and o[1] in flag for o in src[k]):
                    flag.discard(k)
                    ch = True
        self.flagphis = flag

    def loopids(self, h):
        r = self._loopids.get(h)
        if r is None:
            r = self._loopids[h] = frozenset(i["id"] for b in self.loopbody.get(h, ()) for i in self.blocks[b])
        return r

    def loopcmps(self, h, iid):
        """what a loop variable is compared with inside its loop"""
        r = self._loopcmps.get((h, iid))
        if r is None:
            r = []
            for b in self.loopbody.get(h, ()):
                for i in self.blocks[b]:
                    if i["op"] == "icmp":
                        for x in (0, 1):
                            if tuple(i["ops"][x]) == ("v", iid):
                                r.append(i["ops"][1 - x])
            self._loopcmps[(h, iid)] = r
        return r

    def loc(self, i):
        return self.mod.fmtloc(i)


def opvals(o):
    if not isinstance(o, list) or not o:
        return
    if o[0] == "v":
        yield o[1]
    elif o[0] in ("ge", "ce"):
        for x in o[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    yield from opvals(x)
                else:
                    for y in x:
                        if isinstance(y, list):
                            yield from opvals(y)


class Module:
    def __init__(self, opaque):
        self.opaque = set(opaque)
        d = build_view(opaque)
        self.globals = d["globals"]
        self.structs = d["structs"]
        self.raw = d["functions"]
        self.fns = {}
        self.byname = {}
        self._fn = {}
        for k, f in self.raw.items():
            self.byname.setdefault(f["name"], []).append(k)
        self.noret = {k for k, f in self.raw.items() if f.get("noreturn")}
        self._mods = None
        self._taken = None
        self._fpts = None

    def fn(self, key):
        if key not in self._fn:
            f = self.raw.get(key)
            if f is None or f["decl"]:
                return None
            self._fn[key] = Fn(self, key, f)
        return self._fn[key]

    def named(self, name):
        for k in self.byname.get(name, []):
            f = self.fn(k)
            if f is not None:
                return f
        raise AnalysisError("function %s not found in the program" % name)

    def defined(self):
        return [k for k, f in self.raw.items() if not f["decl"]]

    def foff(self, sname, fname):
        sd = self.structs.get(sname)
        if sd:
            for n, o, _ in sd["fields"]:
                if n == fname:
                    return o
        return None

    def const_at(self, init, off, g=None):
        """scalar constant at byte offset off of an initializer"""
        k = init[0]
        if k in ("c", "s", "g", "f", "ge", "ce"):
            return init if off == 0 else None
        if k == "z":
            return ["c", 0]
        if k == "b":
            b = bytes.fromhex(init[1])
            return ["c", b[off] - 256 if b[off] > 127 else b[off]] if 0 <= off < len(b) else None
        if k == "st":
            sd = self.structs.get(init[1])
            if not sd:
                return None
            vals = dict((n, v) for n, v in init[2])
            for n, o, sz in sd["fields"]:
                if o <= off < o + sz and n in vals:
                    return self.const_at(vals[n], off - o)
            return None
        if k == "arr" and init[1]:
            n = len(init[1])
            esz = None
            if g is not None and g["size"] > 0:
                esz = g["size"] // n
            else:
                for e in init[1]:
                    if e[0] == "st" and e[1] in self.structs:
                        esz = self.structs[e[1]]["size"]
            if not esz or not 0 <= off // esz < n:
                return None
            return self.const_at(init[1][off // esz], off % esz)
        return None

    @staticmethod
    def fmtloc(i):
        l = i.get("loc") or []
        if not l:
            return "?"
        s = "%s:%d (%s)" % (l[0][0], l[0][1], l[0][2])
        return s

    # -- fields (struct,field) a function may store to, transitively
    def modset(self, key):
        if self._mods is None:
            self._compute_mods()
        return self._mods.get(key, frozenset())

    def targets(self, i):
        """functions an indirect call may reach: address taken, same number and types of parameters"""
        if self._taken is None:
            self._taken = {}
            for k, f in self.raw.items():
                if not f["decl"] and f.get("addrtaken"):
                    self._taken.setdefault((len(f.get("args", [])), f.get("ret", "void")), set()).add(k)
        return self._taken.get((len(i["ops"]), i.get("ty", "void")), set())

    def fieldpts(self):
        """classes of members -> classes of members whose address may be stored in them (list back links)"""
        if self._fpts is not None:
            return self._fpts
        pts, copies = {}, []
        for f in self.raw.values():
            if f["decl"]:
                continue
            cls, ld = {}, {}
            for b in f["blocks"]:
                for i in b:
                    if i["op"] == "getelementptr":
                        last = [p for p in i["path"] if p[0] == "f"]
                        if last:
                            sn = last[-1][1]
                            if sn == "anon":
                                base = i["ops"][0]
                                up = last[-2][1:3] if len(last) > 1 else cls[base[1]][1:3] if base[0] == "v" and base[1] in cls else None
                                if up:
                                    sn = up[0] + "." + up[1]
                            cls[i["id"]] = ("F", sn, last[-1][2])
                    elif i["op"] == "load" and i["ops"][0][0] == "v" and i["ops"][0][1] in cls:
                        ld[i["id"]] = cls[i["ops"][0][1]]
                    elif i["op"] == "store" and i["ops"][0][0] == "v" and i["ops"][1][0] == "v" and i["ops"][1][1] in cls:
                        v, k = i["ops"][0][1], cls[i["ops"][1][1]]
                        if v in cls:
                            pts.setdefault(k, set()).add(cls[v])
                        elif v in ld:
                            copies.append((k, ld[v]))
        ch = True
        while ch:
            ch = False
            for k, l in copies:
                new = pts.get(l, set()) - pts.get(k, set())
                if new:
                    pts.setdefault(k, set()).update(new)
                    ch = True
        for v in pts.values():
            v |= {("F", x[1] + "." + x[2], "#0") for x in v if "." not in x[1]}
        self._fpts = pts
        return pts

    def _compute_mods(self):
        direct, calls, ind = {}, {}, {}
        for k, f in self.raw.items():
            if f["decl"]:
                continue
            ds, cs = set(), set()
            fieldof = {}
            for b in f["blocks"]:
                for i in b:
                    if i["op"] == "getelementptr":
                        last = [p for p in i["path"] if p[0] == "f"]
                        if last:
                            sn = last[-1][1]
                            if sn == "anon":
                                base = i["ops"][0] if i.get("ops") else None
                                up = last[-2][1:3] if len(last) > 1 else fieldof.get(base[1]) if base and base[0] == "v" else None
                                if up:
                                    sn = up[0] + "." + up[1]
                            fieldof[i["id"]] = (sn, last[-1][2])
                    elif i["op"] == "store":
                        p = i["ops"][1]
                        if p[0] == "v" and p[1] in fieldof:
                            ds.add(("F",) + fieldof[p[1]])
                        elif p[0] == "g":
                            ds.add(("G", p[1]))
                        elif p[0] == "ge":
                            fl = [q for q in p[2] if q[0] == "f"]
                            if fl and fl[-1][1] == "anon" and len(fl) > 1:
                                ds.add(("F", fl[-2][1] + "." + fl[-2][2], fl[-1][2]))
                            else:
                                ds.add(("F", fl[-1][1], fl[-1][2]) if fl else ("G", p[1][1]))
                    elif i["op"] == "call":
                        if i.get("noreturn") or i.get("callee") in self.noret:
                            continue
                        if "callee" in i:
                            cs.add(i["callee"])
                        else:
                            cs |= self.targets(i)
                        for o in i["ops"]:
                            if o[0] == "f":
                                cs.add(o[1])
                            # fields passed by address to a library out-parameter
                        nm = i.get("fn")
                        outs = OUT.get(nm)
                        for n, o in enumerate(i["ops"]):
                            if outs is not None and n not in outs:
                                continue
                            if o[0] == "v" and o[1] in fieldof:
                                ds.add(("F",) + fieldof[o[1]])
            direct[k], calls[k] = ds, cs
        ch = True
        mods = {k: set(v) for k, v in direct.items()}
        while ch:
            ch = False
            for k in mods:
                for c in calls[k]:
                    if c in mods and not mods[c] <= mods[k]:
                        mods[k] |= mods[c]
                        ch = True
        self._mods = {k: frozenset(v) for k, v in mods.items()}


_modcache = {}


def module(opaque):
    k = tuple(sorted(opaque))
    if k not in _modcache:
        _modcache[k] = Module(k)
    return _modcache[k]


# -------------------------------------------------------------- states -----

class State:
    __slots__ = ("env", "mem", "clob", "facts", "calls", "strs", "auto", "trace", "zref")

    def __init__(self):
        self.env, self.mem, self.clob, self.facts, self.calls, self.strs = {}, {}, {}, {}, {}, {}
        self.auto = None
        self.trace = None
        self.zref = None    # canonical generations referred to (None: not canonical)

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.clob = dict(self.clob)
        s.facts = dict(self.facts)
        s.calls = dict(self.calls)
        s.strs = dict(self.strs)
        s.auto = self.auto
        s.trace = self.trace
        return s

    def key(self):
        return ((self.auto, frozenset(self.env.items()), frozenset(self.mem.items()),
                frozenset(self.clob), frozenset(self.strs.items())), frozenset(self.facts.items()))

    def path(self, n=40):
        out = []
        t = self.trace
        while t is not None and len(out) < 400:
            out.append(t[1])
            t = t[0]
        out.reverse()
        res = []
        for x in out:
            if not res or res[-1] != x:
                res.append(x)
        return res[-n:]


class Call:
    __slots__ = ("name", "key", "args", "res", "instr", "fptr", "st")

    def __init__(self, name, key, args, res, instr, fptr=None):
        self.name, self.key, self.args, self.res, self.instr, self.fptr = name, key, args, res, instr, fptr

    def loc(self):
        return Module.fmtloc(self.instr)


class Rule:
    """Base class.  Hooks return None (keep state) or a list of states."""
    pure_extra = ()
    def likely(self, A, tag):
        """the loop variables a cursor most probably follows"""
        return ()

    def backedge(self, A, st, head):
        pass

    memcursors = False      # cursors may follow places in memory as well
    cursors = frozenset()   # tags whose term follows a loop variable
    before = None           # called as before(A, st, c) while the previous result of the same call is still known
    branch = None           # called as branch(A, st, i, cond) on both outcomes of a branch
    dull = frozenset()      # pure functions about whose results no facts are kept
    weak = frozenset()      # tags of automaton entries dropped once their (first) term is dead

    constbounds = False     # loop counters are also bounded by constants they are compared with
    nonzero = False         # loop variables which are not zero are remembered not to be
    dullread = None         # dullread(addr): no facts are kept about what is read from there

    def dullmem(self, addr):
        """places in memory whose contents need not be tracked"""
        return False

    def start(self, A):
        return ()

    def call(self, A, st, c):
        return None

    def after(self, A, st, c):
        return None

    def store(self, A, st, addr, val, i):
        return None

    def load(self, A, st, addr, val, i):
        return None

    def ret(self, A, st, val, i):
        return None


class Analysis:
    MAXSTATES = 120
    MAXSTEPS = 400000
    ENOUGH = 60000      # with something to report, stop here

    def __init__(self, mod, fn, rule, params=None):
        self.mod = mod
        self.fn = fn if isinstance(fn, Fn) else mod.named(fn)
        self.rule = rule
        self.reports = {}
        self.visited = {}
        self.zeros = {}
        self.events = 0
        self.joins = 0
        self.steps = 0
        self.entryvals = {}
        self.params = params or {}

    # ---- reporting
    def report(self, st, where, msg, ident=None):
        loc = where if isinstance(where, str) else (where.loc() if isinstance(where, Call) else Module.fmtloc(where))
        k = ident or (loc, msg)
        if k not in self.reports:
            self.reports[k] = dict(loc=loc, msg=msg, function=self.fn.name, path=st.path())

    # ---- facts
    def core(self, t):
        c, d = _parts(t)
        if not d:
            return c, None, 1
        items = sorted(d.items(), key=lambda kv: repr(kv[0]))
        g = 0
        from math import gcd
        for _, v in items:
            g = gcd(g, abs(v))
        s = 1 if items[0][1] > 0 else -1
        k = g * s
        return c, _mk(0, {a: v // k for a, v in d.items()}), k

    def interval(self, st, t, depth=2):
        """sound bounds on a linear term"""
        return (-self.ub(st, mulc(t, -1), depth), self.ub(st, t, depth))

    def _own(self, st, core):
        f = st.facts.get(core)
        lo, hi = (f[0], f[1]) if f else (-INF, INF)
        if core[0] in ("alloca", "g", "s", "f", "fld"):
            lo = max(lo, 1)
        if is_bool(core):
            lo, hi = max(lo, 0), min(hi, 1)
        if core[0] == "op" and core[1] == "and" and is_c(core[3]) and core[3][1] >= 0:
            lo, hi = max(lo, 0), min(hi, core[3][1])
        if core[0] == "op" and core[1] == "and" and is_c(core[2]) and core[2][1] >= 0:
            lo, hi = max(lo, 0), min(hi, core[2][1])
        if core[0] == "pure" and core[1] in ("strlen", "strspn", "strcspn"):
            lo = max(lo, 0)
        if core[0] == "u8":
            lo, hi = max(lo, 0), min(hi, 255)
        return lo, hi

    def ub(self, st, t, depth=2):
        c, d = _parts(t)
        if not d:
            return c
        best = self._ub0(st, t)
        if depth <= 0 or best == -INF:
            return best
        # combine with one known fact sharing an atom
        for f, v in st.facts.items():
            lo, hi = v[0], v[1]
            fd = _parts(f)[1]
            if len(fd) < 2:
                continue
            for a, k in d.items():
                if a in fd:
                    q = k / fd[a]
                    if q != int(q):
                        continue
                    q = int(q)
                    # t = q*f + (t - q*f)
                    b = hi if q > 0 else lo
                    if abs(b) >= INF:
                        continue
                    rest = add(t, f, -q)
                    r = self.ub(st, rest, depth - 1)
                    if r < INF:
                        best = min(best, q * b + r)
        return best

    def _ub0(self, st, t):
        c, core, k = self.core(t)
        if core is None:
            return c
        lo, hi = self._own(st, core)
        v = (k * hi if k > 0 else k * lo) if abs(hi if k > 0 else lo) < INF else INF
        if v < INF:
            best = c + v
        else:
            best = INF
        # sum of individual bounds
        d = _parts(t)[1]
        if len(d) > 1:
            s = c
            for a, kk in d.items():
                lo, hi = self._own(st, a)
                b = hi if kk > 0 else lo
                if abs(b) >= INF:
                    s = INF
                    break
                s += kk * b
            best = min(best, s)
        return best

    def excluded(self, st, t, n):
        """is t known to be different from n?"""
        c, core, k = self.core(t)
        if core is None:
            return c != n
        if (n - c) % k:
            return True
        v = (n - c) // k
        f = st.facts.get(core)
        if f and v in f[2]:
            return True
        if v == 0 and core[0] == "ors":
            for x in core[1]:
                if is_c(x):
                    if x[1]:
                        return True
                    continue
                lo, hi = self.interval(st, x, 1)
                if lo > 0 or hi < 0 or self.excluded(st, x, 0):
                    return True
        return False

    def eval(self, st, b):
        """True / False / None"""
        k = b[0]
        if k == "c":
            return bool(b[1])
        if k == "not":
            r = self.eval(st, b[1])
            return None if r is None else not r
        if k == "and" or k == "or":
            x, y = self.eval(st, b[1]), self.eval(st, b[2])
            if k == "and":
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x or y:
                return True
            return False if x is False and y is False else None
        if k == "rel":
            op, d = b[1], b[2]
            lo, hi = self.interval(st, d)
            if op == "eq":
                if lo > 0 or hi < 0 or self.excluded(st, d, 0):
                    return False
                if lo == hi == 0:
                    return True
                return None
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if k == "xor":
            return None
        # plain value used as a truth value
        f = self.interval(st, b)
        if f[0] > 0 or f[1] < 0 or self.excluded(st, b, 0):
            return True
        if f == (0, 0):
            return False
        return None

    def setfact(self, st, t, lo=-INF, hi=INF, ne=None):
        """narrow the range of t; returns False if that is contradictory"""
        c, core, k = self.core(t)
        if core is None:
            return lo <= c <= hi and (ne is None or c != ne)

        def div(x, up):
            if abs(x) >= INF:
                return INF if (x > 0) == (k > 0) else -INF
            q, r = divmod(x - c, k)
            if r and up:
                q += 1
            return q
        if k > 0:
            l, h = div(lo, True), div(hi, False)
        else:
            l, h = div(hi, True), div(lo, False)
        o = st.facts.get(core, (-INF, INF, frozenset()))
        ol, oh = self._own(st, core)
        l, h = max(l, ol), min(h, oh)
        nes = o[2]
        if ne is not None and (ne - c) % k == 0:
            nes = nes | {(ne - c) // k}
        while l in nes and l > -INF:
            l += 1
        while h in nes and h < INF:
            h -= 1
        nes = frozenset(x for x in nes if l < x < h)
        if l > h:
            return False
        if self.rule.dull and any(x[0] == "pure" and x[1] in self.rule.dull for x in leaves(core)):
            return True
        if self.rule.dullread and any(x[0] == "mem" and self.rule.dullread(x[2]) for x in leaves(core)):
            return True
        if l > -INF or h < INF or nes:
            st.facts[core] = (l, h, nes)
        return True

    def assume(self, st, b, truth):
        """list of successor states in which b has the given truth value"""
        r = self.eval(st, b)
        if r is not None:
            return [st] if r == truth else []
        k = b[0]
        if k == "not":
            return self.assume(st, b[1], not truth)
        if k in ("and", "or"):
            if (k == "and") == truth:
                out = []
                for s in self.assume(st.copy(), b[1], truth):
                    out += self.assume(s, b[2], truth)
                return out
            out = []
            for s in self.assume(st.copy(), b[1], truth):
                out.append(s)
            for s in self.assume(st.copy(), b[1], not truth):
                out += self.assume(s, b[2], truth)
            return out
        if k == "rel":
            op, d = b[1], b[2]
            s = st.copy()
            if op == "eq":
                ok = self.setfact(s, d, 0, 0) if truth else self.setfact(s, d, ne=0)
                if ok and truth:
                    ok = self._propagate_eq(s, d)
            elif truth:
                ok = self.setfact(s, d, hi=0)
                if op == "ule" and ok:
                    # x <u const also bounds x from below
                    c, m = _parts(d)
                    if len(m) == 1 and list(m.values())[0] == 1 and c <= 0:
                        ok = self.setfact(s, list(m)[0], lo=0)
            else:
                ok = self.setfact(s, d, lo=1)
            return [s] if ok else []
        s = st.copy()
        ok = self.setfact(s, b, ne=0) if truth else self.setfact(s, b, 0, 0)
        return [s] if ok else []

    def _propagate_eq(self, st, d):
        """after a-b==0, transfer single-atom bounds between a and b"""
        c, m = _parts(d)
        if len(m) == 2:
            (a, ka), (b, kb) = m.items()
            if ka == 1 and kb == -1:
                pass
            elif ka == -1 and kb == 1:
                a, b = b, a
                c = -c
            else:
                return True
            # a = b - c
            la, ha = self._own(st, a)
            lb, hb = self._own(st, b)
            ok = self.setfact(st, a, max(-INF, lb - c), min(INF, hb - c))
            ok = ok and self.setfact(st, b, max(-INF, la + c), min(INF, ha + c))
            return ok
        return True

    # convenience for rules
    def le(self, st, a, b):
        return self.ub(st, sub(a, b), 3) <= 0

    def same(self, st, a, b):
        if a == b:
            return True
        if a is None or b is None:
            return False
        d = sub(a, b)
        return self.interval(st, d, 2) == (0, 0)

    def learnt(self, st, names):
        """results of pure functions something is known about, and which still hold for the memory as it is"""
        out = set()
        for f in st.facts:
            for a, _ in ((f, 1),) if f[0] != "lin" else f[2]:
                if a[0] == "pure" and a[1] in names and a[3] == self.pgens(st, a[2]):
                    out.add(a)
        return sorted(out, key=repr)

    def nonnull(self, st, t):
        return self.eval(st, neg(rel_eq(t, C(0)))) is True

    def isnull(self, st, t):
        return self.eval(st, rel_eq(t, C(0))) is True

    # ---- memory
    def gens(self, st, addr):
        g = []
        k = memkey(addr)
        if k in st.clob:
            g.append(st.clob[k])
        if k[0] == "F":
            k2 = ("F", "anon", k[2]) if "." in k[1] else ("F", "anon*", k[2]) if k[1] == "anon" else None
            if k2 in st.clob:
                g.append(st.clob[k2])
        for p in prefixes(addr):
            u = st.clob.get(("U", p))
            if u is not None:
                g.append(u)
        return tuple(g)

    def pgens(self, st, args):
        g = []
        for a in args:
            for p in prefixes(a):
                for kind in ("U", "V"):
                    u = st.clob.get((kind, p))
                    if u is not None:
                        g.append(u)
            if a[0] in ("alloca", "lin", "fld", "g"):
                k = memkey(a)
                if k in st.clob:
                    g.append(st.clob[k])
        return tuple(g)

    def load(self, st, addr):
        if addr in st.mem:
            return st.mem[addr]
        b, off, rest = ptr_base(addr)
        if b is not None and b[0] == "g" and not rest:
            g = self.mod.globals.get(b[1])
            if g and g.get("const") and "init" in g and off == 0 and g["init"][0] in ("c", "s", "g", "f"):
                return self.operand(st, g["init"])
        ga = self.flat(addr)
        if ga is not None:
            g = self.mod.globals.get(ga[0])
            if g and g.get("const") and "init" in g:
                v = self.mod.const_at(g["init"], ga[1], g)
                if v is not None:
                    return self.operand(st, v)
                return ("mem", (), addr)
        if b is not None and b[0] == "s" and not rest:
            s = b[1]
            if 0 <= off < len(s):
                return C(ord(s[off]))
            if off == len(s):
                return C(0)
        g = self.gens(st, addr)
        if len(g) == 1 and g[0] in self.zeros and addr[0] == "fld" and addr[1] == self.zeros[g[0]][0]:
            # nothing was written there since the memset
            f = self.mod.foff(addr[2], addr[3])
            if f is not None and f < self.zeros[g[0]][1]:
                return C(0)
        return ("mem", g, addr)

    def flat(self, addr):
        """address -> (global, byte offset) when it is a fixed place in a global"""
        off = 0
        t = addr
        while True:
            b, o, rest = ptr_base(t)
            if b is None or rest:
                return None
            off += o
            if b[0] == "g":
                return b[1], off
            if b[0] != "fld":
                return None
            f = self.mod.foff(b[2], b[3])
            if f is None:
                return None
            off += f
            t = b[1]

    def noalias(self, st, a, b):
        """can the two addresses not overlap?"""
        ra, rb = root(a), root(b)
        if ra is None or rb is None:
            return False
        ka, kb = memkey(a), memkey(b)
        if not overlapping(ka, kb):
            # different fields / objects never overlap (type based)
            if "P" not in (ka[0], kb[0]):
                return True
            return True
        if ra == rb:
            ba, oa, xa = ptr_base(a)
            bb, ob, xb = ptr_base(b)
            if ba == bb and not xa and not xb and oa != ob:
                return True
            if ba == bb and xa == xb and oa != ob:
                return True
            # same field of different elements of one array
            while ba is not None and bb is not None and ba[0] == bb[0] == "fld" and ba[2:] == bb[2:] and not xa and not xb and oa == ob:
                ba, oa, xa = ptr_base(ba[1])
                bb, ob, xb = ptr_base(bb[1])
                if ba == bb and xa == xb and oa != ob:
                    return True
            return False
        fresh = lambda r: r[0] in ("alloca", "g") or (r[0] == "call" and st.calls.get(r[1], ("",))[0] in FRESH)
        if fresh(ra) and fresh(rb):
            return True
        if ra[0] == "alloca" or rb[0] == "alloca":
            return True
        return False

    def resolve(self, st, addr):
        """where a store through a list's back link goes: the address, or the classes of places it may be"""
        if addr[0] == "mem" and memkey(addr)[0] == "P":
            ks = self.mod.fieldpts().get(memkey(addr[2]))
            if ks:
                # the back link of the first element leads to the head
                e = ptr_base(addr[2])[0]
                while e is not None and e[0] == "fld":
                    e = ptr_base(e[1])[0]
                if e is not None and e[0] == "mem" and memkey(e[2]) in ks and self.load(st, e[2]) == e:
                    return e[2], None
                for a, v in st.mem.items():
                    if v == e and memkey(a) in ks:
                        return a, None
                return addr, ks
        return addr, None

    def do_store(self, st, addr, val, iid, ks=None):
        if ks is not None:
            self.clobber_keys(st, ks, iid)
            return
        if st.strs:
            pf = prefixes(addr)
            for k in list(st.strs):
                if k[0] != "call" and (k == addr or ptr_base(k)[0] in pf):
                    del st.strs[k]
        for a in list(st.mem):
            if a != addr and not self.noalias(st, a, addr):
                del st.mem[a]
                st.clob[memkey(a)] = iid
        k = memkey(addr)
        # generation for other locations of the same class which are not in mem
        if k[0] != "P" and not (root(addr) and root(addr)[0] == "alloca" and k[0] == "A"):
            saved = {a: v for a, v in st.mem.items() if memkey(a) == k}
            if not (k[0] == "F" and self._onlybase(st, addr)):
                st.clob[k] = iid
                if wider(k):
                    st.clob[wider(k)] = iid
        elif k[0] == "A":
            b, off, rest = ptr_base(addr)
            if rest:
                st.clob[k] = iid
        if len(st.mem) < 200 and not self.rule.dullmem(addr):
            st.mem[addr] = val

    def _onlybase(self, st, addr):
        r = root(addr)
        return r is not None and r[0] == "alloca"

    def clobber_under(self, st, p, iid):
        b, off, rest = ptr_base(p)
        if b is None or b[0] in ("c", "s", "f"):
            return
        for a in list(st.mem):
            if b in prefixes(a):
                del st.mem[a]
        st.clob[("U", b)] = iid

    def clobber_keys(self, st, keys, iid):
        if not keys:
            return
        keys = set(keys)
        for k in list(keys):
            if wider(k):
                keys.add(wider(k))
        gen = {k[2] for k in keys if k[0] == "F" and k[1] == "anon"}
        spec = {k[2] for k in keys if k[0] == "F" and "." in k[1]}
        for a in list(st.mem):
            ka = memkey(a)
            if ka in keys or ka[0] == "F" and ("." in ka[1] and ka[2] in gen or ka[1] == "anon" and ka[2] in spec):
                r = root(a)
                if r is not None and r[0] == "alloca" and ("U", r) not in st.clob and memkey(a)[0] == "F" \
                        and not self._escaped(st, r):
                    continue
                del st.mem[a]
        for k in keys:
            st.clob[k] = iid

    def _escaped(self, st, r):
        return True

    # ---- operands
    def operand(self, st, o):
        k = o[0]
        if k == "v":
            t = st.env.get(o[1])
            if t is None:
                i = self.fn.instrs[o[1]]
                if i["op"] == "alloca":
                    return ("alloca", o[1])
                return ("undef", o[1])
            return t
        if k == "c":
            return ("c", o[1])
        if k == "a":
            return self.params.get(o[1], ("arg", o[1]))
        if k == "s":
            return ("s", o[1])
        if k == "g":
            return ("g", o[1])
        if k == "f":
            return ("f", o[1])
        if k == "ge":
            return self.gep(st, self.operand(st, o[1]), o[2])
        if k == "ce":
            if o[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.operand(st, o[2][0])
            return ("undef", -2)
        if k == "z":
            return C(0)
        return ("undef", -1)

    def gep(self, st, base, path):
        t = base
        for p in path:
            if p[0] == "f":
                t = ("fld", t, p[1], p[2])
            else:
                ix = self.operand(st, p[2])
                if is_c(ix):
                    t = add(t, C(ix[1] * p[1]))
                else:
                    t = add(t, ix, p[1])
        return t

    # ---- transfer
    def fresh(self, st, iid):
        """instruction iid is about to produce a new value: age the old one"""
        hit = False
        for d in (st.env, st.mem):
            for k, v in d.items():
                if mentions(v, iid) or (d is st.mem and mentions(k, iid)):
                    hit = True
                    break
            if hit:
                break
        if not hit:
            hit = iid in st.calls or any(mentions(f, iid) for f in st.facts) or iid in st.clob.values() \
                or self._auto_mentions(st.auto, iid) or \
                any(k[0] in ("U", "V") and mentions(k[1], iid) for k in st.clob) or \
                any(mentions(k, iid) or any(part_mentions(p, iid) for p in v) for k, v in st.strs.items())
        if not hit:
            return
        st.env = {k: rename_old(v, iid) for k, v in st.env.items()}
        st.mem = {k: rename_old(v, iid) for k, v in st.mem.items() if not mentions(k, iid)}
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, iid)}
        st.calls = {k: (n, tuple(rename_old(a, iid) for a in args)) for k, (n, args) in st.calls.items() if k != iid}
        st.clob = {k: v for k, v in st.clob.items()
                   if not (k[0] in ("U", "V") and mentions(k[1], iid))}
        st.auto = self._auto_rename(st.auto, iid)
        st.strs = {k: tuple(rename_part(p, iid) for p in v) for k, v in st.strs.items() if not mentions(k, iid)}

    def _auto_mentions(self, a, iid):
        if isinstance(a, tuple):
            if a and a[0] == "T!":
                return mentions(a[1], iid)
            return any(self._auto_mentions(x, iid) for x in a)
        if isinstance(a, frozenset):
            return any(self._auto_mentions(x, iid) for x in a)
        return False

    def _auto_rename(self, a, iid):
        if isinstance(a, tuple):
            if a and a[0] == "T!":
                return ("T!", rename_old(a[1], iid))
            return tuple(self._auto_rename(x, iid) for x in a)
        if isinstance(a, frozenset):
            return frozenset(self._auto_rename(x, iid) for x in a)
        return a

    def auto_terms(self, a, out):
        if isinstance(a, (tuple, frozenset)):
            if isinstance(a, tuple) and a and a[0] == "T!":
                out.append(a[1])
            else:
                for x in a:
                    self.auto_terms(x, out)

    def run(self):
        st = State()
        st.auto = self.rule.start(self)
        inits = getattr(self.rule, "initial", None)
        sts = inits(self, st) if inits else [st]
        self.seen = {}
        self.bkey = {}
        self.work = []
        import heapq
        self._n = 0
        for s in sts:
            self.enqueue(None, 0, s)
        while self.work:
            _, _, b, s = heapq.heappop(self.work)
            self.block(b, s.copy())
            if self.reports and self.steps > self.ENOUGH:
                break
        return list(self.reports.values())

    def enqueue(self, frm, to, st):
        import heapq
        st = self.edge(frm, to, st)
        if st is None:
            return
        base, fk = st.key()
        seen = self.seen.setdefault(to, {})
        old = seen.setdefault(base, [])
        for f in old:
            if self.covers(f, st):
                return
        bucket = self.visited.setdefault((to, st.auto), [])
        if len(bucket) >= self.MAXSTATES:
            self.joins += 1
            n = self.bkey.get((to, st.auto), {}).get(base)
            if n is None:
                n = len(bucket) - 1
                for k in range(n, -1, -1):
                    if self.alike(bucket[k], st):
                        n = k
                        break
            j = self.join(to, bucket[n], st)
            base, fk = j.key()
            old = seen.setdefault(base, [])
            for f in old:
                if self.covers(f, j):
                    return
            bucket[n] = j
            st = j
        else:
            n = len(bucket)
            bucket.append(st)
        self.bkey.setdefault((to, st.auto), {})[base] = n
        old.append((st.facts, st.clob, st.zref, st.calls))
        self._n += 1
        heapq.heappush(self.work, (self.fn.rponum.get(to, 0), self._n, to, st))

    def covers(self, old, st):
        """does the earlier state (same values, at the same place) stand for this one too?"""
        facts, clob, zref, calls = old
        if not self.implied(st.facts, facts):
            return False
        if clob != st.clob:
            if zref is None:
                return False
            for k, v in clob.items():
                if st.clob[k] != v and (v != _zkey(k) or v in zref):
                    return False
        if calls is not st.calls:
            for k, v in calls.items():
                if st.calls.get(k) != v:
                    return False
        return True

    @staticmethod
    def implied(new, old):
        """does `new` imply every fact in `old`?"""
        for k, v in old.items():
            n = new.get(k)
            if n is None or n[0] < v[0] or n[1] > v[1]:
                return False
            for x in v[2]:
                if x not in n[2] and n[0] <= x <= n[1]:
                    return False
        return True

    @staticmethod
    def alike(a, b):
        """do the states agree on the truth values they hold?"""
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is not None and v != w and (v and is_bool(v) or w and is_bool(w) or is_c(v) and is_c(w)):
                return False
        return True

    def join(self, blk, a, b):
        s = State()
        s.auto = b.auto
        s.trace = b.trace
        for k in set(a.env) & set(b.env):
            s.env[k] = a.env[k] if a.env[k] == b.env[k] else ("w", blk, ("e", k))
        for k in set(a.mem) & set(b.mem):
            s.mem[k] = a.mem[k] if a.mem[k] == b.mem[k] else ("w", blk, ("m", k if tsize(k) < 12 else memkey(k)))
        for k in set(a.mem) ^ set(b.mem):
            s.clob[memkey(k)] = ("w", blk)
        for k in set(a.clob) | set(b.clob):
            if a.clob.get(k) == b.clob.get(k):
                s.clob.setdefault(k, a.clob[k])
            else:
                s.clob[k] = ("w", blk)
        for k in set(a.facts) & set(b.facts):
            x, y = a.facts[k], b.facts[k]
            z = (min(x[0], y[0]), max(x[1], y[1]), x[2] & y[2])
            if z[0] > -INF or z[1] < INF or z[2]:
                s.facts[k] = z
        for k in set(a.calls) & set(b.calls):
            if a.calls[k] == b.calls[k]:
                s.calls[k] = a.calls[k]
        for k in set(a.strs) & set(b.strs):
            s.strs[k] = a.strs[k] if a.strs[k] == b.strs[k] else common_parts(a.strs[k], b.strs[k])
        return s

    def edge(self, frm, to, st):
        fn = self.fn
        isback = (frm, to) in fn.back
        st = st.copy()
        if isback:
            if self.rule.backedge(self, st, to) is False:
                return None
        phis = [i for i in fn.blocks[to] if i["op"] == "phi"]
        if phis:
            vals = {}
            for i in phis:
                for pb, o in i["ops"]:
                    if pb == frm:
                        vals[i["id"]] = (self.operand(st, o), o)
                        break
            new = {}
            unst = {}
            if to in fn.headers and not isback:
                self.entryvals.setdefault(to, set()).add(tuple((k, v[0]) for k, v in vals.items()))
            for i in phis:
                iid = i["id"]
                if iid not in vals:
                    continue
                t, o = vals[iid]
                if to in fn.headers and isback and not self.stable(t, o, iid):
                    unst[iid] = t
                else:
                    new[iid] = t
            if unst:
                inv = self.invariants(st, to, unst)
                rb = self.rule.cursors and self._rebase(st, unst, to)
                nonzero = self.rule.nonzero and [iid for iid, t in unst.items() if self.eval(st, rel_eq(t, C(0))) is False] or ()
                nonneg = [iid for iid, t in unst.items() if self.interval(st, t, 1)[0] >= 0]
                bounds = []
                body = fn.loopids(to)
                for iid, t in unst.items():
                    for o in fn.loopcmps(to, iid):
                        if o[0] == "v" and (o[1] in body or o[1] not in st.env):
                            continue
                        e = self.operand(st, o)
                        if is_c(e) and e != C(0) and not self.rule.constbounds or refs(e) & body or has_old(e) or undefd(e) or refs(e) & set(unst) or tsize(e) > 20:
                            continue
                        if self.le(st, t, e):
                            bounds.append(sub(("phi", iid), e))
                        elif is_c(e) and self.rule.constbounds and self.le(st, t, add(e, C(1))):
                            bounds.append(sub(("phi", iid), add(e, C(1))))
                for iid in unst:
                    self.fresh(st, iid)
                    for j in list(new):
                        new[j] = rename_old(new[j], iid)
                for iid in unst:
                    new[iid] = ("phi", iid)
                for iid in nonneg:
                    st.facts[("phi", iid)] = (0, INF, frozenset())
                for iid in nonzero:
                    lo = 1 if iid in nonneg else -INF
                    st.facts[("phi", iid)] = (lo, INF, frozenset([0]) if lo < 0 else frozenset())
                for t in inv:
                    self.setfact(st, t, 0, 0)
                for t in bounds:
                    self.setfact(st, t, -INF, 0)
                if rb:
                    st.auto = frozenset(self._unrb(x) for x in st.auto)
            st.env.update(new)
        if isback:
            # summarise values that keep growing
            widened = set()
            for k, v in list(st.env.items()):
                if has_old(v) and v[0] != "old" or tsize(v) > 60:
                    st.env[k] = ("w", to, ("e", k))
                    widened.add(st.env[k])
            for k, v in list(st.mem.items()):
                if tsize(v) > (14 if memkey(k)[0] == "F" and "." in memkey(k)[1] else 30) or (has_old(v) and v[0] != "old") or \
                        v[0] == "lin" and abs(v[1]) > 1 and any(a[0] == "mem" and a[2] == k for a, _ in v[2]):
                    st.mem[k] = ("w", to, ("m", memkey(k)))
                    widened.add(st.mem[k])
                    if self.rule.memcursors:
                        st.auto = frozenset((x[0], ("T!", add(st.mem[k], sub(x[1][1], v)))) + x[2:]
                                            if x[0] in self.rule.cursors and is_c(sub(x[1][1], v)) else x for x in st.auto)
            for k, v in list(st.strs.items()):
                if any(has_old(x) for q in v for x in part_terms(q)):
                    v = st.strs[k] = widen_parts(v)
                if len(v) > 12:
                    st.strs[k] = v[:3] + (("*",),)
            if widened:
                st.facts = {k: v for k, v in st.facts.items() if not (leaves(k) & widened)}
        # liveness
        live = fn.live[to]
        st.env = {k: v for k, v in st.env.items() if k in live}
        reach = fn.reach[to]
        if "load" not in reach and not (reach - {"VAS_Fail"}):
            st.mem = {}
        lv = set()
        for v in st.env.values():
            lv |= leaves(v)
        for k, v in st.mem.items():
            lv |= leaves(v)
            lv |= leaves(k)
        at = []
        weak = self.rule.weak
        if weak and isinstance(st.auto, frozenset):
            for x in st.auto:
                if x[0] not in weak:
                    self.auto_terms(x, at)
        else:
            self.auto_terms(st.auto, at)
        for t in at:
            lv |= leaves(t)
        if weak and isinstance(st.auto, frozenset):
            keepa = []
            for x in st.auto:
                if x[0] in weak and not all(l in lv or l[0] in ("arg", "alloca") for l in leaves(x[1][1])):
                    continue
                keepa.append(x)
                if x[0] in weak:
                    at = []
                    self.auto_terms(x, at)
                    for t in at:
                        lv |= leaves(t)
            if len(keepa) != len(st.auto):
                st.auto = frozenset(keepa)
        base_ok = lambda l: l in lv or l[0] in ("arg", "alloca")

        memo = {}

        def alive(l):
            if l in lv or l[0] in ("arg", "alloca"):
                return True
            r = memo.get(l)
            if r is None:
                if l[0] == "mem":
                    r = "load" in reach and all(alive(x) for x in leaves(l[2])) and l[1] == self.gens(st, l[2])
                elif l[0] == "pure":
                    r = (l[1] in reach or "*" in reach) and all(alive(x) for a in l[2] for x in leaves(a)) and \
                        l[3] == self.pgens(st, l[2])
                else:
                    r = False
                memo[l] = r
            return r
        if st.strs:
            st.strs = {k: v for k, v in st.strs.items() if all(alive(l) for l in leaves(k))}
            for k, v in st.strs.items():
                lv |= leaves(k)
                for q in v:
                    for x in part_terms(q):
                        lv |= leaves(x)
            memo.clear()
        gone = {k: v for k, v in st.facts.items() if not all(alive(l) for l in leaves(k))}
        if gone:
            st.facts = {k: v for k, v in st.facts.items() if k not in gone}
            self.eliminate(st, gone, alive)
        need = {l[1] for l in lv if l[0] == "call"}
        for k in st.facts:
            need |= {l[1] for l in leaves(k) if l[0] == "call"}
        # closure over call arguments
        todo = list(need)
        keep = set()
        while todo:
            x = todo.pop()
            if x in keep or x not in st.calls:
                continue
            keep.add(x)
            for a in st.calls[x][1]:
                for l in leaves(a):
                    if l[0] == "call" and l[1] not in keep:
                        todo.append(l[1])
        st.calls = {k: v for k, v in st.calls.items() if k in keep}
        # memory generations whose object cannot be reached any more
        st.clob = {k: v for k, v in st.clob.items()
                   if k[0] not in ("U", "V") or all(alive(l) for l in leaves(k[1]))}
        if len(fn.preds[to]) > 1:
            self.canongens(st)
        return st

    def eliminate(self, st, gone, alive):
        """carry what dying variables say about living ones over to those"""
        for e, v in gone.items():
            if v[0] != v[1] or e[0] != "lin":
                continue
            dead = [(a, k) for a, k in e[2] if not all(alive(l) for l in leaves(a))]
            if not dead or abs(dead[0][1]) != 1:
                continue
            x, kx = dead[0]
            e0 = add(e, C(-v[0]))       # e0 == 0
            for g, w in gone.items():
                if g == e:
                    continue
                c, d = _parts(g)
                if x not in d or len(d) > 4:
                    continue
                r = add(g, e0, -d[x] * kx)      # g == r, without x
                if not is_c(r) and all(alive(l) for l in leaves(r)):
                    self.setfact(st, r, w[0], w[1])

    def canongens(self, st):
        """rename the generations no remaining term refers to, so that states differing in nothing else are the same"""
        ref = set()
        for v in st.env.values():
            ref |= gensof(v)
        for k, v in st.mem.items():
            ref |= gensof(k)
            ref |= gensof(v)
        for k in st.facts:
            ref |= gensof(k)
        for k, v in st.strs.items():
            ref |= gensof(k)
            for q in v:
                for x in part_terms(q):
                    ref |= gensof(x)
        at = []
        self.auto_terms(st.auto, at)
        for t in at:
            ref |= gensof(t)
        for n, args in st.calls.values():
            for a in args:
                ref |= gensof(a)
        for k, v in st.clob.items():
            if v not in ref:
                z = _zkey(k)
                if z not in ref:
                    st.clob[k] = z
        st.zref = frozenset(x for x in ref if isinstance(x, tuple) and x[0] == "z")

    def invariants(self, st, hd, unst):
        """linear equalities over the loop variables which hold again after this round"""
        phis = {("phi", i) for i in unst}
        body = self.fn.loopids(hd)
        out = []
        for f, v in st.facts.items():
            if v[0] == v[1] and f[0] == "lin" and any(a in phis for a, _ in f[2]):
                if any(a not in phis and (refs(a) & body or has_old(a)) for a, _ in f[2]):
                    continue
                t = C(0)
                for a, k in f[2]:
                    t = add(t, unst[a[1]] if a in phis else a, k)
                if self.interval(st, t, 2) == (v[0], v[0]):
                    out.append(add(f, C(-v[0])))
        eqs = [add(f, C(-v[0])) for f, v in st.facts.items() if v[0] == v[1] and f[0] == "lin"]
        ids = sorted(unst)
        entry = [dict(e) for e in self.entryvals.get(hd, ())]
        for x in range(len(ids)):
            for y in range(x + 1, len(ids)):
                a, b = unst[ids[x]], unst[ids[y]]
                if is_bool(a) or is_bool(b):
                    continue
                for k in (1, -1):
                    d = add(a, b, k)
                    if not self.constant(st, d, ids[x], ids[y], k, entry, eqs):
                        continue
                    best = None
                    for d in [d] + self.rewrites(d, eqs):
                        r = refs(d)
                        if d[0] == "lin" and len(d[2]) > 4 or r & body or r & set(ids) or has_old(d) or undefd(d):
                            continue
                        w = sum(1 for l in leaves(d) if l[0] in ("phi", "w"))
                        if best is None or w < best[0]:
                            best = (w, d)
                    if best is not None:
                        out.append(sub(add(("phi", ids[x]), ("phi", ids[y]), k), best[1]))
        return out

    def constant(self, st, d, x, y, k, entry, eqs):
        """is this combination of two loop variables what it was before this round, or when the loop was entered?"""
        old = [add(("phi", x), ("phi", y), k)] + [add(e[x], e[y], k) for e in entry if x in e and y in e]
        for n in [d] + self.rewrites(d, eqs):
            if n in old:
                return True
        return False

    @staticmethod
    def rewrites(d, eqs):
        """d plus or minus something known to be zero"""
        out = []
        atoms = set(_parts(d)[1])
        for e in eqs:
            if len(atoms & {a for a, _ in e[2]}) >= 2:
                out.append(add(d, e))
                out.append(sub(d, e))
        return out

    def _rebase(self, st, unst, hd):
        hit = False
        res = []
        phis = {("phi", i) for i in unst}
        for x in st.auto:
            if x[0] in self.rule.cursors:
                best = None
                like = self.rule.likely(self, x[0])
                for iid, t in sorted(unst.items(), key=lambda u: u[0] not in like) if like else unst.items():
                    d = sub(x[1][1], t)
                    if is_c(t):
                        if best is None and t == x[1][1]:
                            best = ("rb", iid)
                        elif best is None and t[1] and _parts(x[1][1])[0] == t[1] and not refs(d) & self.fn.loopids(hd) and \
                                not leaves(d) & phis and not is_c(d) and not has_old(d):
                            best = add(("rb", iid), d)
                        continue
                    if is_c(d):
                        best = add(("rb", iid), d)
                        break
                    if best is None and len(_parts(d)[1]) <= 2 and not has_old(d) and not undefd(d) and \
                            not refs(d) & self.fn.loopids(hd) and not leaves(d) & phis and \
                            len(_parts(d)[1]) < len(_parts(x[1][1])[1]):
                        best = add(("rb", iid), d)
                if best is not None:
                    x = (x[0], ("T!", best)) + x[2:]
                    hit = True
            res.append(x)
        st.auto = frozenset(res)
        return hit

    def _unrb(self, x):
        if x[0] in self.rule.cursors:
            return (x[0], ("T!", subst(x[1][1], lambda a: ("phi", a[1]) if a[0] == "rb" else None))) + x[2:]
        return x

    def stable(self, t, o, iid=None):
        if o[0] in ("c", "s", "g", "f", "a"):
            return True
        b, off, rest = ptr_base(t)
        if b is not None and b[0] == "g" and not rest:
            g = self.mod.globals.get(b[1])
            if g and g["const"] and 0 <= off <= g["size"]:
                return True
        if is_c(t) and iid in self.fn.flagphis:
            return True
        if is_c(t) and iid in self.fn.tablephis and 0 <= t[1] <= 64:
            return True
        if t[0] == "call" and self.rule.nonzero:
            return False
        if t[0] in ("call", "alloca", "arg", "s", "g", "f", "mem", "pure", "fld"):
            return not has_old(t) and tsize(t) < 25 and not repeats(t)
        return False

    def block(self, b, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise AnalysisError("state space too large in %s" % self.fn.name)
        states = [st]
        for i in self.fn.blocks[b]:
            if i["op"] == "phi":
                continue
            nxt = []
            for s in states:
                nxt += self.instr(b, s, i)
            states = nxt
            if not states:
                return
            if len(states) > 400:
                raise AnalysisError("too many states in one block")

    def instr(self, b, st, i):
        op = i["op"]
        iid = i["id"]
        o = i["ops"]
        if op == "alloca":
            st.env[iid] = ("alloca", iid)
            return [st]
        if op == "load":
            addr = self.operand(st, o[0])
            v = self.load(st, addr)
            if i["ty"] == "i8" and v[0] == "mem":
                pass
            st.env[iid] = v
            r = self.rule.load(self, st, addr, v, i)
            return [st] if r is None else r
        if op == "store":
            addr, ks = self.resolve(st, self.operand(st, o[1]))
            r = self.rule.store(self, st, addr, self.operand(st, o[0]), i)
            sts = [st] if r is None else r
            for s in sts:
                self.fresh(s, iid)
                addr, ks = self.resolve(s, self.operand(s, o[1]))
                self.do_store(s, addr, self.operand(s, o[0]), iid, ks)
            return sts
        if op == "getelementptr":
            st.env[iid] = self.gep(st, self.operand(st, o[0]), i["path"])
            return [st]
        if op in ("sext", "zext", "bitcast", "ptrtoint", "inttoptr", "trunc", "freeze", "addrspacecast"):
            t = self.operand(st, o[0])
            if op == "trunc" and i["ty"] == "i1":
                t = t
            elif op == "trunc" and is_c(t):
                w = int(i["ty"][1:])
                n = t[1] & ((1 << w) - 1)
                if n >> (w - 1):
                    n -= 1 << w
                t = C(n)
            elif op == "zext" and is_c(t) and t[1] < 0:
                w = int(i["sty"][1:])
                t = C(t[1] & ((1 << w) - 1))
            elif op == "zext" and i["sty"] == "i8" and t[0] not in ("c",) and not is_bool(t):
                core = self.core(t)
                if core[1] is not None and core[0] == 0 and core[2] == 1:
                    self.setfact(st, t, 0, 255)
            st.env[iid] = t
            return [st]
        if op == "icmp":
            st.env[iid] = cmp_term(i["pred"], self.operand(st, o[0]), self.operand(st, o[1]))
            return [st]
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, c = self.operand(st, o[0]), self.operand(st, o[1])
            st.env[iid] = self.binop(op, a, c, i)
            return [st]
        if op == "select":
            cnd = self.operand(st, o[0])
            out = []
            for truth, k in ((True, 1), (False, 2)):
                for s in self.assume(st.copy(), cnd, truth):
                    if self.rule.branch:
                        self.rule.branch(self, s, i, cnd)
                    s.env[iid] = self.operand(s, o[k])
                    out.append(s)
            return out
        if op == "call":
            return self.call(st, i)
        if op == "br":
            succ = i["succ"]
            if len(succ) == 1:
                self.enqueue(b, succ[0], st)
                return []
            cnd = self.operand(st, o[0])
            loc = self.shortloc(i)
            for truth, s in ((True, succ[0]), (False, succ[1])):
                for ns in self.assume(st.copy(), cnd, truth):
                    ns.trace = (st.trace, "%s:%s" % (loc, "T" if truth else "F"))
                    if self.rule.branch:
                        self.rule.branch(self, ns, i, cnd)
                    self.enqueue(b, s, ns)
            return []
        if op == "switch":
            v = self.operand(st, o[0])
            rest = [st.copy()]
            cases = i["cases"]
            if v[0] == "op" and v[1].startswith("rotl") and is_c(v[3]):
                w, k = int(v[1][4:]), v[3][1]       # a switch over a sparse range
                cases = [((c & ((1 << w) - 1)) >> k | c << (w - k)) & ((1 << w) - 1) for c in cases]
                v = v[2]
            for c, s in zip(cases, i["succ"][1:]):
                for ns in self.assume(st.copy(), rel_eq(v, C(c)), True):
                    ns.trace = (st.trace, "%s:case %d" % (self.shortloc(i), c))
                    if self.rule.branch:
                        self.rule.branch(self, ns, i, rel_eq(v, C(c)))
                    self.enqueue(b, s, ns)
                nr = []
                for r in rest:
                    nr += self.assume(r, rel_eq(v, C(c)), False)
                rest = nr
            for r in rest:
                r.trace = (st.trace, "%s:default" % self.shortloc(i))
                for c in cases if self.rule.branch else ():
                    self.rule.branch(self, r, i, rel_eq(v, C(c)))
                self.enqueue(b, i["succ"][0], r)
            return []
        if op == "ret":
            v = self.operand(st, o[0]) if o else None
            self.rule.ret(self, st, v, i)
            return []
        if op == "unreachable":
            return []
        st.env[iid] = ("undef", iid)
        return [st]

    def shortloc(self, i):
        l = i.get("loc") or []
        return "%s:%d" % (l[0][0], l[0][1]) if l else "?"

    def binop(self, op, a, b, i):
        if op == "add":
            return add(a, b)
        if op == "sub":
            return sub(a, b)
        if op == "mul":
            if is_c(b):
                return mulc(a, b[1])
            if is_c(a):
                return mulc(b, a[1])
        if op == "shl" and is_c(b) and 0 <= b[1] < 63:
            return mulc(a, 1 << b[1])
        if is_c(a) and is_c(b):
            x, y = a[1], b[1]
            try:
                if op == "and":
                    return C(x & y)
                if op == "or":
                    return C(x | y)
                if op == "xor":
                    return C(x ^ y)
                if op == "lshr" and x >= 0:
                    return C(x >> y)
                if op == "ashr":
                    return C(x >> y)
                if op == "shl":
                    return C(x << y)
                if op in ("udiv", "sdiv") and y > 0 and x >= 0:
                    return C(x // y)
                if op in ("urem", "srem") and y > 0 and x >= 0:
                    return C(x % y)
            except ValueError:
                pass
        ty = i["ty"]
        if ty == "i1":
            if op == "xor" and is_c(b) and b[1]:
                return neg(a)
            if op in ("and", "or"):
                if is_c(a):
                    a, b = b, a
                if is_c(b):
                    return (b if not b[1] else a) if op == "and" else (C(1) if b[1] else a)
                return (op, a, b)
        if op == "and":
            if is_c(b) and b[1] == 0 or is_c(a) and a[1] == 0:
                return C(0)
            if is_c(b) and b[1] == -1:
                return a
        if op == "or":
            if is_c(b) and b[1] == 0:
                return a
            if is_c(a) and a[1] == 0:
                return b
            # flatten: set of or-ed parts
            parts = set()
            for x in (a, b):
                if x[0] == "ors":
                    parts |= set(x[1])
                else:
                    parts.add(x)
            return ("ors", tuple(sorted(parts, key=repr)))
        return ("op", op, a, b)

    def call(self, st, i):
        iid = i["id"]
        self.events += 1
        args = tuple(self.operand(st, x) for x in i["ops"])
        fptr = None
        name, key = i.get("fn"), i.get("callee")
        if name is None:
            fptr = self.operand(st, i["ptr"])
            if fptr[0] == "f":
                key = fptr[1]
                f = self.mod.raw.get(key)
                name = f["name"] if f else key
            else:
                name = "*"
        pure = name in PURE or name in self.rule.pure_extra
        if name == "__errno_location":
            res = ("errno", st.clob.get(("E",), -1))
        elif pure:
            res = ("pure", name, args, self.pgens(st, args))
        else:
            if self.rule.before:
                self.rule.before(self, st, Call(name, key, args, None, i, fptr))
            self.fresh(st, iid)
            args = tuple(self.operand(st, x) for x in i["ops"])
            if fptr is not None:
                fptr = self.operand(st, i["ptr"])
            res = ("call", iid)
        if name and name.startswith(("llvm.umax.", "llvm.umin.", "llvm.smax.", "llvm.smin.")):
            out = []
            for truth in (True, False):
                for s in self.assume(st.copy(), cmp_term(("ule" if name[5] == "u" else "sle"), args[0], args[1]), truth):
                    s.env[iid] = args[0] if truth == (name[6:9] == "min") else args[1]
                    out.append(s)
            return out
        if name and name.startswith("llvm.fshl.i") and args[0] == args[1] and is_c(args[2]):
            st.env[iid] = ("op", "rotl%s" % name[11:], args[0], args[2])
            return [st]
        c = Call(name, key, args, res, i, fptr)
        r = self.rule.call(self, st, c)
        sts = [st] if r is None else r
        if i.get("noreturn") or key in self.mod.noret:
            return []
        out = []
        for s in sts:
            if not pure:
                s.calls[iid] = (name, args)
                self.effects(s, name, key, args, iid, i)
            s.env[iid] = res
            if name in ("fread", "fwrite") and is_c(args[2]):
                self.setfact(s, res, 0, args[2][1])
            r = self.rule.after(self, s, c)
            out += [s] if r is None else r
        return out

    # ---- string contents
    def content(self, st, t, depth=0):
        """what the string t points to is made of: tuple of parts"""
        if t in st.strs:
            return st.strs[t]
        if t[0] == "s":
            return (("s", t[1]),)
        if t[0] == "pure" and t[1] == "VSB_data":
            v = t[2][0]
            if v in st.strs:
                return st.strs[v]
            return (("vsb", v),)
        return (("t", t),)

    @staticmethod
    def flatten(parts):
        out = []
        for p in parts:
            if p[0] == "s" and out and out[-1][0] == "s":
                out[-1] = ("s", out[-1][1] + p[1])
            elif p[0] == "s" and p[1] == "":
                continue
            else:
                out.append(p)
        return tuple(out)

    def fmtparts(self, st, fmt, args):
        f = self.content(st, fmt)
        if len(f) != 1 or f[0][0] != "s":
            return (("nf", fmt, tuple(args)),)
        out = []
        text = f[0][1]
        args = list(args)
        pos = 0
        for m in FMT.finditer(text):
            out.append(("s", text[pos:m.start()]))
            pos = m.end()
            spec = m.group(0)
            if spec == "%%":
                out.append(("s", "%"))
                continue
            while "*" in spec and args:
                w = args.pop(0)
                spec = spec.replace("*", str(w[1]) if is_c(w) else "?", 1)
            a = args.pop(0) if args else ("undef", -3)
            if spec == "%s":
                out += list(self.content(st, a))
            elif spec[-1] in "di" and is_c(a) and spec == "%d":
                out.append(("s", str(a[1])))
            else:
                out.append(("f", spec, a))
        out.append(("s", text[pos:]))
        return self.flatten(out)

    def strfx(self, st, name, args, iid):
        """track string builders; returns the keys it has dealt with"""
        res = ("call", iid)
        S = st.strs
        if name == "VSB_new_auto" or name == "VSB_new" and len(args) > 1 and args[1] == C(0):
            S[res] = ()
        elif name == "Silo_Filename" and len(args) == 3:
            S[res] = (("silo", args[1], args[2]),)
        elif name == "strdup":
            S[res] = self.content(st, args[0])
        elif name == "VSB_cat" and args[0] in S:
            S[args[0]] = self.flatten(S[args[0]] + self.content(st, args[1]))
        elif name == "VSB_printf" and args[0] in S:
            S[args[0]] = self.flatten(S[args[0]] + self.fmtparts(st, args[1], args[2:]))
        elif name == "VSB_putc" and args[0] in S:
            S[args[0]] = self.flatten(S[args[0]] + ((("s", chr(args[1][1] & 255)),) if is_c(args[1]) else (("f", "%c", args[1]),)))
        elif name == "VSB_bcat" and args[0] in S:
            S[args[0]] = self.flatten(S[args[0]] + (("b", args[1], args[2]),))
        elif name == "VSB_clear":
            S[args[0]] = ()
        elif name in ("VSB_finish", "VSB_len", "VSB_data", "VSB_error"):
            pass
        elif name in ("VSB_delete", "VSB_destroy", "free"):
            S.pop(args[0], None)
        elif name == "snprintf":
            S[args[0]] = self.fmtparts(st, args[2], args[3:])
        elif name == "sprintf":
            S[args[0]] = self.fmtparts(st, args[1], args[2:])
        elif name in ("strcpy", "strlcpy"):
            S[args[0]] = self.content(st, args[1])
        elif name in ("strcat", "strlcat"):
            S[args[0]] = self.flatten(self.content(st, args[0]) + self.content(st, args[1]))
        else:
            outs = OUT.get(name)
            for n, a in enumerate(args):
                if a[0] in ("c", "s", "f"):
                    continue
                if outs is not None and n not in outs:
                    continue
                if a in S and a[0] == "call":
                    S[a] = (S[a] + (("ap", name, tuple(args)),))[-16:]
                    continue
                b = ptr_base(a)[0]
                for k in list(S):
                    if k == a or (b is not None and (b in prefixes(k)) and k[0] != "call"):
                        del S[k]

    def effects(self, st, name, key, args, iid, i):
        f = self.mod.raw.get(key) if key else None
        st.clob[("E",)] = iid
        self.strfx(st, name, args, iid)
        if name in ("memset",) or (name or "").startswith("llvm.memset"):
            self.clobber_under(st, args[0], iid)
            if is_c(args[1]) and args[1][1] == 0 and is_c(args[2]):
                self.zeros[iid] = (args[0], args[2][1])
            return
        if (name or "").startswith("llvm.memcpy") or (name or "").startswith("llvm.memmove"):
            self.clobber_under(st, args[0], iid)
            return
        if name == "calloc" or name == "malloc":
            return
        if name in ("bsd_getopt", "getopt"):
            for g in ("optarg", "optind"):
                self.clobber_under(st, ("g", g), iid)
            return
        if name in OUT:
            for n in OUT[name]:
                if n < len(args):
                    self.clobber_under(st, args[n], iid)
            # variadic scan-like functions are not used here
            return
        if name == "*" or f is None or f["decl"]:
            if name == "*":
                # unknown callback: may change any field some function stores to
                keys = set()
                for k in self.mod.targets(i):
                    keys |= self.mod.modset(k)
                self.clobber_keys(st, keys, iid)
            for a in args:
                if a[0] not in ("c", "s", "f"):
                    b = ptr_base(a)[0]
                    if b is not None and b[0] in ("alloca", "fld", "g"):
                        self.clobber_under(st, a, iid)
                    elif b is not None:
                        st.clob[("V", b)] = iid
            return
        keys = set(self.mod.modset(key))
        for a in args:
            if a[0] == "f":
                keys |= self.mod.modset(a[1])
        self.clobber_keys(st, keys, iid)
        types = f.get("args") or []
        for n, a in enumerate(args):
            if a[0] in ("c", "s", "f") or n < len(types) and types[n] and types[n][0] != "ptr":
                continue
            b = ptr_base(a)[0]
            if b is None:
                continue
            if b[0] == "alloca":
                self.clobber_under(st, a, iid)
            elif b[0] == "fld":
                # address of a field: the callee may write through it
                self.clobber_under(st, a, iid)
            else:
                st.clob[("V", b)] = iid


def T(t):
    """wrap a term for storage in an automaton state"""
    return ("T!", t)


def show(t, st=None, depth=0):
    """readable form of a term"""
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "s":
        return '"%s"' % t[1].replace("\r", "\\r").replace("\n", "\\n")
    if k in ("g", "f"):
        return t[1]
    if k == "fld":
        return "%s->%s" % (show(t[1], st, depth + 1), t[3])
    if k == "lin":
        return "(" + " + ".join([str(t[1])] * bool(t[1]) + [("%s" if c == 1 else "%d*%%s" % c) % show(a, st, depth + 1) for a, c in t[2]]) + ")"
    if k == "call":
        if st is not None and t[1] in st.calls and depth < 3:
            n, a = st.calls[t[1]]
            return "%s(%s)" % (n, ", ".join(show(x, st, depth + 1) for x in a))
        return "call%d" % t[1]
    if k == "mem":
        return "*%s%s" % (show(t[2], st, depth + 1), "@" + ",".join(map(str, t[1])) if t[1] else "")
    if k == "pure":
        return "%s(%s)" % (t[1], ", ".join(show(x, st, depth + 1) for x in t[2]))
    if k == "rel":
        return "%s %s 0" % (show(t[2], st, depth + 1), {"eq": "==", "le": "<=", "ule": "<=u"}[t[1]])
    if k == "not":
        return "!(%s)" % show(t[1], st, depth + 1)
    return repr(t)
