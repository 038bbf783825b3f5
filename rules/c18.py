"""C18: lengths controlled by a peer or a file never overrun a buffer.
Every place in the program where an array of fixed size (in a function's frame,
in a structure, or global) is filled, on every path which leads there:
 (a) calls which store up to as many bytes as they are told (read, fread, memcpy,
     memmove, snprintf, fgets, strnunvis, strlcpy ...): the place in the array
     they start at plus that number is known not to exceed the size;
 (b) the space given to zlib (next_out, avail_out) lies in the array;
 (c) single bytes are stored only at positions known to be in the array;
 (d) strings are copied or appended without a limit (strcpy, strcat, sprintf) only
     to arrays allocated for their length, or if that is known to fit.
Places in an array of a structure which the structure itself keeps between calls are
not judged, except on paths where they are known."""
from common import *
from engine import INF, _parts

TITLE = "Lengths controlled by a peer or file never overrun a buffer"
ASSUMES = ["library functions store no more than they are told to, and strings in arrays are terminated there", "pointers of unknown origin point to as much space as their users take"]
# destination, count (product of arguments)
FILL = {"read": (1, (2,)), "pread": (1, (2,)), "recv": (1, (2,)), "fread": (0, (1, 2)), "memcpy": (0, (2,)), "memmove": (0, (2,)), "memset": (0, (2,)), "bcopy": (1, (2,)),
        "snprintf": (0, (1,)), "vsnprintf": (0, (1,)), "fgets": (0, (1,)), "strnunvis": (0, (1,)), "strnunvis_netbsd": (0, (1,)), "strnunvisx": (0, (1,)), "strlcpy": (0, (2,)), "strlcat": (0, (2,)), "strncpy": (0, (2,)),
        "readlink": (1, (2,)), "getcwd": (0, (1,)), "strftime": (0, (1,)), "getline": (0, ()), "gethostname": (0, (1,)), "stpncpy": (0, (2,)), "mempcpy": (0, (2,))}
ALLOC = {"malloc": (0,), "calloc": (0, 1), "realloc": (1,)}
FIND = ("strchr", "strrchr", "strstr", "memchr", "strpbrk")
PLACE = ("alloca", "fld", "g", "call")
UNLIM = ("strcpy", "strcat", "sprintf", "vsprintf", "gets", "strunvis", "stpcpy")


def offset(off, rest):
    o = C(off)
    for a, k in rest.items():
        o = add(o, mulc(a, k))
    return o


def base(st, t):
    """ptr_base(), which does not take the result of read() for a pointer"""
    b, off, rest = ptr_base(t)
    if b is not None and b[0] == "call" and t[0] == "lin":
        for a, k in t[2]:
            if k == 1 and a != b and (a[0] == "pure" and a[1] in FIND or a[0] == "call" and st.calls.get(a[1], ("",))[0] in FIND + tuple(ALLOC)):
                rest = dict(rest)
                del rest[a]
                rest[b] = 1
                return a, off, rest
    return b, off, rest


class R18(FsRule):
    constbounds = True
    cursors = frozenset(["wp", "wn"])
    memcursors = True
    weak = frozenset(["wp", "wn"])

    def size(self, A, st, b):
        """size of the array a place is in, and its name"""
        if b[0] == "alloca":
            i = A.fn.instrs[b[1]]
            s = i["size"]
            if s >= 0:
                return C(s)
            n = A.operand(st, i["ops"][0])
            return mulc(n, i["esz"]) if n[0] != "undef" else None
        if b[0] == "fld":
            s = A.mod.structs.get(b[2])
            for f, _, n in (s or {}).get("fields", ()):
                if f == b[3]:
                    return C(n)
        if b[0] == "call":
            k = st.calls.get(b[1], ("", ()))
            if k[0] in ALLOC:
                n = C(1)
                for x in ALLOC[k[0]]:
                    v = k[1][x]
                    n = mulc(v, n[1]) if is_c(n) else mulc(n, v[1]) if is_c(v) else ("op", "mul", n, v)
                return n
        if b[0] == "g":
            g = A.mod.globals.get(b[1])
            if g and g.get("size") is not None:
                return C(g["size"])
        return None

    def excess(self, A, st, p, n):
        """size of the array, place in it and how far n bytes from there on go beyond its end at most"""
        b, off, rest = base(st, p)
        if b is None:
            return None
        f = (b[1], b[2]) if b[0] == "pure" else st.calls.get(b[1], ("", ())) if b[0] == "call" else ("", ())
        if f[0] in FIND:
            # somewhere in a string in the array: what matters is the end
            a = ptr_base(f[1][0])[0]
            s = self.size(A, st, a) if a is not None else None
            if s is None:
                return None
            e, off, rest = ptr_base(add(p, n))
            if e != a:
                # (the end of the string)
                if f[0] == "strchr" and f[1][1] == C(0):
                    e, off, rest = ptr_base(add(add(f[1][0], self.strlen(A, st, f[1][0])), add(sub(p, b), n)))
                if e != a:
                    return s, None, INF
            return s, None, A.ub(st, sub(offset(off, rest), s), 3)
        s = self.size(A, st, b)
        if s is None:
            return None
        o = offset(off, rest)
        return s, o, A.ub(st, sub(add(o, n), s), 3)

    def room(self, A, st, c, p, n, what):
        x = self.excess(A, st, p, n)
        if x is None:
            return
        s, o, k = x
        if o is None and n == C(1) and len(_parts(p)[1]) <= 1:
            return          # at, or right before or behind, what was found
        self.site(what, c)
        if n == C(0):
            return
        if o is not None and A.le(st, o, C(-1)):
            A.report(st, c, "%s: may start before the array (%s)" % (what, show(o)))
        if k > 0 and not self.inwindow(A, st, p, n) and not self.kept(p, o):
            A.report(st, c, "%s: %s from %s on may not fit in %s" % (what, show(n), show(o if o is not None else p), show(s)))

    @staticmethod
    def kept(p, o):
        """the place in an array of a structure is kept in that structure between calls: an invariant of its functions, not judged"""
        b = ptr_base(p)[0]
        if b is None or b[0] != "fld" or o is None:
            return False
        for l in leaves(o):
            f = field_of(l) or (l[0] == "w" and l[2][0] == "m" and l[2][1][0] in ("F", "fld") and l[2][1][-2:] + (None,))
            if f and f[0] == b[2]:
                return True
        return False

    def inwindow(self, A, st, p, n):
        """within what was shown to be in the array before the last read from the same stream into it"""
        a, b, k = one(st, "wp"), one(st, "wn"), one(st, "slack")
        return a and k and A.same(st, a[1][1], p) and (A.le(st, n, C(k[1])) or b and A.le(st, n, add(b[1][1], C(k[1]))))

    @staticmethod
    def plain(n):
        return n.split(".")[1] if n.startswith(("llvm.memcpy.", "llvm.memmove.", "llvm.memset.")) else n

    def before(self, A, st, c):
        nm = self.plain(c.name)
        if nm in FILL:
            d, ns = FILL[nm]
            n = C(1)
            for x in ns:
                v = c.args[x]
                n = mulc(v, n[1]) if is_c(n) else mulc(n, v[1]) if is_c(v) else ("op", "mul", n, v)
            if nm == "memmove" and c.args[1][0] == "phi" and any(l[:2] == ("pure", "strlen") and l[2][0] == c.args[1] for l in leaves(n)):
                return      # the rest of a string moved to the front
            self.room(A, st, c, c.args[d], n, nm)
            if c.name in ("read", "recv"):
                # what is left of this space after a short read may be read into
                p = c.args[1]
                if self.inwindow(A, st, p, n):
                    return
                x = self.excess(A, st, p, n)
                for t in ("wp", "wn", "slack"):
                    droptag(st, t)
                if x is not None and is_c(x[0]) and -(1 << 40) < x[2] <= 0:
                    put(st, "slack", -x[2])
        elif c.name in UNLIM:
            b, off, rest = ptr_base(c.args[0])
            if b is not None and b[0] in PLACE:
                s = self.size(A, st, b)
                if c.name in ("strcat", "strcpy", "stpcpy") and s is not None:
                    n = add(self.strlen(A, st, c.args[1]), C(1))
                    if c.name == "strcat":
                        n = add(n, self.strlen(A, st, c.args[0]))
                    self.room(A, st, c, c.args[0], n, c.name)
                else:
                    A.report(st, c, "%s() into an array" % c.name)
        elif c.name in ("inflate", "deflate"):
            z = c.args[0]
            self.room(A, st, c, A.load(st, ("fld", z, "z_stream_s", "next_out")), A.load(st, ("fld", z, "z_stream_s", "avail_out")), c.name)

    def strlen(self, A, st, p):
        if p[0] == "g":
            g = A.mod.globals.get(p[1])
            if g and g.get("const") and g.get("str") is not None:
                return C(len(g["str"]))
        if p[0] == "s":
            return C(len(p[1]))
        return ("pure", "strlen", (p,), A.pgens(st, (p,)))

    def call(self, A, st, c):
        if c.name.startswith("str") and one(st, "slack"):
            # the contents are being looked at: reading is over
            for t in ("wp", "wn", "slack"):
                droptag(st, t)
        if c.name == "strcat":
            # (the state before)
            self.sl = add(self.strlen(A, st, c.args[0]), self.strlen(A, st, c.args[1]))
        return None

    def after(self, A, st, c):
        if c.name in ("read", "pread", "recv", "fread") and c.res is not None:
            # no more than was asked for
            n = c.args[2]
            A.setfact(st, sub(c.res, n), hi=0)
            if is_c(n):
                A.setfact(st, c.res, hi=n[1])
            if c.name in ("read", "recv") and one(st, "slack"):
                setone(st, "wp", T(add(c.args[1], c.res)))
                setone(st, "wn", T(sub(n, c.res)))
        elif c.name == "strlen" and c.res is not None and c.res[0] == "pure":
            p = c.args[0]
            b, off, rest = base(st, p)
            setone(st, "sl", T(c.res))      # (keeps paths apart which differ in it)
            if b is not None and b[0] in PLACE and not p[0] == "s":
                s = self.size(A, st, b)
                if s is not None:
                    o = add(C(off + 1), c.res)
                    for a, k in rest.items():
                        o = add(o, mulc(a, k))
                    A.setfact(st, sub(o, s), hi=0)
        elif c.name == "strcat":
            A.setfact(st, sub(self.strlen(A, st, c.args[0]), self.sl), 0, 0)

    def store(self, A, st, addr, val, i):
        b, off, rest = base(st, addr)
        if rest and b is not None and (b[0] in PLACE or b[0] == "pure") and i.get("sty") == "i8":
            self.room(A, st, i, addr, C(1), "store")


def run(tier):
    p = Prog()
    jobs = [k for k in p.entries() if not (p.m.raw[k].get("file") or "").startswith(("vsb", "vas", "vnum", "vlu"))]
    res = Result("C18")

    def job(k):
        r = Result("C18")
        r.run(p, k, R18(p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    res.need("read", 1)
    res.need("store", 1)
    return res
