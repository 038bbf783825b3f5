"""C17: both ends of the stow protocol agree on the framing.
Decoder (proto_in), on every path which returns 1:
 (a) the header was read from the descriptor given, each byte exactly once and
     behind the one before, and every read known to have returned something;
 (b) the command is in the low bits of the first byte; the two bits at its top
     (the code) are known, and for each code the number of bytes and where the
     length comes from (a constant, the second byte, or four bytes behind the
     first) are the same on all paths: this makes the table of the protocol;
     0 is returned only if nothing was read at all.
Encoder (proto_out), on every path:
 (c) what is sent is a header and, behind it, exactly the payload given, which is
     left out only if its length is known to be 0; nothing else is sent;
 (d) the first byte is the command (known to fit its bits) and one code; the table
     has this code, as many bytes as are sent, and the length it stands for is the
     length of the payload on this path: equal to the constant, at most 255 and
     stored in the second byte, or stored as four bytes.
Dispatchers (callers of proto_in): exactly as many bytes as the length are read
from the descriptor of the message, never more, before the function returns; each
command sent by code on one end (a constant) is one which the dispatcher of the
other end is known to handle and return from."""
from common import *
from c12 import bits

TITLE = "Both ends of the stow protocol agree on the framing"
ASSUMES = ["payloads are shorter than 2^32 bytes", "descriptor 0 is the one stevedore's dispatcher is registered for"]


def codes(A, st, cond, isu0):
    """values of the two top bits possible after this branch, or None if it is not about them"""
    out = None
    for t in subterms(cond):
        if t[0] != "op":
            continue
        if t[1] in ("ashr", "lshr") and t[3] == C(6) and isu0(t[2]):
            s = 0
        elif t[1] == "and" and t[3] == C(0xc0) and isu0(t[2]):
            s = 6
        else:
            continue
        k = frozenset(v for v in range(4) if A.eval(st, rel_eq(t, C(v << s))) is not False)
        out = k if out is None else out & k
    return out


class Dec(FsRule):
    constbounds = True
    cursors = frozenset(["n"])

    def __init__(self, prog):
        FsRule.__init__(self, prog)
        self.table = {}

    def start(self, A):
        return frozenset([("n", T(C(0)))])

    def isu0(self, st, t):
        b = one(st, "buf")
        return b is not None and t[0] == "mem" and t[2] == b[1][1]

    def call(self, A, st, c):
        if c.name in ("read", "recv", "readv", "pread"):
            self.site("header bytes read", c)
            self.settle(A, st, c)
            b, n = one(st, "buf"), one(st, "n")[1][1]
            if c.name != "read" or c.args[0] != ("arg", 0):
                A.report(st, c, "a header is not read from the connection")
            if b is None:
                setone(st, "buf", T(c.args[1]))
            elif not A.same(st, c.args[1], add(b[1][1], n)):
                A.report(st, c, "a byte of the header is not put behind the one before it")
        elif c.name in ("lseek", "recvmsg", "fread"):
            A.report(st, c, "the connection is used in another way")

    def settle(self, A, st, where, ok=True):
        x = one(st, "rd")
        if x is not None and ok and not A.le(st, C(1), x[1][1]):
            A.report(st, where, "whether a byte of the header was received is not known")
        droptag(st, "rd")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        if c.name == "read":
            if not A.le(st, c.res, C(1)) and not is_c(c.args[2]):
                pass
            n = one(st, "n")[1][1]
            first = n == C(0)
            setone(st, "rd", T(c.res))
            if first:
                setone(st, "first", T(c.res))
            # one byte at a time: what was read is known exactly once it is known to be positive
            setone(st, "n", T(add(n, c.args[2] if c.args[2] == C(1) else c.res)))

    def branch(self, A, st, i, cond):
        k = codes(A, st, cond, lambda t: self.isu0(st, t))
        if k is not None:
            o = one(st, "code")
            setone(st, "code", k & o[1] if o else k)
        x = one(st, "rd")
        if x is not None and A.le(st, C(1), x[1][1]):
            setone(st, "good")
            droptag(st, "rd")

    def store(self, A, st, addr, val, i):
        if addr == ("arg", 1):
            m = val[3][1] if val[0] == "op" and val[1] == "and" and is_c(val[3]) else -1
            if m & 0xc0 or m & 7 != 7 or not self.isu0(st, val[2]):
                A.report(st, i, "the command is not the low bits of the first byte")
            setone(st, "cmd")
        elif addr == ("arg", 2):
            b = one(st, "buf")
            b = b[1][1] if b else C(0)
            if is_c(val):
                r = ("const", val[1])
            elif val[0] == "mem" and val[2] == add(b, C(1)):
                r = ("byte", 2)
            elif val[0] == "pure" and val[1] == "be32dec" and val[2][0] == add(b, C(1)):
                r = ("be32", 5)
            else:
                A.report(st, i, "the length is not one of those the protocol has")
                return
            need = r[1] if r[0] != "const" else 1
            if not A.le(st, C(need), one(st, "n")[1][1]) or one(st, "rd") is not None and not A.le(st, C(1), one(st, "rd")[1][1]):
                A.report(st, i, "the length is taken from bytes which were not received")
            setone(st, "len", r)

    def ret(self, A, st, val, i):
        if A.eval(st, rel_eq(val, C(1))) is not False:
            self.site("message decoded", i)
            self.settle(A, st, i)
            l, k, n = one(st, "len"), one(st, "code"), one(st, "n")[1][1]
            if l is None or not has(st, "cmd"):
                A.report(st, i, "a message is returned without its command or length")
                return
            if k is None:
                k = ("code", frozenset(range(4)))
            h = next((h for h in range(1, 8) if A.eval(st, rel_eq(n, C(h))) is True), None)
            if h is None:
                A.report(st, i, "the number of bytes of a header is not known")
                return
            for c in k[1]:
                if self.table.setdefault(c, (h, l[1])) != (h, l[1]):
                    A.report(st, i, "headers with the same first byte are decoded in different ways")
        elif A.eval(st, rel_eq(val, C(0))) is not False:
            self.site("end of connection", i)
            f = one(st, "first")
            if f is None or A.eval(st, rel_eq(f[1][1], C(0))) is not True:
                A.report(st, i, "the connection is taken for ended though a part of a message may have been received")


class Enc(FsRule):
    def __init__(self, prog, table):
        FsRule.__init__(self, prog)
        self.table = table

    def branch(self, A, st, i, cond):
        if A.le(st, ("arg", 1), C(7)) and A.le(st, C(0), ("arg", 1)):
            setone(st, "cmdok")
        for t in subterms(cond):
            if t[0] == "op" and t[1] == "and" and t[2] == ("arg", 1) and is_c(t[3]) and t[3][1] & 0xfffffff8 == 0xfffffff8 and \
                    A.eval(st, rel_eq(t, C(0))) is True:
                setone(st, "cmdok")

    def store(self, A, st, addr, val, i):
        if ptr_base(addr)[0] is not None and ptr_base(addr)[0][0] == "alloca" and i.get("sty") == "i8":
            for x in has(st, "b"):
                if x[1][1] == addr:
                    drop(st, x)
            put(st, "b", T(addr), "byte", T(val))

    def call(self, A, st, c):
        n = c.name
        if n == "be32enc":
            put(st, "b", T(c.args[0]), "be32", T(c.args[1]))
        elif n in ("memset", "bzero", "memcpy", "be16enc", "le32enc", "le16enc", "be64enc", "le64enc"):
            for x in has(st, "b"):
                if ptr_base(x[1][1])[0] == ptr_base(c.args[0])[0]:
                    drop(st, x)
        elif n == "writev":
            self.site("message sent", c)
            if c.args[0] != ("arg", 0) or not is_c(c.args[2]):
                A.report(st, c, "a message is not sent to the connection")
                return
            for k in range(c.args[2][1]):
                a = add(c.args[1], C(16 * k)) if k else c.args[1]
                self.piece(A, st, c, A.load(st, ("fld", a, "iovec", "iov_base")), A.load(st, ("fld", a, "iovec", "iov_len")))
        elif n == "write":
            self.site("message sent", c)
            if c.args[0] != ("arg", 0):
                A.report(st, c, "a message is not sent to the connection")
            self.piece(A, st, c, c.args[1], c.args[2])
        elif n in ("send", "sendmsg", "dprintf", "fwrite", "pwrite"):
            A.report(st, c, "something else is sent")

    def piece(self, A, st, c, ptr, ln):
        if A.eval(st, rel_eq(ln, C(0))) is True:
            return
        p = one(st, "sent")
        if p is None:
            setone(st, "sent", 1)
            self.header(A, st, c, ptr, ln)
        elif p[1] == 1:
            setone(st, "sent", 2)
            if ptr != ("arg", 2) or not A.same(st, ln, ("arg", 3)):
                A.report(st, c, "what follows the header is not the payload")
        else:
            A.report(st, c, "more than a header and a payload are sent")

    def header(self, A, st, c, B, h):
        if not is_c(h):
            A.report(st, c, "the number of bytes of the header is not known")
            return
        by = {}
        for x in has(st, "b"):
            by.setdefault(x[1][1], []).append((x[2], x[3][1]))
        u0 = by.get(B)
        if u0 is None or len(u0) != 1 or u0[0][0] != "byte":
            A.report(st, c, "the first byte of the header is not known")
            return
        base, m = bits(u0[0][1])
        cmd = ("arg", 1)
        cm = None if base is None else base
        if cm is not None and cm[0] == "op" and cm[1] == "and" and is_c(cm[3]) and cm[3][1] & 7 == 7:
            cm = cm[2]
        if cm != cmd or m & 63 or not has(st, "cmdok"):
            A.report(st, c, "the first byte of the header is not the command and a code")
            return
        d = self.table.get(m >> 6)
        if m > 255 or d is None:
            A.report(st, c, "the code of the header is unknown to the decoder")
            return
        hl, r = d
        self.site("code %d" % (m >> 6), c)
        if hl != h[1]:
            A.report(st, c, "a header of %d bytes is sent, but the decoder expects %d" % (h[1], hl))
            return
        ln = ("arg", 3)
        if r[0] == "const":
            if A.eval(st, rel_eq(ln, C(r[1]))) is not True:
                A.report(st, c, "the decoder takes the length for %d, which it may not be" % r[1])
        else:
            x = by.get(add(B, C(1)), [])
            if x != [(r[0], ln)]:
                A.report(st, c, "the length sent is not the one the decoder reads")
            elif r[0] == "byte" and not A.le(st, ln, C(255)):
                A.report(st, c, "a length which may not fit one byte is sent as one")

    def ret(self, A, st, val, i):
        self.site("encoder returns", i)
        p = one(st, "sent")
        if p is None:
            A.report(st, i, "a message is not sent")
        elif p[1] == 1 and A.eval(st, rel_eq(("arg", 3), C(0))) is not True:
            A.report(st, i, "a payload is not sent")


class Disp(FsRule):
    cursors = frozenset(["got", "rem"])

    def __init__(self, prog, fn=None, fd0=True):
        FsRule.__init__(self, prog)
        self.fd0 = fd0
        self.sizes = set()
        self.cmds = set()

    def dullmem(self, addr):
        return addr in self.sizes       # what is known about it is kept by "left"

    def call(self, A, st, c):
        if c.name == "read":
            if c.args[0] != ("arg", 0) and not (self.fd0 and c.args[0] == C(0)):
                return
            self.site("payload read", c)
            if has(st, "done"):
                A.report(st, c, "the connection is read beyond the payload of a message")
            g, l = one(st, "got"), self.left(A, st)
            if one(st, "in") is None:
                A.report(st, c, "the connection is read without a message having been decoded")
                return
            z = one(st, "size")[1][1]
            r = one(st, "rem")
            if not (l is not None and A.le(st, c.args[2], l) or r is not None and A.le(st, c.args[2], r[1][1]) or g is not None and A.le(st, add(c.args[2], g[1][1]), z)):
                A.report(st, c, "more than the payload of a message may be read")

    def after(self, A, st, c):
        FsRule.after(self, A, st, c)
        n = c.name
        if n == "proto_in":
            self.site("message received", c)
            if has(st, "in"):
                A.report(st, c, "another message is decoded before the payload of the one before was read")
            if c.args[0] != ("arg", 0) and not (self.fd0 and c.args[0] == C(0)):
                A.report(st, c, "a message is not decoded from the connection")
            self.sizes.add(c.args[2])
            cm, z = A.load(st, c.args[1]), A.load(st, c.args[2])
            setone(st, "in", T(c.res))
            setone(st, "cmd", T(cm))
            setone(st, "size", T(z))
            setone(st, "got", T(C(0)))
            setone(st, "rem", T(z))
            setone(st, "left", T(c.args[2]), True)
        elif n == "read":
            g, l = one(st, "got"), one(st, "left")
            if one(st, "in") is not None and (c.args[0] == ("arg", 0) or self.fd0 and c.args[0] == C(0)):
                for t, f in (("got", add), ("rem", sub)):
                    x = one(st, t)
                    if x is not None and x[1][1][0] == "lin" and (len(x[1][1][2]) > 2 or any(abs(k) > 1 for _, k in x[1][1][2])):
                        droptag(st, t)
                    elif x is not None:
                        setone(st, t, T(f(x[1][1], c.res)))
                # what is left is what the variable for the length says, except between a read and its update
                if l is not None and l[2] is True:
                    setone(st, "left", l[1], T(sub(A.load(st, l[1][1]), c.res)))
                else:
                    droptag(st, "left")

    def left(self, A, st):
        l = one(st, "left")
        if l is None:
            return None
        return A.load(st, l[1][1]) if l[2] is True else l[2][1]

    def load(self, A, st, addr, val, i):
        l = one(st, "left")
        if l is not None and l[1][1] == addr and l[2] is True:
            return A.assume(st, rel_le0(sub(C(0), val)), True)        # no read is larger than what is left

    def store(self, A, st, addr, val, i):
        l = one(st, "left")
        if l is not None and l[1][1] == addr:
            if l[2] is not True and A.same(st, val, l[2][1]):
                setone(st, "left", l[1], True)
            else:
                droptag(st, "left")

    def complete(self, A, st):
        g, z, r = one(st, "got"), one(st, "size"), one(st, "rem")
        l = self.left(A, st)
        return z is not None and (r is not None and A.eval(st, rel_eq(r[1][1], C(0))) is True or l is not None and A.eval(st, rel_eq(l, C(0))) is True or g is not None and A.le(st, z[1][1], g[1][1]))

    def branch(self, A, st, i, cond):
        r = one(st, "rem")
        if r is not None:
            A.setfact(st, r[1][1], 0, 1 << 32)
        if not has(st, "done") and has(st, "in") and self.complete(A, st):
            setone(st, "done")

    def ret(self, A, st, val, i):
        x = one(st, "in")
        if x is None:
            return
        r = A.eval(st, rel_eq(x[1][1], C(1)))
        if r is False:
            self.site("no message", i)
            return
        if r is None:
            A.report(st, i, "whether a message was received is not known")
            return
        self.site("message handled", i)
        for v in range(8):
            if A.eval(st, rel_eq(one(st, "cmd")[1][1], C(v))) is True:
                self.cmds.add(v)
        if not has(st, "done") and not self.complete(A, st):
            A.report(st, i, "the payload of a message may not have been read completely")


def srcfile(p, k):
    for b in p.m.raw[k].get("blocks", ()):
        for i in b:
            l = p.m.fmtloc(i)
            if ":" in l:
                return l.split(":")[0].split(" ")[0]
    return "?"


def sent(p, proto):
    """file -> constant commands it sends"""
    out, odd = {}, []
    own = {}
    for k in sorted(p.m.raw):
        for b in p.m.raw[k].get("blocks", ()):
            for i in b:
                if i["op"] == "call" and i.get("fn") == proto and k != proto:
                    o = i["ops"][1]
                    if o[0] == "c":
                        own.setdefault(k, set()).add(o[1])
                    else:
                        odd.append((k, p.m.fmtloc(i)))
    f = srcfile(p, proto)
    for k in sorted(p.m.raw):
        fl = srcfile(p, k)
        s = set(own.get(k, ()))
        for b in p.m.raw[k].get("blocks", ()):
            for i in b:
                if i["op"] == "call" and i.get("fn") in own and srcfile(p, i["fn"]) == f:
                    s |= own[i["fn"]]
        if fl != f and s:
            out.setdefault(fl, set()).update(s)
    return out, odd


def run(tier):
    p = Prog()
    res = Result("C17")
    key = lambda n: p.m.named(n).key
    dec = Dec(p)
    res.run(p, key("proto_in"), dec)
    res.run(p, key("proto_out"), Enc(p, dec.table))
    res.data = getattr(res, "data", {})
    if len(dec.table) != 4:
        res.add("codes", "proto.c", "not every first byte has a meaning: %s" % sorted(dec.table), function="proto_in")
    out, odd = sent(p, key("proto_out"))
    for k, loc in odd:
        res.add("odd:" + k, loc, "the command of a message is not a constant", function=k)
    disp = {}
    for k in sorted(set(p.callers(["proto_in"]))):
        fd0 = False
        for q in sorted(p.m.raw):
            for b in p.m.raw[q].get("blocks", ()):
                for i in b:
                    if i["op"] == "call" and i.get("fn") == key("proto_add_ev") and i["ops"][2][0] == "f" and i["ops"][2][1] == k and i["ops"][0][:2] == ["c", 0]:
                        fd0 = True
        d = Disp(p, k, fd0)
        res.run(p, k, d)
        disp.setdefault(srcfile(p, k), set()).update(d.cmds)
    for f, s in sorted(out.items()):
        for g in sorted(disp):
            if g != f:
                for v in sorted(s - disp[g]):
                    res.add("cmd:%s:%d" % (f, v), f, "command %d is sent, but not handled by %s" % (v, g), function=f)
    if len(disp) != 2 or len(out) < 2:
        raise AnalysisError("C17: the two ends of the protocol were not found: %s %s" % (disp, out))
    for k, n in (("header bytes read", 2), ("message decoded", 1), ("end of connection", 1), ("message sent", 1), ("code 0", 1), ("code 1", 1),
                 ("code 2", 1), ("code 3", 1), ("message received", 2), ("payload read", 2), ("message handled", 2)):
        res.need(k, n)
    return res
