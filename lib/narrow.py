"""Flow of 64-bit quantities (offsets, sizes, counts) through the whole program,
on the helper-inlined representation: from the sources given,
through arithmetic, variables, parameters, results and structure fields, to the
places where a value is cut to fewer bits."""
from engine import Module

ARITH = {"add", "sub", "mul", "phi", "select", "sext", "zext", "bitcast", "freeze", "shl", "or", "udiv", "sdiv"}


class Flow:
    def __init__(self, prog):
        self.p = prog
        self.m = prog.m
        self.uses = {}
        self.defs = {}
        self.geps = {}
        for k, f in self.m.raw.items():
            if f["decl"]:
                continue
            u, d = {}, {}
            for b in f["blocks"]:
                for i in b:
                    d[i["id"]] = i
                    ops = [x[1] for x in i["ops"]] if i["op"] == "phi" else i["ops"]
                    for n, o in enumerate(ops):
                        if isinstance(o, (list, tuple)) and o and o[0] in ("v", "a"):
                            u.setdefault((o[0], o[1]), []).append((i, n))
            self.uses[k] = u
            self.defs[k] = d

    def field(self, k, o):
        """(struct, field) of an address operand, or the variable it is"""
        if o[0] == "v":
            i = self.defs[k].get(o[1])
            if i is not None and i["op"] == "getelementptr":
                last = [q for q in i["path"] if q[0] == "f"]
                if last and i["path"][-1][0] == "f":
                    return ("F", last[-1][1], last[-1][2])
                return None
            if i is not None and i["op"] == "alloca":
                return ("L", k, o[1])
        return None

    def loads(self):
        if not hasattr(self, "_loads"):
            self._loads = {}
            for k in self.defs:
                for i in self.defs[k].values():
                    if i["op"] == "load":
                        f = self.field(k, i["ops"][0])
                        if f is not None:
                            self._loads.setdefault(f, []).append((k, i))
        return self._loads

    def run(self, sources, cut=None):
        """sources: iterable of (function key, ("v"|"a", id)) or ("F", struct, field).
        Returns [(function key, instruction, source)] of every lossy narrowing, and the set of values reached."""
        seen = {}
        work = []
        bits = {}

        def add(x, why, w=64):
            w = min(w, 64)
            if x not in seen or bits[x] < w:
                seen.setdefault(x, why)
                bits[x] = w
                work.append(x)
        for s in sources:
            add(s, s)
        out = {}
        while work:
            x = work.pop()
            why = seen[x]
            w = bits[x]
            if x[0] == "F" or x[0] == "L":
                for k, i in self.loads().get(x, ()):
                    if i["ty"] == "i64":
                        add((k, ("v", i["id"])), why, w)
                continue
            k, v = x
            for i, n in self.uses[k].get(tuple(v), ()):
                op = i["op"]
                if op == "trunc":
                    if int(i["ty"][1:]) < w:
                        out[(k, i["id"])] = (k, i, why)
                elif op == "and" or op == "lshr" and n == 0:
                    c = [o[1] for o in i["ops"] if o[0] == "c"]
                    w2 = w
                    if c and op == "and" and c[0] >= 0:
                        w2 = min(w, c[0].bit_length())
                    elif c and op == "lshr":
                        w2 = w - c[0]
                    add((k, ("v", i["id"])), why, w2)
                elif op in ARITH:
                    if op == "select" and n == 0:
                        continue
                    w2 = 64 if op in ("mul", "shl", "sub", "sext") else w + 1 if op == "add" else w
                    if op == "add" and any(o[0] == "c" and o[1] < 0 for o in i["ops"]):
                        w2 = 64
                    if op == "phi" or op == "select":
                        w2 = w
                    add((k, ("v", i["id"])), why, w2)
                elif op == "store" and n == 0:
                    f = self.field(k, i["ops"][1])
                    if f is not None:
                        add(f, why, w)
                elif op == "call":
                    c = i.get("callee")
                    f = self.m.raw.get(c) if c else None
                    if f is not None and not f["decl"]:
                        add((c, ("a", n)), why, w)
                elif op == "ret":
                    for k2 in self.defs:
                        for j in self.defs[k2].values():
                            if j["op"] == "call" and j.get("callee") == k:
                                add((k2, ("v", j["id"])), why, w)
        return list(out.values()), seen

    def results(self, names):
        for k in self.defs:
            for i in self.defs[k].values():
                if i["op"] == "call" and i.get("fn") in names:
                    yield k, ("v", i["id"])
