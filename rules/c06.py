"""C06: an object is committed only if its ID was not found.
In every function that commits a record with Wsilo_Commit on behalf of a
storage job, on every path:
 (a) a record is committed only after GetJob_New() looked up an ID and is
     known to have returned NULL; the first record committed is the one whose
     header that ID was taken from, under that ID, and the ID of that header
     is not changed between the lookup and the commit;
 (b) if the ID was found nothing is committed or installed, and the function
     goes through the list of segments from its head to its end and abandons
     the silo of each;
 (c) what is returned is made by Digest2Ident() from the same ID."""
from common import *

TITLE = "An object already archived is not stored again"
ASSUMES = ["GetJob_New returns NULL exactly if the ID cannot be retrieved", "Wsilo_Abandon removes the hold file and nothing else (C02)"]


def changes_id(A, st, c):
    """header whose record ID the call changes"""
    n = c.name
    if n == "Ident_Set":
        return c.args[1]
    if n == "Header_Set_Id" or n in ("Header_Set", "Header_Set_Ref", "Header_Delete") and \
            A.content(st, c.args[1]) == [("s", "WARC-Record-ID")]:
        return c.args[0]
    return None


class R06(FsRule):
    cursors = frozenset(["ab"])
    weak = frozenset(["fd"])
    walk = Walk("ab", "segjob", "segments", "segment", "list")

    def call(self, A, st, c):
        n = c.name
        h = changes_id(A, st, c)
        if h is not None:
            for x in has(st, "lk") + has(st, "id"):
                if x[2][1] is not None and not self.distinct(A, st, x[2][1], h):
                    A.report(st, c, "the ID is changed after it was %s" % ("looked up" if x[0] == "lk" else "taken to be returned"))
        if n == "GetJob_New":
            self.site("lookup", c)
            setone(st, "lk", ("T!", ("undef",)), T(hdrid(c.args[1]) or ("undef",)), T(c.args[1]))
            return None
        if n == "Wsilo_Commit":
            self.site("commit", c)
            x = one(st, "lk")
            if x is None or not A.isnull(st, x[1][1]):
                A.report(st, c, "a record is committed although its ID is not known to be missing from the archive")
            elif not has(st, "committed"):
                if not (A.same(st, c.args[2], x[3][1]) or hdrid(c.args[2]) is not None and A.same(st, hdrid(c.args[2]), x[2][1])):
                    A.report(st, c, "the first record committed does not have the ID which was looked up")
                a = c.args[0]
                if hdrid(c.args[2]) is not None and a[0] == "fld":
                    nd = A.load(st, ("fld", a[1], a[2], "hdr"))
                    if not A.same(st, nd, hdrid(c.args[2])):
                        A.report(st, c, "the record committed is not the one the ID belongs to")
            setone(st, "committed")
        elif n in ("Wsilo_Install", "IDX_Insert"):
            A.report(st, c, "%s() is called outside of the commit of a record" % n)
        elif n == "Wsilo_Abandon":
            a = c.args[0]
            x = one(st, "lk")
            if x is not None and a[0] == "fld" and a[3] == "silo":
                if has(st, "out"):
                    self.site("abandon", c)
                    droptag(st, "out")
                elif one(st, "ab") is not None and self.walk.at(A, st, a[1]):
                    self.site("abandon", c)
                    self.walk.step(A, st, a[1])
        return None

    def distinct(self, A, st, a, b):
        return a != b and A.eval(st, rel_eq(a, b)) is False

    def after(self, A, st, c):
        n = c.name
        if n == "GetJob_New":
            x = one(st, "lk")
            drop(st, x)
            put(st, "lk", T(c.res), x[2], x[3])
            droptag(st, "ab")
            droptag(st, "done")
            droptag(st, "out")
            self.walk.start(st, ("arg", 0))
        elif n == "Digest2Ident":
            setone(st, "id", T(c.res), T(hdrid(c.args[1]) or ("undef",)), T(c.args[1]))
        return None

    def store(self, A, st, addr, val, i):
        x = one(st, "lk")
        if x is None or A.isnull(st, x[1][1]) or addr != self.walk.headaddr(("arg", 0)):
            return None
        h = A.load(st, addr)
        if A.isnull(st, h) or h == val:
            return None
        self.settled(A, st, i)
        droptag(st, "ab")
        setone(st, "out")
        setone(st, "rm")
        return None

    def settled(self, A, st, i):
        """the element taken off the list before must have been dealt with by now"""
        if has(st, "out"):
            A.report(st, i, "a segment is taken off the list, but its silo may not have been abandoned")
            droptag(st, "out")

    LINKS = (("F", "segment.list", "#0"), ("F", "segjob.segments", "#0"))

    def branch(self, A, st, i, cond):
        while cond[0] == "not":
            cond = cond[1]
        x = cond[2] if cond[0] == "rel" and isinstance(cond[2], tuple) else None
        if x is not None and not A.isnull(st, x):
            x = None
        if has(st, "out") and x is not None and is_field(x, "segment", "silo"):
            droptag(st, "out")
        k = one(st, "lk")
        if k is None or has(st, "done") or A.isnull(st, k[1][1]):
            return
        if A.isnull(st, A.load(st, self.walk.headaddr(("arg", 0)))) or \
                x is not None and (x[0] == "old" and x[-1] in self.LINKS or x[0] == "mem" and memkey(x[2]) in self.LINKS or
                                  x[0] in ("phi", "w") and has(st, "rm")):
            # the end of the list
            droptag(st, "ab")
            setone(st, "done")
        if one(st, "ab") is not None:
            self.skip(A, st)
            if self.walk.atend(A, st):
                droptag(st, "ab")
                setone(st, "done")

    def skip(self, A, st):
        c = self.walk.cur(A, st)
        if c is not None and A.isnull(st, A.load(st, ("fld", c, "segment", "silo"))):
            self.walk.step(A, st, c)

    def ret(self, A, st, val, i):
        x = one(st, "lk")
        if x is None:
            A.report(st, i, "the function ends without having looked up the ID")
            return
        if not A.isnull(st, x[1][1]):
            self.site("found", i)
            if has(st, "committed"):
                A.report(st, i, "something was committed although the ID was found")
            elif has(st, "out") or not has(st, "done"):
                A.report(st, i, "the ID was found, but the segments may not all have been abandoned")
        elif not has(st, "committed"):
            A.report(st, i, "the ID was not found, but nothing was committed")
        y = one(st, "id")
        if y is None or val is None or not A.same(st, val, y[1][1]):
            A.report(st, i, "what is returned is not the ID of the object")
        elif not (y[3] == x[3] or A.same(st, y[3][1], x[3][1]) or y[2] == x[2]):
            A.report(st, i, "the ID returned is not the one looked up")


def run(tier):
    p = Prog()
    jobs = p.callers({"Wsilo_Commit"})
    res = Result("C06")

    def job(k):
        r = Result("C06")
        r.run(p, k, R06(p))
        return r
    for r in parallel(jobs, job):
        res.merge(r)
    for kind in ("lookup", "commit", "abandon", "found"):
        res.need(kind, 1)
    return res
