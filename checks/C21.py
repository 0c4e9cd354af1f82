"""C21: colour files give back every thread colour in order."""
from . import gen as G

ASSUMPTIONS = [
    "INF texts hold no NUL character (the format ends a text with NUL); longer ones than 0x7000 bytes come back cut",
    "fewer than 2**31 threads (a 32-bit count)",
    "Python's utf8 codec gives a text back from its encoded form, and decoding a cut form with 'ignore' gives a prefix",
    "readline of a file opened as text gives one line with its end",
]
RULE = "random thread lists through EDR, COL and INF, by stream and by file; non-trivial = distinct list"
BUDGET = 15
KNOWN = []


def o_colours(case):
    from pyvc.concrete import Violation

    f = case["f"]
    p = G.build(case)
    if case.get("file"):
        d, q = G.via_file(f, p)
    else:
        d, _ = G.write(f, p, {})
        q = G.read(f, d)
    if len(q.threadlist) != len(p.threadlist):
        raise Violation("%s: %d threads come back as %d" % (f, len(p.threadlist), len(q.threadlist)))
    for i, (a, b) in enumerate(zip(p.threadlist, q.threadlist)):
        if a.color & 0xFFFFFF != b.color & 0xFFFFFF:
            raise Violation("%s: colour %d, %06x, comes back as %06x" % (f, i, a.color & 0xFFFFFF, b.color))
        if f == "inf":
            for n in ("description", "chart"):
                u, v = getattr(a, n), getattr(b, n)
                if u is None:
                    continue
                if len(u.encode("utf8")) <= 0x7000 and u != v or len(u.encode("utf8")) > 0x7000 and not u.startswith(v or ""):
                    raise Violation("inf: the %s of thread %d, %r, comes back as %r" % (n, i, u[:60], v if v is None else v[:60]))


def concrete(run):
    r = run.rng
    for f in ("edr", "col", "inf"):
        for n in (0, 1, 2, 3, 9, 10, 11, 100, 255, 256, 257, 300, 1000):
            run.case(o_colours, {"f": f, "s": [], "t": [(i * 0x010203 + n) & 0xFFFFFF for i in range(n)]}, "counts")
        run.case(o_colours, {"f": f, "s": [], "t": [c << k for k in (0, 8, 16) for c in range(256)]}, "every-component")
        for t in ("", "a", "x" * 255, "x" * 256, "x" * 28672, "x" * 28673, "\u00e9" * 14336, "\u00e9" * 20000, "\u4e2d\u65e5", "\U0001f9f5"):
            for u in ("", "b", "x" * 28672, "\u4e2d"):
                run.case(o_colours, {"f": f, "s": [], "t": [[0x010203, {"description": t, "chart": u}], [0xFF, {"description": u}], [7, {"chart": t}]]}, "texts")
    while run.more() and run.evals < 40000:
        f = r.choice(("edr", "col", "inf"))
        t = []
        for _ in range(r.choice((0, 1, 2, 8, 40))):
            t.append([r.randrange(1 << 24) | r.choice((0, 0, 0xFF000000)), {k: G.text(r) for k in ("description", "chart", "brand", "catalog_number") if r.random() < 0.5}])
        run.case(o_colours, {"f": f, "s": [[0, 0, 0]] if r.random() < 0.3 else [], "t": t, "file": r.random() < 0.2})


# ------------------------------------------------------------------ contracts
class Text(object):
    """a text about which nothing is known but that it holds no NUL; `data` is
    its utf8 form"""

    __vc_ghost__ = True

    def __init__(self, c, name, data=None):
        from pyvc.runtime import FBytes
        from pyvc.sym import SymNum
        import z3

        self.c, self.name = c, name
        if data is None:
            fn = z3.Function("%s!%d" % (name, len(c.keep)), z3.IntSort(), z3.IntSort())
            n = c.int("len_" + name, lo=0, inp=True)

            def at(k):
                from pyvc.sym import num

                v = fn(num(k))
                c.assume(z3.And(v >= 1, v <= 255))
                return (SymNum(v),)

            data = FBytes(name, n, at)
            c.keep.append(data)
        data.decoder = self.decode
        self.data = data

    def encode(self, *a):
        from pyvc.core import Unsupported

        if a and str(a[0]).lower().replace("-", "") != "utf8":
            raise Unsupported("another encoding")
        return self.data

    vc_encode = encode

    def decode(self, b, *a):
        """Python's codec: the whole utf8 form gives the text back; a cut form
        with `ignore` gives the characters that are complete in it"""
        from pyvc.core import Unsupported
        from pyvc.runtime import FBytes
        from pyvc.sym import num
        import z3

        c = self.c
        if b is self.data:
            return self
        part = b.part
        if part is None or part[0] is not self.data or b.log or self.data.log:
            raise Unsupported("decode of other bytes")
        lo, hi = num(part[1]), num(part[2])
        if c.branch(z3.And(lo == 0, hi == num(self.data.n))):
            return self
        if "ignore" not in a or not c.branch(lo == 0):
            raise Unsupported("decode of a cut text")
        m = c.int("cut", lo=0)
        c.assume(z3.And(num(m) <= hi, num(m) > hi - 4))
        t = Text(c, self.name, self.data[:m])
        t.whole = self
        return t

    whole = None


class Out(object):
    """what the writer writes: header, one arbitrary record, trailer"""

    __vc_ghost__ = True

    def __init__(self, c):
        self.c, self.header, self.items, self.base, self.at = c, None, [], 0, None
        self.patches = {}

    def write(self, b):
        from pyvc.runtime import FBytes, SymBytes
        from pyvc.core import Unsupported

        if isinstance(b, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        if isinstance(b, FBytes):
            items = [b]
        elif isinstance(b, SymBytes):
            items = list(b.items)
        elif isinstance(b, (bytes, bytearray)):
            items = [b.decode("utf8")] if b"\xee\x80\x80" in b else list(b)
        else:
            raise Unsupported("writing %r" % type(b).__name__)
        if self.at is None:
            self.items += items
            return
        for x in items:
            self.patches[self.at] = x
            self.at += 1

    def tell(self):
        n = self.base
        for x in self.items:
            if isinstance(x, str):
                return self.c.int("tell", lo=0)
            n = n + (x.n if hasattr(x, "n") and hasattr(x, "part") else 1)
        return n

    def seek(self, pos, whence=0):
        from pyvc.core import Unsupported
        from pyvc.sym import num

        if whence == 2 and pos == 0:
            self.at = None
        elif whence == 0 and isinstance(pos, int) and self.header is not None and pos < len(self.header):
            self.at = pos
        elif whence == 0 and self.c.branch(num(pos) == num(self.tell())):
            self.at = None
        else:
            raise Unsupported("the writer seeks to a place of its own")
        return pos

    def flush(self):
        pass


class In(object):
    """the file as the reader sees it"""

    __vc_ghost__ = True

    def __init__(self, c, name, items):
        self.c, self.name = c, name
        self.load(items)

    def load(self, items):
        self.items, self.eof = list(items), False

    def left(self):
        return len(self.items)

    def total(self, items):
        n = 0
        for x in items:
            if isinstance(x, str):
                from pyvc.core import Unsupported

                raise Unsupported("text read as bytes")
            n = n + (x.n if hasattr(x, "part") else 1)
        return n

    def over(self):
        from pyvc.core import PathEnd

        self.c.prove(self.name + "/reader-stays-inside-the-record", False)
        raise PathEnd()

    def read(self, n=None):
        from pyvc.core import Unsupported
        from pyvc.runtime import mkbytes
        from pyvc.sym import num, SymNum
        import z3

        c = self.c
        if n is None:
            if not self.eof:
                self.over()
            n = self.total(self.items)
        if isinstance(n, int) and all(not hasattr(x, "part") and not isinstance(x, str) for x in self.items[:n]) and (n <= len(self.items) or self.eof):
            r, self.items = self.items[:n], self.items[n:]
            return mkbytes(r)
        t = self.total(self.items)
        if c.branch(num(n) == num(t)):
            r, self.items = self.items, []
        elif not c.branch(num(n) < num(t)):
            if not self.eof:
                self.over()
            r, self.items = self.items, []
        else:
            raise Unsupported("read of a part of the record")
        return joined(c, r)

    def readline(self, *a):
        """text mode as the library opens it: line ends are kept"""
        from pyvc.core import Unsupported

        text = ""
        while self.items and not text.endswith("\n"):
            x = self.items.pop(0)
            if isinstance(x, int):
                x = chr(x)
            if not isinstance(x, str):
                raise Unsupported("symbolic bytes read as text")
            text += x
            if "\n" in text:
                i = text.index("\n") + 1
                if text[i:]:
                    self.items.insert(0, text[i:])
                text = text[:i]
        if not text.endswith("\n") and not self.eof:
            self.over()
        return text

    def seek(self, pos, whence=0):
        from pyvc.core import Unsupported

        if whence == 1 and isinstance(pos, int) and pos >= 0:
            if pos > len(self.items) or any(hasattr(x, "part") or isinstance(x, str) for x in self.items[:pos]):
                if not self.eof:
                    self.over()
            del self.items[:pos]
            return 0
        raise Unsupported("the reader seeks to a place of its own")

    def tell(self):
        return self.c.int("rpos", lo=0)


def joined(c, items):
    """one bytes object made of single bytes and whole texts"""
    from pyvc.runtime import FBytes, pick
    from pyvc.core import Unsupported
    from pyvc.sym import num
    import z3

    segs, p = [], 0
    for x in items:
        n = x.n if hasattr(x, "part") else 1
        segs.append((x, p, p + n))
        p = p + n

    def at(k):
        v = lambda: (0,)
        for x, lo, hi in reversed(segs):
            f = (lambda x=x, lo=lo: x.at(num(k) - num(lo))) if hasattr(x, "part") else (lambda x=x: (x,))
            v = lambda f=f, hi=hi, v=v: pick(num(k) < num(hi), f, v)
        return v()

    r = FBytes("record", p, at)
    r.zeros = [lo for x, lo, hi in segs if not hasattr(x, "part") and isinstance(x, int) and x == 0]
    r.segs = segs

    def decoder(b, *a):
        if b.part is None or b.part[0] is not r or b.log or r.log:
            raise Unsupported("decode of other bytes")
        for x, lo, hi in segs:
            if hasattr(x, "part") and c.branch(z3.And(num(b.part[1]) == num(lo), num(b.part[2]) == num(hi))):
                return x.decode(*a) if x.decoder is not None else None
        return Text(c, "other")

    def finder(b, what):
        if what != 0 or b.part is not None and b.part[0] is not r:
            raise Unsupported("search in the record")
        p = c.int("found", -1)
        base = num(b.part[1]) if b.part is not None else z3.IntVal(0)
        c.assume(num(p) < num(b.n))
        for z in r.zeros:
            q = num(z) - base
            c.assume(z3.Implies(z3.And(q >= 0, q < num(b.n)), z3.And(num(p) >= 0, num(p) <= q)))
        if c.branch(num(p) >= 0):
            c.assume(num(b.at(p)[0]) == 0)
        return p

    r.decoder, r.finder = decoder, finder
    return r


class Colours(object):
    """The real writer over a thread list of arbitrary length; the header, one
    arbitrary record and what follows are given to the real reader."""

    def __init__(self, c, name, W, R, texts):
        from pyvc.runtime import SymSeq
        from .common import load

        self.c, self.name, self.W, self.R, self.texts = c, name, W, R, texts
        self.T = load("EmbThread").EmbThread
        self.P = load("EmbPattern").EmbPattern
        n = c.int("threads", 0, inp=True)
        c.assume(n < 2**31)
        self.n = n
        self.seq = SymSeq("threadlist", self.make, length=n)
        self.k = self.cur = None
        self.phase = "write"
        self.entered = False
        x = c.x
        if not hasattr(x, "patched"):
            x.patched = set()

    def thread(self):
        c = self.c
        t = self.T()
        t.color = c.int("color", -(2**31), 2**32, inp=True)
        t.description = t.chart = None
        if self.texts:
            for a in ("description", "chart"):
                if c.choose("has_" + a):
                    setattr(t, a, Text(c, a))
        return t

    def make(self, i):
        from pyvc.sym import num
        import z3

        if self.k is not None and z3.simplify(num(i) == num(self.k)).eq(z3.BoolVal(True)):
            if self.cur is None:
                self.cur = self.thread()
            return self.cur
        return self.thread()

    def over_threads(self, it):
        from pyvc.runtime import SymRange
        from pyvc.sym import num
        import z3

        base = getattr(it, "seq", it)
        if base is self.seq:
            return True
        return isinstance(it, SymRange) and it.step == 1 and z3.simplify(num(it.hi) - num(it.lo)).eq(z3.simplify(num(self.n)))

    def policy(self, site, it, loc):
        from pyvc.runtime import LoopSpec, FBytes, SymRange

        me, c, N = self, self.c, self.name
        from pyvc.sym import num
        import z3

        if self.phase == "write":
            if it is None or not self.over_threads(it):
                return None

            class Writer(LoopSpec):
                def on_entry(self, run):
                    c.prove(N + "/one-loop-over-the-threads", not me.entered)
                    me.entered = True
                    me.out.header, me.out.items = me.out.items, []

                def on_head(self, run):
                    me.out.items, me.out.base = [], c.int("base", lo=len(me.out.header))
                    me.k = run.count

                def on_elem(self, run, idx, e):
                    c.x.cover("record")

                def pre_back(self, run, env):
                    if me.cur is None:
                        c.prove(N + "/the-thread-is-written", False)
                    me.read_back(me.out.items, False)

            return Writer()
        zs = {}
        for n, v in sorted(loc.items()):
            if isinstance(v, FBytes) and not n.startswith("__vc"):
                root, lo = (v, 0) if v.part is None else v.part[:2]
                for z in getattr(root, "zeros", ()):
                    zs[(n, len(zs))] = num(z) - num(lo)
        if zs:

            class Scan(LoopSpec):
                """no byte looked at so far is NUL"""

                def pairs(self, run, vals):
                    return [(("before", n, str(i)), num(run.count) <= z) for (n, i), z in zs.items()] if run.count is not None else []

            return Scan()
        if it is None or isinstance(it, SymRange):
            if self.inside:
                return None
            self.inside = True

            class Reader(LoopSpec):
                def on_entry(self, run):
                    c.prove(N + "/header-read-exactly", me.stream.left() == 0)
                    c.prove(N + "/no-thread-before-the-records", not me.got)

                def on_head(self, run):
                    if run.count is not None:
                        c.assume(num(run.count) == num(me.n if me.last else me.k))
                    me.stream.load(me.record)
                    me.stream.eof = me.last
                    me.reached = True

                def on_back(self, run, env):
                    if me.last:
                        c.prove(N + "/nothing-read-after-the-last-record", False)
                        return
                    me.judge()

            return Reader()
        return None

    def judge(self):
        c, N, K = self.c, self.name, self.cur
        self.back = True
        c.prove(N + "/record-read-exactly", self.stream.left() == 0)
        c.prove(N + "/one-thread-per-record", len(self.got) == 1)
        if len(self.got) != 1:
            return
        t = self.got[0]
        if K is None:
            return
        a, b = t.color, K.color
        from pyvc.sym import num

        c.prove(N + "/colour", num(a & 0xFFFFFF) == num(b & 0xFFFFFF))
        for n in ("description", "chart") if self.texts else ():
            x, y = getattr(K, n), getattr(t, n)
            if x is None:
                continue
            if isinstance(y, Text) and y.whole is x:
                c.prove("%s/%s-cut-only-when-too-long" % (N, n), num(x.data.n) > 0x7000)
            else:
                c.prove("%s/%s" % (N, n), y is x)
        c.x.cover("read-back")

    def head(self):
        """the header as it is after everything is written"""
        h = list(self.out.header)
        for i in self.c.x.patched:
            if i < len(h):
                h[i] = self.out.patches.get(i, self.c.int("patched", 0, 255)) if self.last else self.c.int("patched", 0, 255)
        return h

    def read_back(self, record, last):
        from pyvc.core import PathEnd

        c, me = self.c, self
        self.phase, self.last, self.inside, self.back, self.reached = "read", last, False, False, False
        self.record, self.got = record, []
        # what was written where the header was, once everything is written
        if last:
            new = set(self.out.patches) - c.x.patched
            if new:
                c.x.patched |= new
                c.x.dirty = True
                raise PathEnd()
        self.stream = In(c, self.name, self.head() if self.out.header is not None else record)
        if self.out.header is None:
            self.stream.eof = True
            self.record = []

        class Pattern(object):
            __vc_ghost__ = True
            threadlist = me.got

            def __getattr__(self, n):
                import types

                return types.MethodType(getattr(me.P, n), self)

        ended = False
        try:
            self.R.read(self.stream, Pattern())
            ended = True
        except PathEnd:
            if not self.back:
                raise
        finally:
            self.phase = "write"
        N = self.name
        if not last:
            if ended:
                c.prove(N + "/reader-goes-on-while-records-are-left", False)
            return
        if ended:
            c.prove(N + "/no-thread-after-the-last-record", not self.got)
            c.x.cover("end")

    def go(self):
        c = self.c
        p = self.P()
        p.threadlist = self.seq
        self.out = Out(c)
        c.policy = self.policy
        self.W.write(p, self.out)
        self.k = self.cur = None
        self.read_back(self.out.items, True)
        c.x.cover("done")


def _task(fmt, texts=False):
    def t(c, _=None):
        from .common import load
        from .product import field_contract

        W, R = load(fmt + "Writer"), load(fmt + "Reader")
        undo = []
        for n, size in (("int_32be", 4), ("int_16be", 2), ("int_32le", 4), ("int_16le", 2)):
            if hasattr(W, "write_" + n) and hasattr(R, "read_" + n):
                undo.append(field_contract(c, W, R, "write_" + n, "read_" + n, size))
        try:
            Colours(c, fmt.lower(), W, R, texts).go()
        finally:
            for u in undo:
                u()

    return t


_CV = ["record", "read-back", "end", "done"]
_TH = ["EmbThread.EmbThread.get_red", "EmbThread.EmbThread.get_green", "EmbThread.EmbThread.get_blue", "EmbThread.EmbThread.set_color", "EmbThread.color_rgb", "EmbPattern.EmbPattern.add_thread"]
TASKS = {
    "edr": {"fn": _task("Edr"), "functions": ["EdrWriter.write", "EdrReader.read"] + _TH, "covers": _CV},
    "col": {"fn": _task("Col"), "functions": ["ColWriter.write", "ColReader.read", "WriteHelper.write_string_utf8"] + _TH, "covers": _CV},
    "inf": {"fn": _task("Inf", True), "functions": ["InfWriter.write", "InfWriter.patch_byte_offset", "InfReader.read", "WriteHelper.fit_utf8", "WriteHelper.write_string_utf8"] + _TH, "covers": _CV, "limit": 600, "opts": {"budget_s": 500}},
}
