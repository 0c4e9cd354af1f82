"""C19: CSV and JSON files are lossless records of a design."""
import io

from . import gen as G

ASSUMPTIONS = [
    "csv.reader undoes quoting: a line of fields between quotes, quotes inside doubled, gives the fields (Python's csv module; fields below 128 KB)",
    "json.load(json.dump(v)) == v for lists, dicts with text keys, texts, numbers and None (Python's json module)",
    "float(str(v)) == v for every finite number with magnitude below 2**53 (Python's repr round trip)",
    "metadata values that are not texts (graphics) are outside the property",
]
RULE = "designs over every defined command with every attached parameter, nasty texts in every field, through streams and files; non-trivial = distinct design"
BUDGET = 30
KNOWN = []
FIELDS = ("description", "catalog_number", "details", "brand", "chart", "weight")


def o_lossless(case):
    from pyvc.concrete import Violation

    f = case["f"]
    p = G.build(case)
    want = [list(s) for s in p.stitches]
    if case.get("file"):
        d, q = G.via_file(f, p, G.settings(case))
    else:
        d, _ = G.write(f, p, G.settings(case))
        q = G.read(f, d)
    got = [list(s) for s in q.stitches]
    if len(got) != len(want):
        raise Violation("%s: %d stitches come back as %d" % (f, len(want), len(got)))
    for i, (a, b) in enumerate(zip(want, got)):
        if a[0] != b[0] or a[1] != b[1] or a[2] != b[2]:
            raise Violation("%s: stitch %d %r comes back as %r" % (f, i, a, b))
    if len(p.threadlist) != len(q.threadlist):
        raise Violation("%s: %d threads come back as %d" % (f, len(p.threadlist), len(q.threadlist)))
    for i, (a, b) in enumerate(zip(p.threadlist, q.threadlist)):
        if a.color & 0xFFFFFF != b.color & 0xFFFFFF:
            raise Violation("%s: the colour of thread %d, %06x, comes back as %06x" % (f, i, a.color, b.color))
        for n in FIELDS:
            u, v = getattr(a, n), getattr(b, n)
            if f == "csv":
                u, v = u or None, v or None
            if u != v:
                raise Violation("%s: the %s of thread %d, %r, comes back as %r" % (f, n, i, u if u is None else u[:80], v if v is None else v[:80]))
    if p.extras != q.extras:
        for k in set(p.extras) | set(q.extras):
            if p.extras.get(k) != q.extras.get(k):
                raise Violation("%s: metadata %r, %r, comes back as %r" % (f, k, str(p.extras.get(k))[:80], str(q.extras.get(k))[:80]))


def threads(r):
    out = []
    for _ in range(r.choice((0, 1, 2, 5))):
        out.append([r.choice((0, 0xFFFFFF, r.randrange(1 << 24))), {k: G.text(r, False) for k in FIELDS if r.random() < 0.5}])
    return out


def concrete(run):
    from pyembroidery import encode_thread_change as enc

    r = run.rng
    for f in ("csv", "json"):
        for c in range(256):
            ws = [c, enc(c, 0), enc(c, 254), enc(c, None, 0), enc(c, None, 9), enc(c, None, None, 0), enc(c, 3, 4, 5), enc(c, 254, 254, 254)]
            for st in ({}, {"deltas": True}, {"displacement": True}) if f == "csv" else ({},):
                run.case(o_lossless, {"f": f, "s": [[i, -i, w] for i, w in enumerate(ws)], "t": [1], "set": st}, "every-command")
        for ch in range(1, 300):
            t = chr(ch)
            run.case(o_lossless, {"f": f, "s": [[0, 0, 0]], "t": [[5, {k: "a" + t + "b" for k in FIELDS}]], "m": {"name": t, "x" + t: "v" + t + t}}, "every-character")
        for v in (0.1, 1e-7, 123456789.123, 2 ** 53 - 1, -0.5, 1e15, 1 / 3):
            run.case(o_lossless, {"f": f, "s": [[v, -v, 0], [int(v), 5, 1]]}, "numbers")
        run.case(o_lossless, {"f": f, "s": [], "t": [], "file": True}, "file")
    while run.more() and run.evals < 60000:
        f = r.choice(("csv", "json"))
        s = []
        for _ in range(r.choice((0, 1, 3, 10, 40))):
            w = r.choice(G.ALL) if r.random() < 0.9 else r.randrange(256)
            if r.random() < 0.4:
                w = enc(w, r.choice((None, 0, 1, 254, r.randint(0, 254))), r.choice((None, 0, 1, 254, r.randint(0, 254))), r.choice((None, 0, 1, 254, r.randint(0, 254))))
            s.append([r.choice((r.randint(-9999, 9999), r.uniform(-500, 500))), r.choice((r.randint(-9999, 9999), r.uniform(-500, 500), 0.5)), w])
        m = {}
        for _ in range(r.choice((0, 1, 3))):
            m[r.choice(("name", "author", G.text(r)[:30] or "k"))] = G.text(r)
        st = {}
        if f == "csv" and r.random() < 0.3:
            st = r.choice(({"deltas": True}, {"displacement": True}, {"version": "full"}, {"version": "delta"}))
        run.case(o_lossless, {"f": f, "s": s, "t": threads(r), "m": m, "set": st, "file": r.random() < 0.25})


# ------------------------------------------------------------------ contracts
# One arbitrary entry of each sequence (stitches, threads, metadata) goes
# through the real writer's loop body and the real reader's loop body; the
# reader must add exactly that entry.  Texts are tokens about which only what
# the code does to them is known.
def _txt_class():
    from pyvc.core import Unsupported

    class Txt(str):
        """a text about which nothing is known; `ops` is what was done to it"""

        vc_txt = True
        __vc_ghost__ = True
        __hash__ = str.__hash__

        def __eq__(self, o):
            from pyvc import core

            if isinstance(o, str) and str.__eq__(self, o):
                return True
            if isinstance(o, str) and "\ue000" not in o:
                b = self.eqs.get(o)
                if b is None:
                    b = self.eqs[o] = core.CTX.bool("text_is_%r" % o)
                return b
            if o is None or not isinstance(o, str):
                return False
            return core.CTX.choose("texts agree")

        def __ne__(self, o):
            r = self.__eq__(o)
            return not r if isinstance(r, bool) else ~r if False else not bool(r)

        def replace(self, a, b, *n):
            if n:
                raise Unsupported("replace with a count")
            return make(self.c, self, self.ops + ((a, b),))

        def vc_len(self):
            if self.length is None:
                self.length = self.c.int("textlen", lo=0)
            return self.length

        def __bool__(self):
            return not bool(self == "")

    def make(c, root, ops):
        n = len(c.ph)
        t = Txt("\ue000%d\ue001" % n)
        t.c, t.ops, t.eqs, t.length = c, ops, {}, None
        t.root = root.root if root is not None else t
        c.ph.append((t, "%s"))
        return t

    def no(name):
        def f(self, *a, **k):
            raise Unsupported("%s of an unknown text" % name)

        return f

    for n in "strip lstrip rstrip split rsplit partition rpartition lower upper title startswith endswith find rfind index encode splitlines translate __getitem__ __contains__ __iter__ count isdigit casefold zfill expandtabs".split():
        setattr(Txt, n, no(n))
    return lambda c: make(c, None, ())


class Seq(object):
    """sequence of arbitrary entries; the one at the current place is kept"""

    __vc_ghost__ = True
    __vc_seq__ = True

    def __init__(self, c, name, n, make):
        self.c, self.name, self.n, self.make = c, name, n, make
        self.made = []

    def vc_len(self):
        return self.n

    def elem(self, i):
        from pyvc.sym import num
        import z3

        for j, e in self.made:
            if z3.simplify(num(i) == num(j)).eq(z3.BoolVal(True)):
                return e
        e = self.make(i)
        self.made.append((i, e))
        return e

    def index(self):
        i = self.c.int("idx", lo=0)
        self.c.assume(i < self.n)
        return i

    def __getitem__(self, i):
        from pyvc.sym import num, SymNum
        import z3
        from pyvc.core import Unsupported

        if not isinstance(i, (int, SymNum)):
            raise Unsupported("slice of " + self.name)
        if not self.c.branch(z3.And(num(i) < num(self.n), num(i) >= 0)):
            raise IndexError("list index out of range")
        return self.elem(i)

    def __bool__(self):
        return bool(self.n > 0)

    def __iter__(self):
        from pyvc.core import Unsupported

        raise Unsupported("uncontrolled iteration over " + self.name)

    def vc_map(self, fn):
        r = Seq(self.c, self.name, self.n, None)
        r.make = lambda i: fn(self.elem(i))
        r.of = self
        return r


class Extras(object):
    """the metadata of the design: any number of entries under distinct keys"""

    __vc_ghost__ = True

    def __init__(self, seq):
        self.seq = seq

    def vc_len(self):
        return self.seq.n

    def __bool__(self):
        return bool(self.seq)

    def items(self):
        return self.seq


class Dict(object):
    """a dict the code fills: what was put in it in this iteration"""

    __vc_ghost__ = True

    def __init__(self):
        self.puts, self.filled = [], None

    def __setitem__(self, k, v):
        self.puts.append((k, v))

    def vc_none(self):
        return not self.puts and self.filled is None


class Both(object):
    """focus: which sequence's entries are arbitrary; those of the other are
    one kind only (the loops over them are disjoint)"""

    def __init__(self, c, focus=None):
        self.focus = focus
        from .common import load

        self.c = c
        self.txt = _txt_class()
        self.T = load("EmbThread").EmbThread
        self.P = load("EmbPattern").EmbPattern
        self.F = load("EmbFunctions")
        n = [c.int(k, 0, inp=True) for k in ("stitches", "threads", "metadata")]
        self.stitches = Seq(c, "stitches", n[0], self.stitch)
        self.threads = Seq(c, "threadlist", n[1], self.thread)
        self.meta = Seq(c, "extras", n[2], self.entry)
        self.seqs = [self.stitches, self.threads, self.meta]

    def stitch(self, i):
        c = self.c
        if self.focus == "threads":
            return [c.real("x", inp=True), c.real("y", inp=True), 0]
        mk = c.int if c.choose("whole numbers") else c.real
        K = sorted(k for k in self.F.get_common_name_dictionary() if 0 <= k <= 255)
        for w in K:
            if c.choose("command_%d" % w):
                break
        else:
            w = c.int("command", 0, 255, inp=True)
            for k in K:
                c.assume(w != k)
        for k, name in ((8, "thread"), (16, "needle"), (24, "order")):
            w = w + c.int(name, 0, 255, inp=True) * (1 << k)
        return [mk("x", inp=True), mk("y", inp=True), w]

    def thread(self, i):
        c = self.c
        t = self.T()
        t.color = c.int("high", -128, 255, inp=True) * 2**24
        for k, n in ((16, "red"), (8, "green"), (0, "blue")):
            t.color = t.color + c.int(n, 0, 255, inp=True) * (1 << k)
        for f in FIELDS:
            setattr(t, f, self.txt(self.c) if self.focus != "stitches" and self.c.choose("has_" + f) else None)
        return t

    def entry(self, i):
        return (self.txt(self.c), self.txt(self.c) if self.c.choose("text value") else self.c.int("value", inp=True))

    def pattern(self):
        p = self.P()
        p.threadlist, p.stitches, p.extras = self.threads, self.stitches, Extras(self.meta)
        c = self.c
        p.bounds = lambda: tuple(c.real("bound") for _ in range(4))
        for k in ("count_stitches", "count_color_changes", "count_needle_sets", "count_threads", "count_trims"):
            setattr(p, k, lambda: c.int("count", lo=0))
        return p

    def which(self, it):
        from pyvc.runtime import SymRange
        from pyvc.sym import num
        import z3

        base = getattr(it, "seq", it)
        while hasattr(base, "of"):
            base = base.of
        for s in self.seqs:
            if base is s:
                return s
            if isinstance(it, SymRange) and it.step == 1 and z3.simplify(num(it.hi) - num(it.lo)).eq(z3.simplify(num(s.n))):
                return s
        return None

    # ---- what the reader did
    def out(self):
        me = self

        class Log(list):
            __vc_ghost__ = True

        class Pattern(object):
            __vc_ghost__ = True

            def __init__(self):
                self.threadlist, self.stitches, self.extras = Log(), Log(), Dict()
                self._previousX = self._previousY = 0

            def __getattr__(self, n):
                import types

                return types.MethodType(getattr(me.P, n), self)

        return Pattern()

    def effects(self, o):
        return [("stitch", x) for x in o.stitches] + [("thread", x) for x in o.threadlist] + [("meta", x) for x in o.extras.puts]

    def judge(self, N, seq, e, eff, absent):
        """the effect is exactly entry e"""
        from pyvc.sym import num
        from .common import eqv
        import z3

        c = self.c
        kind = {"stitches": "stitch", "threadlist": "thread", "extras": "meta"}[seq.name]
        c.prove("%s/%s/one-entry-each" % (N, kind), [k for k, v in eff] == [kind])
        if [k for k, v in eff] != [kind]:
            return
        v = eff[0][1]
        if kind == "stitch":
            c.prove(N + "/stitch/position", z3.And(len(v) == 3, eqv(v[0], e[0]), eqv(v[1], e[1])))
            c.prove(N + "/stitch/command-word", eqv(v[2], e[2]))
        elif kind == "thread":
            c.prove(N + "/thread/colour", eqv(v.color & 0xFFFFFF, e.color & 0xFFFFFF))
            for f in FIELDS:
                a, b = getattr(e, f), getattr(v, f)
                if a is None:
                    ok = b is None
                else:
                    ok = isinstance(b, str) and str.__eq__(a, b)
                    if absent and not ok:
                        ok = b is None and bool(a == "")
                c.prove("%s/thread/%s" % (N, f), ok)
        else:
            k, x = v
            c.prove(N + "/meta/key", isinstance(k, str) and str.__eq__(k, e[0]))
            if isinstance(e[1], str):
                c.prove(N + "/meta/value", isinstance(x, str) and str.__eq__(x, e[1]))
        c.x.cover("read-" + kind)


# -- CSV
def fields(c, name, line):
    """Python's csv module on one line: the fields, or None for a blank line"""
    import re
    from pyvc.runtime import PH

    out, p, n = [], 0, len(line)
    if not line.strip("\r\n"):
        return []
    ph = {m.start(): m for m in PH.finditer(line)}
    while True:
        parts, quoted = [], p < n and line[p] == '"'
        if quoted:
            p += 1
        while True:
            if p >= n:
                if quoted:
                    c.prove(name + "/every-quote-is-closed", False)
                    return None
                break
            if p in ph:
                m = ph[p]
                v, spec = c.ph[int(m.group(1))]
                if getattr(v, "vc_txt", False):
                    c.prove(name + "/texts-are-quoted", quoted)
                    c.prove(name + "/quotes-in-texts-are-doubled", v.ops == (('"', '""'),))
                    parts.append(v.root)
                else:
                    parts.append(m.group(0))
                p = m.end()
                continue
            ch = line[p]
            p += 1
            if quoted and ch == '"':
                if p < n and line[p] == '"':
                    parts.append('"')
                    p += 1
                    continue
                quoted = False
                continue
            if not quoted and ch in ",\r\n":
                p -= 1
                break
            parts.append(ch)
        out.append(parts[0] if len(parts) == 1 else "".join(parts))
        if p < n and line[p] == ",":
            p += 1
            continue
        c.prove(name + "/one-row-per-line", line[p:] in ("\n", "\r\n", "\r", ""))
        return out


class Lines(object):
    """what the CSV writer writes"""

    __vc_ghost__ = True

    def __init__(self):
        self.text = ""

    def write(self, b):
        if isinstance(b, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.text += bytes(b).decode("utf8")

    def take(self):
        """the lines written since, each with its end (outside quotes)"""
        t, self.text = self.text, ""
        out, cur, q = [], "", False
        for ch in t:
            cur += ch
            if ch == '"':
                q = not q
            if ch == "\n" and not q:
                out.append(cur)
                cur = ""
        return out + ([cur] if cur else [])


class Tally(object):
    """a dict the writer keeps for its own statistics: nothing is known about
    its contents but what was looked up"""

    __vc_ghost__ = True

    def __init__(self, c):
        self.c, self.has = c, []

    def known(self, k):
        import z3
        from pyvc.sym import num

        return any(z3.simplify(num(k) == num(j)).eq(z3.BoolVal(True)) for j in self.has)

    def __contains__(self, k):
        if self.known(k):
            return True
        if self.c.choose("has key"):
            self.has.append(k)
            return True
        return False

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.c.int("tally")

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        self.has.append(k)

    def vc_len(self):
        return self.c.int("keys", lo=0)

    def __bool__(self):
        return self.c.choose("any key")

    def items(self):
        c = self.c
        return Seq(c, "tally", c.int("keys", lo=0), lambda i: (c.int("key", -1, 255), c.int("tally")))


def once(c, x, run, seqs, loops):
    """the loop and what follows is verified once for all ways to reach it with
    the same values in the live variables; no path condition is kept"""
    from pyvc.runtime import signature
    from pyvc.core import PathEnd
    from pyvc.sym import num

    live, seen = run.site["live"], {}
    sig = repr([(k, signature(v, 0, seen)) for k, v in sorted(run.cur.items()) if k not in run.names and (live is None or k in live)] + [signature(run.hvals.get(k), 0, seen) for k in run.names] + [[k for q, k in loops]])
    keep = [num(s.n) >= 0 for s in seqs] + [num(run.count) >= 0, num(run.count) <= num(run.it.vc_len())]
    for s in seqs:
        e = num(s.n) == 0
        if all(q is not s for q, k in loops) and c.valid(e):
            keep.append(e)
            sig += s.name
    if not hasattr(x, "bodies") or x.bodies_of is not x.work:
        x.bodies, x.bodies_of = {}, x.work
        x.exits = {}
    if x.bodies.setdefault((run.key, sig), tuple(c.decisions)) != tuple(c.decisions):
        raise PathEnd()
    c.forget(keep)


def t_csv(c, arg):
    focus, settings = arg
    from .common import load
    from pyvc.runtime import LoopSpec, SymSeq
    from pyvc.core import PathEnd
    from pyvc.sym import num
    import csv

    c.dict_factory = lambda: Tally(c)
    W, R = load("CsvWriter"), load("CsvReader")
    N = "csv"
    d = Both(c, focus)
    x = c.x
    if not hasattr(x, "emitters"):
        x.emitters, x.exits = {}, {}
    f = Lines()
    st = {"phase": "write", "loops": []}

    def row_effect(row, judged):
        """run the real reader on this row, at an arbitrary place of the file"""
        rows = SymSeq("rows", lambda i: list(row))
        o = [None]

        class Reader(LoopSpec):
            def on_head(self, run):
                o[0].stitches[:], o[0].threadlist[:] = [], []
                o[0].extras.puts = []
                # what follows the reader's loop does not depend on the row: once
                if x.exits.setdefault(run.key, tuple(c.decisions)) != tuple(c.decisions):
                    c.assume(run.count < run.it.vc_len())
                st["reached"] = True

            def on_back(self, run, env):
                st["back"] = True
                judged(d.effects(o[0]))

        def policy(site, it, loc):
            return Reader() if getattr(it, "seq", it) is rows else None

        def reader(stream, *a, **k):
            from pyvc.core import Unsupported

            if a or any(v != {"delimiter": ",", "quotechar": '"', "doublequote": True}.get(n) for n, v in k.items()):
                raise Unsupported("csv.reader with other rules")
            return rows

        keep, old, df = c.policy, csv.reader, c.dict_factory
        c.policy, csv.reader, c.dict_factory = policy, reader, None
        st["back"] = st["reached"] = False
        o[0] = d.out()
        try:
            R.read(object(), o[0])
            ended = True
        except PathEnd:
            if not st["back"]:
                raise
            ended = False
        finally:
            c.policy, csv.reader, c.dict_factory = keep, old, df
        if ended:
            # the reader's way out: at the end of the rows, nothing added
            c.prove(N + "/reader-adds-only-in-its-loop", not d.effects(o[0]) or st["reached"])
            raise PathEnd()

    def none(eff):
        c.prove(N + "/other-rows-add-nothing", not eff)

    def flush(judged=none):
        for line in f.take():
            row = fields(c, N, line)
            if row is None:
                raise PathEnd()
            row_effect(row, judged)

    class Writer(LoopSpec):
        join = True

        def __init__(self, seq):
            self.seq = seq

        def on_entry(self, run):
            st["loops"].append((self.seq, run.key))

        def on_head(self, run):
            f.text = ""
            once(c, x, run, d.seqs, [(q, k) for q, k in st["loops"]])

        def pre_back(self, run, env):
            e = self.seq.elem(run.count - 1)
            lines = f.take()
            # which rows of this iteration carry the entry
            eff = []
            for line in lines:
                row = fields(c, N, line)
                if row is None:
                    raise PathEnd()
                row_effect(row, lambda v: eff.append(v))
            flat = [v for part in eff for v in part]
            n = len(flat)
            if x.emitters.setdefault(run.key, n > 0) != (n > 0):
                c.prove(N + "/every-entry-is-written", False)
            if n:
                d.judge(N, self.seq, e, flat, True)

    def policy(site, it, loc):
        if it is None:
            return None
        s = d.which(it)
        return Writer(s) if s is not None else None

    c.policy = policy
    W.write(d.pattern(), f, settings)
    flush()
    for s in d.seqs:
        done = [k for q, k in st["loops"] if q is s and x.emitters.get(k)]
        seen = [k for q, k in st["loops"] if q is s]
        if all(k in x.emitters for k in seen):
            c.prove("%s/%s-written-once" % (N, s.name), num(s.n) == 0 if not done else len(done) == 1)
    c.x.cover("done")


# -- JSON
def t_json(c, _=None):
    from .common import load, eqv
    from pyvc.runtime import LoopSpec, SymSeq
    from pyvc.core import PathEnd, Unsupported
    from pyvc.sym import num, SymNum
    import json

    W, R = load("JsonWriter"), load("JsonReader")
    N = "json"
    d = Both(c)
    made = []

    def new():
        from pyvc.runtime import VDict

        if st["phase"] == "write":
            r = Dict()
            made.append(r)
            return r
        return VDict()

    st = {"phase": "write"}
    c.dict_factory = new
    box = []

    def plain(v, where):
        """a value json can hold"""
        if v is None or isinstance(v, (str, int, float, SymNum)):
            return
        if isinstance(v, dict):
            c.prove(N + "/text-keys", all(isinstance(k, str) for k in v))
            for k in v:
                plain(v[k], where)
        elif isinstance(v, (list, tuple)):
            for e in v:
                plain(e, where)
        elif not isinstance(v, (Seq, Dict)):
            c.prove(N + "/values-json-can-hold", False)

    def dump(obj, f, **k):
        if set(k) - {"indent", "ensure_ascii", "separators", "sort_keys"}:
            raise Unsupported("json.dump with other rules")
        plain(obj, "top")
        box.append(obj)

    def load_(f, **k):
        if k:
            raise Unsupported("json.load with other rules")
        return box[0]

    class Meta(LoopSpec):
        """metadata entry i is in the dict under its own key"""

        def on_head(self, run):
            for m in made:
                m.puts = []
                m.filled = None

        def on_back(self, run, env):
            e = d.meta.elem(run.count - 1)
            puts = [(m, p) for m in made for p in m.puts]
            if isinstance(e[1], str):
                c.prove(N + "/meta/one-entry-each", len(puts) == 1)
            for m, (k, v) in puts:
                c.prove(N + "/meta/key", isinstance(k, str) and str.__eq__(k, e[0]))
                c.prove(N + "/meta/value", isinstance(v, str) and str.__eq__(v, e[1]) if isinstance(e[1], str) else eqv(v, e[1]))
            c.x.cover("read-meta")

        def on_leave(self, run, env):
            for m in made:
                m.filled = d.meta

    def policy(site, it, loc):
        if it is None:
            return None
        if st["phase"] == "write":
            return Meta() if d.which(it) is d.meta else None
        s = d.which(it)
        if s is None:
            return None

        class Reader(LoopSpec):
            def on_entry(self, run):
                st["loops"].append(s)
                c.prove(N + "/nothing-added-outside-the-loops", not d.effects(o))

            def on_head(self, run):
                o.stitches[:], o.threadlist[:] = [], []

            def pre_back(self, run, env):
                d.judge(N, s, s.elem(run.count - 1), d.effects(o), False)

        return Reader()

    jd, jl = json.dump, json.load
    json.dump, json.load = dump, load_
    c.policy = policy
    try:
        W.write(d.pattern(), object())
        c.prove(N + "/one-document", len(box) == 1)
        st["phase"], st["loops"] = "read", []
        o = d.out()
        ups = []
        o.extras.update = lambda m: ups.append(m)
        R.read(object(), o)
    finally:
        json.dump, json.load = jd, jl
    for s in (d.stitches, d.threads):
        c.prove("%s/%s-read-once" % (N, s.name), st["loops"].count(s) == 1)
    c.prove(N + "/nothing-added-after-the-loops", not d.effects(o))
    c.prove(N + "/metadata-read", len(ups) == 1 and isinstance(ups[0], Dict) and ups[0].filled is d.meta)
    c.x.cover("done")


_CSVF = ["CsvWriter.write", "CsvWriter.csv", "CsvWriter.write_data", "CsvWriter.write_metadata", "CsvWriter.write_threads", "CsvWriter.decoded_name", "CsvReader.read"]
_COMMON = ["EmbFunctions.decode_embroidery_command", "EmbFunctions.get_common_name_dictionary", "EmbFunctions.get_command_dictionary", "EmbThread.EmbThread.hex_color", "EmbThread.EmbThread.set", "EmbThread.EmbThread.parse_string_color", "EmbThread.color_hex", "EmbPattern.EmbPattern.add_thread", "EmbPattern.EmbPattern.metadata", "EmbPattern.EmbPattern.add_stitch_absolute"]
_CV = ["read-stitch", "read-thread", "read-meta", "done"]
TASKS = {
    "json": {"fn": t_json, "functions": ["JsonWriter.write", "JsonWriter.decoded_name", "JsonReader.read", "JsonReader.decoded_command"] + _COMMON, "covers": _CV, "limit": 600, "opts": {"budget_s": 500}},
}
for _n, _f, _s, _e in (("csv:threads", "threads", None, "write_stitches"), ("csv:stitches", "stitches", None, "write_stitches"), ("csv:deltas", "stitches", {"deltas": True}, "write_stitches_deltas"), ("csv:displacement", "stitches", {"displacement": True}, "write_stitches_displacement")):
    TASKS[_n] = {"fn": t_csv, "arg": (_f, _s), "functions": _CSVF + ["CsvWriter." + _e] + _COMMON, "covers": _CV, "limit": 600, "opts": {"budget_s": 500}}
