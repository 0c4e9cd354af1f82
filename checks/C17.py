"""C17: palette matching returns the nearest colour, distinct entries when asked."""
ASSUMPTIONS = [
    "find_nearest_color_index is verified against the contract of color_distance_red_mean (a fixed function of the six components), which is discharged separately",
    "build_unique_palette: Python's set() of the thread list is taken to hold each different thread exactly once; the palette and the thread list are not changed by others meanwhile",
]
RULE = "random and boundary colours against random palettes with absent entries and the PEC, JEF, SEW and HUS palettes, own distance formula; non-trivial = distinct colour and palette"
BUDGET = 20
KNOWN = []


def dist(a, b):
    """red-mean colour distance (compuphase)"""
    r1, g1, b1 = a >> 16 & 255, a >> 8 & 255, a & 255
    r2, g2, b2 = b >> 16 & 255, b >> 8 & 255, b & 255
    m = int(round((r1 + r2) / 2))
    return ((512 + m) * (r1 - r2) ** 2 >> 8) + 4 * (g1 - g2) ** 2 + ((767 - m) * (b1 - b2) ** 2 >> 8)


def palette(case):
    from pyembroidery import EmbThread

    k = case["pal"]
    if k == "pec":
        import pyembroidery.EmbThreadPec as T

        return T.get_thread_set()
    if k == "jef":
        import pyembroidery.EmbThreadJef as T

        return T.get_thread_set()
    if k == "sew":
        import pyembroidery.EmbThreadSew as T

        return T.get_thread_set()
    if k == "hus":
        import pyembroidery.EmbThreadHus as T

        return T.get_thread_set()
    return [None if c is None else EmbThread(c) for c in k]


def threads(case):
    from pyembroidery import EmbThread

    out = []
    for i, c in enumerate(case["t"]):
        if isinstance(c, list):
            out.append(EmbThread(c[0], description=c[1]))
        else:
            out.append(EmbThread(c))
    return out


def o_palette(case):
    from pyvc.concrete import Violation
    import importlib

    E = importlib.import_module("pyembroidery.EmbThread")

    pal = palette(case)
    col = [None if t is None else t.color & 0xFFFFFF for t in pal]
    there = [i for i, c in enumerate(col) if c is not None]
    ts = threads(case)

    def nearest(c):
        return min(dist(c & 0xFFFFFF, col[i]) for i in there) if there else None

    for t in ts:
        for i in (t.find_nearest_color_index(list(pal)), E.find_nearest_color_index(t, list(pal)), E.find_nearest_color_index(t.color, list(pal))):
            if i is None:
                if there:
                    raise Violation("no palette entry is found for #%06x" % t.color)
                continue
            if i not in there:
                raise Violation("entry %r for #%06x is absent from the palette" % (i, t.color))
            if dist(t.color & 0xFFFFFF, col[i]) != nearest(t.color):
                raise Violation("entry %d (#%06x, distance %d) is given for #%06x, the nearest is at %d" % (i, col[i], dist(t.color, col[i]), t.color, nearest(t.color)))
    p2 = list(pal)
    b = E.build_palette(p2, ts)
    if len(b) != len(ts) or [x is y for x, y in zip(p2, pal)].count(False):
        raise Violation("build_palette: %d entries for %d threads, or palette changed" % (len(b), len(ts)))
    for i, t in zip(b, ts):
        if i is None and there or i is not None and (i not in there or dist(t.color & 0xFFFFFF, col[i]) != nearest(t.color)):
            raise Violation("build_palette gives #%06x entry %r" % (t.color, i))
    p2 = list(pal)
    u = E.build_unique_palette(p2, ts)
    if len(u) != len(ts):
        raise Violation("build_unique_palette: %d entries for %d threads" % (len(u), len(ts)))
    distinct = {t.color & 0xFFFFFF for t in ts}
    full = {(t.color & 0xFFFFFF, t.description) for t in ts}
    by = {}
    for i, t in zip(u, ts):
        if i is None and there or i is not None and i not in there:
            raise Violation("build_unique_palette gives #%06x entry %r, which the palette lacks" % (t.color, i))
        by.setdefault(t.color & 0xFFFFFF, set()).add(i)
    if len(full) <= len(there):
        used = {}
        for c, s in by.items():
            if len(s) != 1:
                raise Violation("build_unique_palette gives the colour #%06x the entries %r" % (c, sorted(s)))
            i = next(iter(s))
            if i in used:
                raise Violation("build_unique_palette gives #%06x and #%06x the same entry %d; %d colours, %d entries" % (c, used[i], i, len(distinct), len(there)))
            used[i] = c
        if len(distinct) == 1 and len(full) == 1 and ts:
            c = ts[0].color & 0xFFFFFF
            if dist(c, col[u[0]]) != nearest(c):
                raise Violation("build_unique_palette gives the only colour #%06x entry %d, not the nearest" % (c, u[0]))
    if len(there) < 2:
        return
    p2 = list(pal)
    n = E.build_nonrepeat_palette(p2, ts)
    if len(n) != len(ts) or [x is y for x, y in zip(p2, pal)].count(False):
        raise Violation("build_nonrepeat_palette: %d entries for %d threads, or palette changed" % (len(n), len(ts)))
    for i, t in zip(n, ts):
        if i is not None and i not in there:
            raise Violation("build_nonrepeat_palette gives entry %r, which the palette lacks" % i)


def concrete(run):
    r = run.rng
    for h in run.hints:
        v = {k.split("!")[0].split("_")[-1]: x for k, x in h.items() if isinstance(x, int)}
        if v:
            for _ in range(30):
                cs = [x for x in v.values() if 0 <= x < 1 << 24]
                if len(cs) >= 3:
                    pk = [c << 16 & 0xFF0000 | r.choice(cs) << 8 & 0xFF00 | r.choice(cs) & 255 for c in cs]
                    run.case(o_palette, {"pal": pk + [None], "t": [r.choice(pk)]}, "counterexample")
    def colour():
        return r.choice((0, 0xFFFFFF, r.randrange(1 << 24), r.randrange(1 << 24), r.choice((0, 255)) << 16 | r.choice((0, 255)) << 8 | r.choice((0, 255)), r.choice((127, 128, 1, 254)) * 0x10101))

    big = ("pec", "jef", "sew", "hus")
    while run.more() and run.evals < 60000:
        k = r.random()
        ts = [colour() for _ in range(r.choice((1, 1, 2, 3, 6, 12)))]
        if r.random() < 0.3 and ts:
            ts += [r.choice(ts) for _ in range(r.randint(1, 3))]
        if r.random() < 0.2:
            ts = [[c, "d%d" % i] if r.random() < 0.4 else c for i, c in enumerate(ts)]
        if k < 0.3:
            run.case(o_palette, {"pal": r.choice(big), "t": ts + ([colour() for _ in range(r.choice((0, 60, 70)))] if r.random() < 0.2 else [])}, "library palettes")
        else:
            pal = [None if r.random() < 0.2 else colour() for _ in range(r.choice((0, 1, 2, 3, 5, 20)))]
            fl = [c if isinstance(c, int) else c[0] for c in ts]
            for i in range(len(pal)):
                if pal[i] is not None and r.random() < 0.4:
                    c = r.choice(fl)
                    pal[i] = max(0, min(0xFFFFFF, c + r.choice((0, 1, -1, 256, -256, 65536, -65536, 0x010101))))
            run.case(o_palette, {"pal": pal, "t": ts})


# ------------------------------------------------------------------ contracts
def _spec_dist(c, r1, g1, b1, r2, g2, b2):
    from pyvc import runtime as rt

    m = rt.b_int(rt.b_round((r1 + r2) / 2))
    r, g, b = r1 - r2, g1 - g2, b1 - b2
    return (((512 + m) * r * r) >> 8) + 4 * g * g + (((767 - m) * b * b) >> 8)


def t_distance(c, _=None):
    """the red-mean formula; zero exactly for equal colours"""
    import z3
    from .common import load, eqv

    E = load("EmbThread")
    v = [c.int(n, 0, 255, inp=True) for n in ("r1", "g1", "b1", "r2", "g2", "b2")]
    d = E.color_distance_red_mean(*v)
    c.prove("color_distance_red_mean/post/formula", eqv(d, _spec_dist(c, *v)), assume_after=True)
    c.x.cover("distance")


def t_zero(c, _=None):
    """lemma over the formula: terms are non-negative and vanish only together"""
    import z3
    from .common import load

    d, m = c.int("d", -255, 255, inp=True), c.int("m", 0, 255, inp=True)
    e, k = d.e, m.e
    for n, f in (("red", 512 + k), ("blue", 767 - k)):
        t = f * e * e
        c.prove("lemma/%s-term/at-least-512-unless-equal" % n, z3.Implies(e != 0, t >= 512))
        c.prove("lemma/%s-term/zero-when-equal" % n, z3.Implies(e == 0, t == 0))
        c.prove("lemma/%s-term/positive" % n, z3.Implies(e != 0, t / 256 >= 1))
    c.prove("lemma/green-term", z3.And(4 * e * e >= 0, z3.Implies(e != 0, 4 * e * e > 0)))
    c.x.cover("lemma")


class _Pal(object):
    """a palette of any length: entry i present iff P(i), of colour C(i)"""

    def __init__(self, c, E, name):
        import z3
        from pyvc.runtime import SymSeq
        from pyvc.sym import SymNum

        I, B = z3.IntSort(), z3.BoolSort()
        self.c, self.E = c, E
        self.P = z3.Function("present_" + name, I, B)
        self.C = z3.Function("colour_" + name, I, I)
        self.n = c.int("len_" + name, lo=0)
        self.seq = SymSeq(name, self.get, length=self.n)

    def thread(self, i):
        from pyvc.sym import SymNum, num

        t = self.E.EmbThread()
        e = self.C(num(i))
        self.c.assume(e >= 0)
        self.c.assume(e <= 0xFFFFFF)
        t.color = SymNum(e)
        return t

    def get(self, i):
        from pyvc.sym import num

        if not self.c.branch(self.P(num(i))):
            return None
        return self.thread(i)


def _dist_stub(c, E):
    """contract of color_distance_red_mean: a function of the components"""
    import z3
    from pyvc.sym import SymNum, num

    I = z3.IntSort()
    F = z3.Function("red_mean", I, I, I, I, I, I, I)

    def stub(r1, g1, b1, r2, g2, b2):
        e = F(*[num(v) for v in (r1, g1, b1, r2, g2, b2)])
        c.assume(e >= 0)
        return SymNum(e)

    old = E.color_distance_red_mean
    E.color_distance_red_mean = stub
    return stub, lambda: setattr(E, "color_distance_red_mean", old)


def t_nearest(c, how):
    """loop invariant: the best entry so far is a visited present entry no
    visited present entry is nearer than, or none was present"""
    import z3
    from .common import load
    from pyvc.runtime import LoopSpec
    from pyvc.sym import num, SymNum
    import math

    E = load("EmbThread")
    pal = _Pal(c, E, "palette")
    me = E.EmbThread()
    col = c.int("find", 0, 0xFFFFFF, inp=True)
    me.color = col
    k = c.int("k", 0, inp=True)
    c.assume(k < pal.n)
    stub, undo = _dist_stub(c, E)
    kk = num(k)
    fr, fg, fb = me.get_red(), me.get_green(), me.get_blue()

    def D(i):
        t = pal.thread(i)
        return num(stub(fr, fg, fb, t.get_red(), t.get_green(), t.get_blue()))

    Dk, Pk = D(k), pal.P(kk)

    def inv(i, v, count):
        seen = z3.And(kk < num(count), Pk)
        if i is None:
            return z3.Not(seen) if isinstance(v, float) and math.isinf(v) else z3.BoolVal(False)
        if num(v) is None:
            return z3.BoolVal(False)
        e = num(i)
        return z3.And(e >= 0, e < num(pal.n), pal.P(e), num(v) == D(i), z3.Implies(seen, num(v) <= Dk))

    class Spec(LoopSpec):
        def pairs(self, run, vals):
            out = []
            ns = [n for n in vals if isinstance(n, str)]
            for a in ns:
                va = vals[a]
                if va is not None and num(va) is None or isinstance(va, float) or isinstance(va, SymNum) and not va.is_int():
                    continue
                for b in ns:
                    vb = vals[b]
                    if a == b or vb is None or (num(vb) is None and not (isinstance(vb, float) and math.isinf(vb))):
                        continue
                    out.append((("argmin", a, b), inv(va, vb, run.count)))
            return out

    try:
        c.policy = lambda site, it, loc: Spec()
        if how == "method":
            r = me.find_nearest_color_index(pal.seq)
        elif how == "thread":
            r = E.find_nearest_color_index(me, pal.seq)
        else:
            r = E.find_nearest_color_index(col, pal.seq)
    finally:
        undo()
    if r is None:
        c.x.cover("none")
        c.prove("find_nearest_color_index/none-only-when-nothing-is-present", z3.Not(Pk))
        return
    c.x.cover("found")
    e = num(r)
    c.prove("find_nearest_color_index/entry-is-in-the-palette", z3.And(e >= 0, e < num(pal.n), pal.P(e)))
    c.prove("find_nearest_color_index/no-entry-is-nearer", z3.Implies(Pk, D(r) <= Dk))


class _Setup(object):
    """threads are identified by numbers (-1: absent); colour of a thread is
    24-bit; find_nearest_color_index by its contract (proved above)"""

    def __init__(self, c, E):
        import z3
        from pyvc.sym import SymNum, num
        from pyvc.runtime import SymArr, SymSeq

        I = z3.IntSort()
        self.c, self.E = c, E
        self.col = z3.Function("colour", I, I)
        self.D = z3.Function("distance", I, I, I)
        self.N = c.int("entries", lo=0)
        self.P0 = z3.Const("palette0", z3.ArraySort(I, I))
        self.N0 = c.int("present_entries", lo=0).e
        c.assume(self.N0 <= self.N.e)
        self.facts = []  # statements about every index, used at the indices that occur
        self.pal = SymArr("palette", self.N, self.enc, self.dec, self.P0, self.N0)
        self.ghost_idx = []
        self.results = []

    def col_(self, t):
        self.c.assume(z3and(self.col(t) >= 0, self.col(t) <= 0xFFFFFF))
        return self.col(t)

    def thread(self, t):
        from pyvc.sym import SymNum

        o = self.E.EmbThread()
        self.c.assume(t >= 0)
        o.color = SymNum(self.col_(t))
        self.c.memo[id(o)] = t
        self.c.keep.append(o)
        return o

    def enc(self, v):
        import z3

        if v is None:
            return z3.IntVal(-1)
        return self.c.memo[id(v)]

    def dec(self, e):
        if self.c.branch(e == -1):
            return None
        return self.thread(e)

    def dist(self, f, t):
        """zero exactly for equal colours (tasks distance, zero)"""
        k = self.col_(t)
        d = self.D(f, k)
        self.c.assume(z3and(d >= 0, (d == 0) == (f == k)))
        return d

    def inst(self, e):
        for f in self.facts:
            self.c.assume(f(e))

    def nearest(self, find, values):
        """contract of find_nearest_color_index (instantiated at the ghost
        indices; `present` counts the entries that are not None)"""
        import z3
        from pyvc.runtime import SymArr
        from pyvc.sym import num, SymNum

        c = self.c
        if not isinstance(values, SymArr):
            from pyvc.core import Unsupported

            raise Unsupported("palette argument")
        f = num(find if not isinstance(find, self.E.EmbThread) else find.color)
        f = f % (1 << 24) if not c.valid(z3.And(f >= 0, f < 1 << 24)) else f
        n = num(values.n)
        if c.choose("nothing present"):
            c.assume(values.present == 0)
            for g in self.ghost_idx:
                c.assume(z3.Implies(z3.And(g >= 0, g < n), z3.Select(values.a, g) == -1))
            r = None
        else:
            r = c.int("nearest", 0)
            e = num(r)
            c.assume(e < n)
            at = z3.Select(values.a, e)
            c.assume(at != -1)
            c.assume(values.present >= 1)
            self.inst(e)
            for g in self.ghost_idx:
                ag = z3.Select(values.a, g)
                c.assume(z3.Implies(z3.And(g >= 0, g < n, ag != -1), self.dist(f, at) <= self.dist(f, ag)))
        self.results.append((r, values.a, values))
        return r

    def __enter__(self):
        self.old = self.E.find_nearest_color_index
        self.E.find_nearest_color_index = self.nearest
        return self

    def __exit__(self, *a):
        self.E.find_nearest_color_index = self.old


def z3and(*a):
    import z3

    return z3.And(*a)


def t_build(c, which):
    """build_palette / build_nonrepeat_palette: one entry per thread, in order"""
    import z3
    from .common import load, eqv
    from pyvc.runtime import LoopSpec, SymSeq, VList
    from pyvc.sym import num

    E = load("EmbThread")
    with _Setup(c, E) as S:
        T = z3.Function("thread", z3.IntSort(), z3.IntSort())
        threads = SymSeq("threads", lambda i: S.thread(T(num(i))))
        q = c.int("q", 0, inp=True).e
        S.ghost_idx.append(q)
        if which == "build_nonrepeat_palette":
            c.assume(S.N0 >= 1)  # an empty palette is refused (TypeError)

        class Spec(LoopSpec):
            tracked = False  # restored by each iteration (palette-unchanged)

            def on_head(self, run):
                run.lists = [v for v in run.cur.values() if isinstance(v, VList)]
                del S.results[:]

            def candidates(self, run, name, kind, v):
                # a remembered index is an entry of the palette (or nothing yet)
                if kind == "int":
                    e = num(v)
                    return [(("entry", str(name)), z3.And(e >= 0, e < num(S.N), z3.Select(S.P0, e) != -1))]
                return []

            def havoc(self, run, name, v0):
                if isinstance(v0, E.EmbThread):
                    return S.thread(c.int("some_thread", 0).e)
                return NotImplemented

            def on_back(self, run, env):
                c.x.cover("each")
                got = [v.tail() for v in run.lists if v.pre is not None]
                c.prove(which + "/one-entry-per-thread", len(got) == 1 and len(got[0]) == 1)
                r = got[0][0]
                c.prove(which + "/palette-unchanged", z3.Select(S.pal.a, q) == z3.Select(S.P0, q))
                if which == "build_palette":
                    ok = [x for x, a, v in S.results if x is r and v is S.pal and a.eq(S.P0)]
                    c.prove(which + "/each-thread-gets-its-nearest-entry", len(ok) > 0)
                if r is None:
                    if which == "build_palette":
                        c.prove(which + "/none-only-for-an-empty-palette", S.N0 == 0)
                else:
                    e = num(r)
                    c.prove(which + "/entry-is-in-the-palette", z3.And(e >= 0, e < num(S.N), z3.Select(S.P0, e) != -1))

        c.policy = lambda site, it, loc: Spec() if it is threads else None
        r = getattr(E, which)(S.pal, threads)
        c.x.cover("done")
        c.prove(which + "/as-many-entries-as-threads", eqv(r.vc_total(), threads.vc_len()))


def t_unique(c, enough):
    """distinct colours get distinct entries while entries remain: every
    different thread is put in the chart at an entry of its own, and stays; the
    nearest chart entry of a thread then has that thread's own colour"""
    import z3
    from .common import load, eqv
    from pyvc.runtime import LoopSpec, SymSeq, SymArr, VList
    from pyvc.sym import num

    E = load("EmbThread")
    I = z3.IntSort()
    with _Setup(c, E) as S:
        U = z3.Function("different_thread", I, I)
        m = c.int("different_threads", 0)
        g = c.int("g", 0, inp=True).e  # an arbitrary one of the different threads
        ut = U(g)
        c.assume(g < m.e)
        c.assume(ut >= 0)
        if enough:
            c.assume(m.e <= S.N0)
        uniq = SymSeq("different", lambda i: S.thread(U(num(i))), length=m)
        threads = SymSeq("threads", lambda i: S.thread(ut))  # that thread, wherever it occurs
        threads.vc_set = lambda: uniq
        chart = []

        def array_factory(v, n):
            c.prove("build_unique_palette/chart-length", eqv(n, S.N))
            a = SymArr("chart", n, S.enc, S.dec, z3.K(I, S.enc(v)), z3.IntVal(0))
            chart.append(a)
            return a

        c.array_factory = array_factory
        st = {}

        q = c.int("q", 0, inp=True).e  # any index

        def inv(pal, ch, count, at, q=q):
            yield "threads-left", z3.And(pal.present == S.N0 - count, pal.present >= 0, ch.present == count)
            yield "chart-within-palette", z3.Implies(z3.Select(ch.a, q) != -1, z3.Select(S.P0, q) != -1)
            yield "only-removals", z3.Implies(z3.Select(pal.a, q) != -1, z3.And(z3.Select(S.P0, q) != -1, z3.Select(ch.a, q) == -1))
            yield "placed-and-kept", z3.Implies(g < count, z3.And(at >= 0, at < num(S.N), z3.Select(ch.a, at) == ut, z3.Select(pal.a, at) == -1))

        class First(LoopSpec):
            tracked = False  # palette and chart: inv below

            def on_entry(self, run):
                c.prove("build_unique_palette/one-chart", len(chart) == 1)
                for n, e in inv(S.pal, chart[0], z3.IntVal(0), z3.IntVal(0)):
                    c.prove("build_unique_palette/inv/%s@entry" % n, e)

            def on_head(self, run):
                S.pal.a = z3.Const("pal_h", z3.ArraySort(I, I))
                S.pal.present = c.int("left").e
                chart[0].a = z3.Const("chart_h", z3.ArraySort(I, I))
                chart[0].present = c.int("placed").e
                st["at"] = c.int("at").e
                pa, ca = S.pal.a, chart[0].a
                for n, e in inv(S.pal, chart[0], num(run.count), st["at"]):
                    c.assume(e)
                S.facts[:] = [
                    lambda i: z3.Implies(z3.Select(ca, i) != -1, z3.Select(S.P0, i) != -1),
                    lambda i: z3.Implies(z3.Select(pa, i) != -1, z3.And(z3.Select(S.P0, i) != -1, z3.Select(ca, i) == -1)),
                ]
                S.inst(st["at"])
                del S.results[:]

            def on_back(self, run, env):
                c.x.cover("first")
                c.prove("build_unique_palette/one-lookup", len(S.results) == 1 and S.results[0][0] is not None)
                k = num(S.results[0][0])
                at = z3.If(g == num(run.count) - 1, k, st["at"])
                for n, e in inv(S.pal, chart[0], num(run.count), at):
                    c.prove("build_unique_palette/inv/%s@back" % n, e)

        class Second(LoopSpec):
            def on_head(self, run):
                run.lists = [v for v in run.cur.values() if isinstance(v, VList)]
                run.was = chart[0].a
                S.ghost_idx[:] = [st["at"]]
                del S.results[:]

            def on_back(self, run, env):
                c.x.cover("second")
                got = [v.tail() for v in run.lists if v.pre is not None]
                c.prove("build_unique_palette/one-entry-per-thread", len(got) == 1 and len(got[0]) == 1)
                r = got[0][0]
                c.prove("build_unique_palette/chart-fixed", chart[0].a.eq(run.was))
                if r is None:
                    c.prove("build_unique_palette/none-only-for-an-empty-palette", S.N0 == 0)
                    return
                e = num(r)
                at = z3.Select(chart[0].a, e)
                c.prove("build_unique_palette/entry-is-in-the-palette", z3.And(e >= 0, e < num(S.N), z3.Select(S.P0, e) != -1))
                if enough:
                    c.prove("build_unique_palette/entry-was-given-to-this-colour", S.col(at) == S.col(ut))

        c.policy = lambda site, it, loc: First() if it is uniq else (Second() if it is threads else None)
        r = E.build_unique_palette(S.pal, threads)
        c.x.cover("done")
        c.prove("build_unique_palette/as-many-entries-as-threads", eqv(r.vc_total(), threads.vc_len()))


_O = {"prove_ms": 20000, "budget_s": 200}
TASKS = {
    "distance": {"fn": t_distance, "functions": ["EmbThread.color_distance_red_mean"], "covers": ["distance"], "opts": _O},
    "zero": {"fn": t_zero, "functions": [], "covers": ["lemma"], "opts": _O},
}
for _h in ("int", "thread", "method"):
    TASKS["nearest:" + _h] = {"fn": t_nearest, "arg": _h, "functions": ["EmbThread.find_nearest_color_index", "EmbThread.EmbThread.find_nearest_color_index", "EmbThread.EmbThread.get_red", "EmbThread.EmbThread.get_green", "EmbThread.EmbThread.get_blue"], "covers": ["found", "none"], "opts": _O}
_O = dict(_O, use_bv=False)
for _h in ("build_palette", "build_nonrepeat_palette"):
    TASKS[_h] = {"fn": t_build, "arg": _h, "functions": ["EmbThread." + _h], "covers": ["each", "done"], "opts": _O}
for _h in (1, 0):
    TASKS["unique:" + ("enough" if _h else "any")] = {"fn": t_unique, "arg": _h, "functions": ["EmbThread.build_unique_palette"], "covers": ["first", "second", "done"], "opts": _O}
