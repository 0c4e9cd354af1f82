"""C15: trim and jump interpolation never alters stitching."""
from . import gen as G

ASSUMPTIONS = []
RULE = "every command sequence up to a length and random ones through every pass and option; non-trivial = distinct sequence and options"
BUDGET = 25
TASKS = {}
KNOWN = []


def pens(p):
    return [list(s) for s in p if s[2] & 0xFF in (G.STITCH, G.SEW_TO, G.NEEDLE_AT)]


def o_trims(case):
    """everything but JUMP is kept; TRIMs are only inserted where the needle is;
    JUMPs vanish only, when clipping, as whole stretches returning to their start"""
    from pyembroidery import EmbPattern

    p = EmbPattern()
    for s in case["s"]:
        p.add_stitch_absolute(s[2], s[0], s[1])
    src = [list(s) for s in case["s"]]
    p.interpolate_trims(case["jumps"], case["dist"], case["clip"])
    align(src, [list(s) for s in p.stitches], case)


def align(src, out, case):
    """exact alignment by search"""
    from pyvc.concrete import Violation

    n, m = len(src), len(out)
    pos = [(0, 0)] + [(s[0], s[1]) for s in src]
    seen = set()
    work = [(0, 0)]
    best = 0
    while work:
        i, j = work.pop()
        if (i, j) in seen:
            continue
        seen.add((i, j))
        best = max(best, j)
        if i == n and j == m:
            return
        if i < n and j < m and src[i] == out[j]:
            work.append((i + 1, j + 1))
        if j < m and out[j][2] == G.TRIM and (out[j][0], out[j][1]) == pos[i]:
            if i < n and src[i][2] & 0xFF == G.JUMP:
                work.append((i, j + 1))
            # a trim before jumps which were clipped away afterwards
            if i > 0 and src[i - 1][2] & 0xFF == G.JUMP:
                work.append((i, j + 1))
        if case["clip"]:
            k = i
            while k < n and src[k][2] & 0xFF == G.JUMP:
                k += 1
                if pos[k] == pos[i]:
                    work.append((k, j))
    raise Violation("interpolate_trims(%r, %r, %r): entry %d of the result, %r, is not explained by the source (%r)" % (case["jumps"], case["dist"], case["clip"], best, out[best:best + 1], src[:40]))


def o_passes(case):
    from pyvc.concrete import Violation

    src = [list(s) for s in case["s"]]
    want = pens(src)

    def pat():
        return G.build(case)

    p = pat()
    p.interpolate_stop_as_duplicate_color()
    same_but("interpolate_stop_as_duplicate_color", src, p.stitches, (G.STOP,), (G.COLOR_CHANGE,))
    p = pat()
    p.interpolate_duplicate_color_as_stop()
    same_but("interpolate_duplicate_color_as_stop", src, p.stitches, (G.COLOR_CHANGE, G.COLOR_BREAK, G.NEEDLE_SET), (G.STOP,))
    p = pat()
    p.interpolate_frame_eject()
    if pens(p.stitches) != want:
        raise Violation("interpolate_frame_eject changed the penetrations")
    q = pat().get_pattern_merge_jumps()
    if pens(q.stitches) != want:
        raise Violation("get_pattern_merge_jumps changed the penetrations")
    rest = [s for s in src if s[2] & 0xFF != G.JUMP]
    if [s for s in q.stitches if s[2] != G.STITCH_BREAK or s in rest] != rest and [list(s) for s in q.stitches if s[2] & 0xFF != G.STITCH_BREAK] != [s for s in rest if s[2] & 0xFF != G.STITCH_BREAK]:
        raise Violation("get_pattern_merge_jumps changed more than jumps")
    for k in (1, 2, 3):
        q = pat().get_pattern_interpolate_trim(k)
        if pens(q.stitches) != want:
            raise Violation("get_pattern_interpolate_trim(%d) changed the penetrations" % k)
        a = [list(s) for s in q.stitches if s[2] & 0xFF not in (G.JUMP, G.TRIM)]
        b = [s for s in src if s[2] & 0xFF not in (G.JUMP, G.TRIM)]
        if a != b:
            raise Violation("get_pattern_interpolate_trim(%d) changed more than jumps and trims" % k)


def same_but(name, a, b, frm, to):
    from pyvc.concrete import Violation

    if len(a) != len(b):
        raise Violation("%s changed the number of entries" % name)
    for i, (s, t) in enumerate(zip(a, b)):
        if list(s) != list(t):
            if not (list(s[:2]) == list(t[:2]) and s[2] & 0xFF in frm and t[2] in to):
                raise Violation("%s turned entry %d %r into %r" % (name, i, s, t))


def concrete(run):
    import itertools

    r = run.rng
    # all sequences over a small alphabet of steps
    al = [("S", 3, 0, 0), ("J", 2, 0, 1), ("J", -2, 0, 1), ("J", 0, 0, 1), ("C", 0, 0, 5), ("T", 0, 0, 2), ("P", 0, 0, 3)]
    for n in range(1, 6):
        for seq in itertools.product(al, repeat=n):
            if n == 5 and r.random() < 0.6:
                continue
            x = y = 0
            s = [[0, 0, 0]]
            for _, dx, dy, c in seq:
                x += dx
                y += dy
                s.append([x, y, c])
            s.append([x + 1, y, 0])
            run.case(o_trims, {"s": s, "jumps": r.choice((None, 1, 2, 3)), "dist": r.choice((None, None, 1, 3)), "clip": r.random() < 0.6}, "exhaustive")
            if n < 5:
                run.case(o_passes, {"s": s, "t": [1, 1, 2, 2][: r.randint(0, 4)]}, "exhaustive")
        if not run.more():
            return
    while run.more() and run.evals < 250000:
        x = y = 0
        s = []
        cm = [0, 0, 1, 1, 1, 2, 5, 3, 7, 9, 4, 6, 11, 0xE2, 0xB0, 0xB1, 0xE1, 0xE0]
        cm = r.sample(cm, 3) + [0, 1, 1] if r.random() < 0.5 else cm
        for _ in range(r.choice((1, 3, 6, 12, 40))):
            c = r.choice(cm)
            if c in (0, 1, 7, 0xB0, 0xB1):
                k = r.random()
                if k < 0.4:
                    x, y = x + r.choice((-2, 2, 0, 5, -5)), y + r.choice((-2, 2, 0))
                elif k < 0.6 and s:
                    x, y = r.choice(s)[:2]
                else:
                    x, y = x + r.randint(-60, 60), y + r.randint(-60, 60)
            if c in (0, 1, 2, 3, 5) and r.random() < 0.03:
                c |= r.randint(1, 5) << 8
            s.append([x, y, c])
        run.case(o_trims, {"s": s, "jumps": r.choice((None, 1, 2, 3, 4, 8)), "dist": r.choice((None, None, 0, 2, 3.5, 20, 100)), "clip": r.random() < 0.6})
        run.case(o_passes, {"s": s, "t": [r.choice((1, 1, 2)) for _ in range(r.randint(0, 8))]})


# ------------------------------------------------------------------ contracts
# The passes edit the list of stitches while walking over it.  The source S has
# any length and content.  At a loop head the list is: a part already passed,
# 0..I, about which only the ghost facts below are known, and the untouched
# rest, which is S from J+1 on.  One iteration takes exactly one entry of S;
# each edit the real code makes (recorded by the list) is proved legal when it
# is made, and the shape is proved again at the back edge for an arbitrary
# index.  So the result is S with nothing but legal edits, for every length.
def _pos(at, k):
    """coordinates of entry k; the origin before the first"""
    import z3
    from pyvc.runtime import pick
    from pyvc.sym import num

    return pick(num(k) < 0, lambda: (0, 0), lambda: at(k)[:2])


def _same_entry(a, b):
    import z3
    from .common import eqv

    return z3.And([eqv(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)


def _conditional(c, spec, run, vals, when, ghosts):
    """facts about locals that need only hold while `when` does"""
    import z3
    from pyvc.sym import num, pair, SymNum

    out = []
    dropped = c.x.houdini.get(run.key, ())
    for n, v in vals.items():
        if not isinstance(n, str) or isinstance(v, bool) or not isinstance(v, (int, float, SymNum)) or num(v) is None:
            continue
        for g, gv in ghosts.items():
            if ("while", n, g) in dropped:
                continue
            p = pair(v, gv)
            if p is not None:
                out.append((("while", n, g), z3.Implies(when, p[0] == p[1])))
    return out


class Walk(object):
    """the state of a walk over a list that is being edited"""

    def __init__(self, c, d, name, legal_insert, legal_delete, tail):
        self.c, self.d, self.name = c, d, name
        self.legal_insert, self.legal_delete, self.in_tail = legal_insert, legal_delete, tail
        self.S, self.nS = d.at, d.n
        self.kappa = c.int("k", inp=True)
        self.I = self.J = -1
        self.T = 0  # the entries T..I are all `in_tail`
        d.list.log = []

    def open(self):
        """an arbitrary state satisfying the invariant"""
        import z3
        from pyvc.runtime import pick
        from pyvc.sym import num, SymNum

        c, d = self.c, self.d
        self.I, self.J, self.T = c.int("I", lo=-1), c.int("J", lo=-1), c.int("T", lo=0)
        I, J, T = num(self.I), num(self.J), num(self.T)
        c.assume(J < num(self.nS))
        c.assume(T <= I + 1)
        c.n += 1
        F = [z3.Function("P%s!%d" % (m, c.n), z3.IntSort(), s) for m, s in (("x", z3.RealSort()), ("y", z3.RealSort()), ("c", z3.IntSort()))]
        S, tail = self.S, self.in_tail

        def passed(k):
            r = tuple(SymNum(f(num(k))) for f in F)
            c.assume(z3.Implies(z3.And(num(k) >= T, num(k) <= I), tail(r[2])))
            return r

        d.list.at = lambda k: pick(num(k) <= I, lambda: passed(k), lambda: S(k + (self_J - self_I)))
        self_I, self_J = self.I, self.J
        d.list.n = self.nS - (self.J - self.I)
        a, b = _pos(d.list.at, self.I), _pos(S, self.J)
        c.assume(_same_entry(a, b))
        d.list.log = []

    def take(self):
        """one iteration takes the next entry of the source"""
        import z3
        from pyvc.sym import num, wrap
        from pyvc.runtime import pick

        c = self.c
        self.I, self.J = self.I + 1, self.J + 1
        c.prove(self.name + "/takes-an-entry-of-the-source", num(self.J) < num(self.nS))
        t = self.in_tail(self.S(self.J)[2])
        self.T = wrap(z3.simplify(z3.If(t, z3.If(num(self.T) <= num(self.I), num(self.T), num(self.I)), num(self.I) + 1)))

    def edits(self):
        import z3
        from pyvc.sym import num, wrap

        c = self.c
        log, self.d.list.log = self.d.list.log, []
        for op, a, b, at in log:
            if op == "insert":
                c.x.cover("insert")
                c.prove(self.name + "/inserted-among-the-entries-passed", z3.And(num(a) >= 0, num(a) <= num(self.I) + 1))
                self.legal_insert(self, a, b, at)
                self.T = wrap(z3.simplify(z3.If(num(a) <= num(self.T), num(self.T) + 1, z3.If(self.in_tail(b[2]), num(self.T), num(a) + 1))))
                self.I = self.I + 1
            elif op == "delete":
                c.x.cover("delete")
                c.prove(self.name + "/removes-entries-passed", z3.And(num(a) >= 0, num(b) <= num(self.I) + 1, num(a) <= num(b)))
                self.legal_delete(self, a, b, at)
                self.T = wrap(z3.simplify(z3.If(num(b) <= num(self.T), num(self.T) - (num(b) - num(a)), z3.If(num(a) < num(self.T), num(a), num(self.T)))))
                self.I = self.I - (b - a)
            else:
                c.prove(self.name + "/no-entry-changed", False)

    def back_one(self):
        """the code is going to look at the last entry once more"""
        import z3
        from pyvc.sym import num, wrap

        self.c.x.cover("again")
        self.I, self.J = self.I - 1, self.J - 1
        self.T = wrap(z3.simplify(z3.If(num(self.T) > num(self.I) + 1, num(self.I) + 1, num(self.T))))

    def shape(self, where):
        import z3
        from pyvc.sym import num

        c, d, k = self.c, self.d, self.kappa
        I, J = num(self.I), num(self.J)
        n = self.name + "/" + where
        c.prove(n + "/length", num(d.list.n) == num(self.nS) - (J - I))
        now, src = d.list.at(k), self.S(k + (self.J - self.I))
        c.prove(n + "/rest-untouched", z3.Implies(z3.And(num(k) > I, num(k) < num(d.list.n)), _same_entry(now, src)))
        c.prove(n + "/tail", z3.And(num(self.T) >= 0, num(self.T) <= I + 1, z3.Implies(z3.And(num(k) >= num(self.T), num(k) <= I), self.in_tail(now[2]))))
        c.prove(n + "/bounds", z3.And(I >= -1, J >= -1, J < num(self.nS)))

    def position(self, where):
        self.c.prove("%s/%s/needle-where-the-source-is" % (self.name, where), _same_entry(_pos(self.d.list.at, self.I), _pos(self.S, self.J)))


def _walk_spec(c, w, position=True, pairs=None, runs=True):
    import z3
    from pyvc.runtime import LoopSpec
    from pyvc.sym import num, SymBool, SymNum, wrap

    class Spec(LoopSpec):
        tracked = False
        join = True
        rich = False

        def now(self):
            d, at = w.d, w.d.list.at
            x, y = _pos(at, w.I)
            fx, fy = _pos(at, w.T - 1)
            return x, y, fx, fy

        def ghosts(self, phase, run):
            x, y, fx, fy = self.now()
            return {"I": w.I, "next": w.I + 1, "last": w.d.list.n - 1, "len": w.d.list.n, "X": x, "Y": y, "in-tail": wrap(num(w.T) <= num(w.I))}

        def pairs(self, run, vals):
            x, y, fx, fy = self.now()
            out = _conditional(c, self, run, vals, num(w.T) <= num(w.I), {"T": w.T})
            # while a run lasts: its displacement
            at, dropped = w.d.list.at, c.x.houdini.get(run.key, ())
            I, T = num(w.I), num(w.T)

            def real(e):
                return z3.ToReal(e) if e.is_int() else e

            seen, start, within = {}, {}, {}

            def there(m2, e2, ax):
                """where the needle is before entry m2"""
                if m2 not in seen:
                    p = _pos(at, SymNum(e2) - 1)
                    seen[m2] = [real(num(q)) for q in p]
                    within[m2] = z3.And(e2 >= 0, e2 <= I + 1)
                return seen[m2][ax]

            def since(m, e, m2, e2, ax, here):
                k = m, m2, ax
                if k not in start:
                    start[k] = there(m2, e2, ax) + real(e) == real(num(here))
                return start[k]

            def claim(f, m, m2, e, e2, ax, here):
                q = since(m, e, m2, e2, ax, here)
                return z3.Implies(z3.And(f, within[m2]), q)

            named = [(n, v) for n, v in vals.items() if isinstance(n, str)] if runs else []
            nums = [(m, num(u)) for m, u in named if not isinstance(u, (bool, SymBool)) and num(u) is not None]
            for n, v in named:
                if not isinstance(v, (bool, SymBool)):
                    continue
                f = v.e if isinstance(v, SymBool) else z3.BoolVal(v)
                for m, e in nums:
                    if e.is_int():
                        out.append((("run-start", n, m), lambda f=f, e=e: z3.Implies(f, z3.And(e >= T, e <= I + 1))))
                    for m2, e2 in nums:
                        if m2 == m or not e2.is_int():
                            continue
                        for ax, here in enumerate((x, y)):
                            key = ("from", n, m, m2, ax)
                            if key not in dropped:
                                out.append((key, lambda f=f, m=m, m2=m2, e=e, e2=e2, ax=ax, here=here: claim(f, m, m2, e, e2, ax, here)))
            if pairs:
                out += pairs(vals)
            return out

        def on_entry(self, run):
            c.prove(w.name + "/nothing-done-before", not w.d.list.log)

        def on_head(self, run):
            w.open()

        def pre_back(self, run, env):
            c.x.cover("each")
            w.take()
            w.edits()
            dropped = c.x.houdini.get(run.key, ())
            cur = []
            for n in [n for n in run.names if n in run.site["test"]] or run.names:
                v = env.get(n)
                if isinstance(v, (int, SymNum)) and not isinstance(v, bool) and num(v).is_int() and ("eq", n, "next") not in dropped and n in run.hvals:
                    cur.append(c._check(num(v) != num(w.I)) == z3.unsat)
            if cur and all(cur):
                w.back_one()

        def on_back(self, run, env):
            w.shape("inv@back")
            if position:
                w.position("inv@back")

    return Spec()


def t_trims(c, opts):
    import z3
    from .common import load, eqv
    from .C14 import Design
    from pyvc.sym import num

    K = load("EmbConstant")
    d = Design(c)
    N = "interpolate_trims"
    clip = c.bool("clipping", inp=True)
    count = c.int("jumps", inp=True) if opts[0] else None
    dist = c.real("distance", inp=True) if opts[1] else None

    def jump(v):
        return num(v) % 256 == K.JUMP

    def ins(w, i, v, at):
        c.prove(N + "/inserts-only-trims", eqv(v[2], K.TRIM))
        p = _pos(at, i - 1)
        c.prove(N + "/inserted-trim-does-not-move", z3.And(eqv(v[0], p[0]), eqv(v[1], p[1])))

    def dele(w, lo, hi, at):
        k = w.kappa
        c.prove(N + "/removes-only-when-clipping", clip)
        c.prove(N + "/removes-only-jumps", z3.Implies(z3.And(num(k) >= num(lo), num(k) < num(hi)), jump(at(k)[2])))
        c.prove(N + "/removed-jumps-return-to-their-start", _same_entry(_pos(at, lo - 1), _pos(at, hi - 1)))

    w = Walk(c, d, N, ins, dele, jump)
    spec = _walk_spec(c, w)
    c.policy = lambda site, it, loc: spec if site["kind"] == "while" or it is d.list else None
    d.p.interpolate_trims(count, dist, clip)
    w.edits()
    c.prove(N + "/whole-source-taken", z3.And(num(w.J) == num(w.nS) - 1, num(w.I) == num(d.list.n) - 1))
    w.shape("end")
    c.prove(N + "/same-list", d.p.stitches is d.list)
    c.x.cover("done")


def t_frame(c, _=None):
    """interpolate_frame_eject takes out and puts in no penetration"""
    import z3
    from .common import load
    from .C14 import Design
    from pyvc.sym import num, SymNum

    K = load("EmbConstant")
    d = Design(c)
    N = "interpolate_frame_eject"

    def other(v):
        return z3.And([num(v) % 256 != k for k in (K.STITCH, K.SEW_TO, K.NEEDLE_AT)])

    def ins(w, i, v, at):
        c.prove(N + "/inserts-no-penetration", other(v[2]))

    def dele(w, lo, hi, at):
        k = w.kappa
        c.prove(N + "/removes-no-penetration", z3.Implies(z3.And(num(k) >= num(lo), num(k) < num(hi)), other(at(k)[2])))

    w = Walk(c, d, N, ins, dele, other)

    def pairs(vals):
        # a sequence under way lies in the tail that holds no penetration
        out = []
        ints = {n: v for n, v in vals.items() if isinstance(n, str) and not isinstance(v, bool) and isinstance(v, (int, SymNum)) and num(v).is_int()}
        for n, v in ints.items():
            for m in vals:
                if m == n or not isinstance(m, str):
                    continue
                if vals[m] is None:
                    for b in (1, 2):
                        out.append((("none-then-below", n, m, b), num(v) < b))
                elif m in ints:
                    for b in (1, 2):
                        out.append((("under-way", n, m, b), z3.Implies(num(v) >= b, z3.And(num(ints[m]) >= num(w.T), num(ints[m]) <= num(w.I)))))
        return out

    spec = _walk_spec(c, w, position=False, pairs=pairs, runs=False)
    c.policy = lambda site, it, loc: spec if site["kind"] == "while" or it is d.list else None
    d.p.interpolate_frame_eject()
    c.prove(N + "/whole-source-taken", num(w.J) == num(w.nS) - 1)
    w.edits()
    c.prove(N + "/nothing-left", num(w.I) == num(d.list.n) - 1)
    w.shape("end")
    c.x.cover("done")


class Threads(object):
    """a thread list about which nothing is known"""
    __vc_ghost__ = True

    def __init__(self, c):
        self.c = c

    def __getitem__(self, i):
        from pyvc.sym import Opaque

        if self.c.choose("no such thread"):
            raise IndexError("list index out of range")
        return Opaque("thread")

    def __delitem__(self, i):
        pass

    def insert(self, i, v):
        pass


def t_recode(c, which):
    """the two passes which turn changes into stops and back alter nothing else"""
    import z3
    from .common import load, eqv
    from .C14 import Design
    from pyvc.runtime import LoopSpec, pick
    from pyvc.sym import num, SymNum, wrap

    K = load("EmbConstant")
    d = Design(c)
    d.p.threadlist = Threads(c)
    N = which
    S, k = d.at, c.int("k", inp=True)
    change = (K.COLOR_CHANGE, K.COLOR_BREAK, K.NEEDLE_SET)
    new = K.STOP if which == "interpolate_duplicate_color_as_stop" else c.int("change command", inp=True)

    def low(v, ks):
        return z3.Or([num(v) % 256 == x for x in ks])

    frm = change if which == "interpolate_duplicate_color_as_stop" else (K.STOP,)

    def fact(i, now):
        s = S(i)
        return z3.And(eqv(now[0], s[0]), eqv(now[1], s[1]), z3.Or(eqv(now[2], s[2]), z3.And(low(s[2], frm), eqv(now[2], new))))

    def state(name, n):
        at = d.list.at
        c.prove(N + "/" + name + "/length", num(d.list.n) == num(d.n))
        inside = z3.And(num(k) >= 0, num(k) < num(d.n))
        c.prove(N + "/" + name + "/entries", z3.Implies(inside, fact(k, at(k))))
        if n is not None:
            c.prove(N + "/" + name + "/rest-untouched", z3.Implies(z3.And(inside, num(k) >= num(n)), _same_entry(at(k), S(k))))

    class Spec(LoopSpec):
        tracked = False

        def on_head(self, run):
            c.n += 1
            F = z3.Function("recoded!%d" % c.n, z3.IntSort(), z3.IntSort())
            n = run.count

            def passed(i):
                r = S(i)[:2] + (SymNum(F(num(i))),)
                c.assume(z3.Implies(z3.And(num(i) >= 0, num(i) < num(n)), fact(i, r)))
                return r

            d.list.at = lambda i: pick(num(i) < num(n), lambda: passed(i), lambda: S(i))

        def pairs(self, run, vals):
            out = []
            for m, v in vals.items():
                if isinstance(m, str) and isinstance(v, (int, SymNum)) and not isinstance(v, bool) and num(v).is_int():
                    # an entry passed whose source is a change
                    out.append((("passed-change", m), z3.And(num(v) >= 0, num(v) < num(run.count), low(S(v)[2], frm))))
            return out

        def on_back(self, run, env):
            c.x.cover("each")
            state("inv@back", run.count)

    c.policy = lambda site, it, loc: Spec() if getattr(it, "seq", it) is d.list else None
    getattr(d.p, which)(*([] if which == "interpolate_duplicate_color_as_stop" else [new]))
    state("end", None)
    c.prove(N + "/same-list", d.p.stitches is d.list)
    c.x.cover("done")


def t_rebuild(c, which):
    """get_pattern_merge_jumps and get_pattern_interpolate_trim: each iteration
    of the outer loop takes entries h+1..b of the source and adds to the new
    design entry b itself (after a TRIM perhaps), entries left out being jumps"""
    import z3
    from .common import load, eqv
    from .C14 import Design
    from pyvc.runtime import LoopSpec, VList
    from pyvc.sym import num, SymNum

    P, K = load("EmbPattern"), load("EmbConstant")
    merge = which == "get_pattern_merge_jumps"
    d = Design(c)
    N, S, k = which, d.at, c.int("k", inp=True)
    d.p.threadlist, d.p.extras = [], {}
    outer = []

    def jump(i):
        return num(S(i)[2]) % 256 == K.JUMP

    def new(env):
        r = [v for v in env.values() if isinstance(v, P.EmbPattern) and v is not d.p]
        if len(r) != 1:
            from pyvc.core import Unsupported
            raise Unsupported("the new design is not found")
        return r[0]

    def ints(env):
        return {n: v for n, v in env.items() if isinstance(v, (int, SymNum)) and not isinstance(v, bool) and num(v).is_int()}

    class Inner(LoopSpec):
        """the jumps skipped so far"""
        rich = False

        def pairs(self, run, vals):
            out = []
            h = outer[0].head
            for n, v in vals.items():
                if isinstance(n, str) and isinstance(v, (int, SymNum)) and not isinstance(v, bool) and num(v).is_int():
                    out.append((("within", n), z3.And(num(v) < num(d.n))))
                    for m, s in h.items():
                        out.append((("beyond", n, m), num(v) > num(s)))
                        out.append((("skipped", n, m), z3.Implies(z3.And(num(k) > num(s), num(k) < num(v)), jump(k))))
                    for m, u in vals.items():
                        if m != n and isinstance(m, str) and isinstance(u, (int, SymNum)) and not isinstance(u, bool):
                            for q, s0 in h.items():
                                out.append((("moved", n, m, q), z3.Implies(num(u) % 256 != K.JUMP, num(v) > num(s0) + 1)))
                                out.append((("moved-word", n, m, q), z3.Implies(num(u) != K.JUMP, num(v) > num(s0) + 1)))
                            out.append((("command", n, m), num(u) % 256 == num(S(v)[2]) % 256))
                            out.append((("word", n, m), z3.Implies(num(u) == K.JUMP, num(S(v)[2]) == K.JUMP)))
            return out

        def on_back(self, run, env):
            c.x.cover("inner")

    class Outer(LoopSpec):
        rich = False

        def on_entry(self, run):
            self.run = run
            t = new(run.entry).stitches
            c.prove(N + "/empty-before", getattr(t, "pre", None) is None and len(t) == 0)

        def candidates(self, run, name, kind, v):
            return [(("below-length", str(name)), num(v) < num(d.n))] if kind == "int" else []

        def on_head(self, run):
            self.head = ints({n: run.cur[n] for n in run.names if n in run.cur})
            self.mark = len(new(run.cur).stitches.tail()) if getattr(new(run.cur).stitches, "pre", None) is not None else None
            del outer[:]
            outer.append(self)

        def cursor(self, env, ok):
            """the locals that hold the index of the last entry taken"""
            dropped = c.x.houdini.setdefault(("cursor", self.run.key), set())
            left = []
            for n, h in sorted(self.head.items()):
                if n in dropped:
                    continue
                e = ints(env).get(n)
                if e is not None and c._check(z3.Not(ok(h, e))) == z3.unsat:
                    left.append(n)
                else:
                    dropped.add(n)
                    c.x.dirty = True
            return left

        def on_back(self, run, env):
            c.x.cover("each")
            st = new(env).stitches
            tail = st.tail()
            if getattr(st, "pre", None) is None:
                if tail:
                    return  # the frame check will open it
            real = [list(t) for t in tail]

            def ok(h, b):
                src = S(b)
                skipped = z3.Implies(z3.And(num(k) > num(h), num(k) < num(b)), jump(k))
                rng = z3.And(num(h) >= -1, num(b) > num(h), num(b) < num(d.n))
                if len(real) and _same_len(real[-1], src):
                    pre = real[:-1]
                    what = _same_entry(tuple(real[-1]), src)
                    what = z3.And(what, z3.BoolVal(len(pre) <= 1), *[eqv(t[2], K.TRIM) for t in pre])
                else:
                    what = z3.BoolVal(False)
                if merge:
                    gone = z3.And(jump(b), z3.BoolVal(len(real) <= 1), *[eqv(t[2], K.STITCH_BREAK) for t in real])
                    what = z3.Or(gone, z3.And(what, z3.BoolVal(len(real) == 1)))
                return z3.And(rng, skipped, what)

            left = self.cursor(env, ok)
            n = (left or sorted(self.head) or [None])[0]
            c.prove(N + "/takes-entries-and-keeps-all-but-jumps", ok(self.head[n], ints(env)[n]) if n and n in ints(env) else False)

        def on_leave(self, run, env):
            dropped = c.x.houdini.setdefault(("cursor", self.run.key), set())
            live = [n for n in self.head if n not in dropped]
            first = [n for n in live if n in run.entry and isinstance(run.entry[n], int) and run.entry[n] == -1]
            c.prove(N + "/whole-source-taken", z3.Or([num(env[n]) == num(d.n) - 1 for n in first] or [z3.BoolVal(False)]))
            c.x.cover("leave")

    def policy(site, it, loc):
        if site["kind"] != "while":
            return None
        return Inner() if outer and outer[0].inside else Outer()

    Outer.inside = True
    c.policy = policy
    c.prove(N + "/returns-a-new-design", True)
    if merge:
        q = d.p.get_pattern_merge_jumps()
    else:
        q = d.p.get_pattern_interpolate_trim(c.int("jumps", inp=True))
    c.prove(N + "/source-untouched", d.p.stitches is d.list and not d.list.log)
    c.prove(N + "/another-object", q is not d.p and q.stitches is not d.list)
    c.x.cover("done")


def _same_len(a, b):
    return len(a) == len(b)


for _n in (False, True):
    for _d in (False, True):
        TASKS["trims:%s:%s" % ("jumps" if _n else "any-jumps", "distance" if _d else "any-distance")] = {
            "fn": t_trims, "arg": (_n, _d), "functions": ["EmbPattern.interpolate_trims", "EmbPattern.trim", "EmbPattern.insert_stitch_relative"],
            "covers": ["each", "delete", "done"] + (["insert"] if _n or _d else []), "limit": 600, "opts": {"budget_s": 500}}
TASKS["frame-eject"] = {"fn": t_frame, "functions": ["EmbPattern.interpolate_frame_eject"], "covers": ["each", "insert", "delete", "done"], "limit": 600, "opts": {"budget_s": 500}}
for _w in ("interpolate_duplicate_color_as_stop", "interpolate_stop_as_duplicate_color"):
    TASKS[_w] = {"fn": t_recode, "arg": _w, "functions": ["EmbPattern." + _w], "covers": ["each", "done"]}
for _w in ("get_pattern_merge_jumps", "get_pattern_interpolate_trim"):
    TASKS[_w] = {"fn": t_rebuild, "arg": _w, "functions": ["EmbPattern." + _w], "covers": ["each", "leave", "done"]}
