"""Contracts and proofs of the preparation step (EmbEncoder.Transcoder) for
C08 (limits), C09 (penetrations, END) and C10 (threads and blocks).

transcode_main's loop over the source is cut: one arbitrary iteration of the
real body runs from an arbitrary state satisfying the inferred invariant.
Entries appended to the prepared design meet a monitor, which holds the
property.  Callees with their own contract (each discharged in a task of its
own): interpolate_gap_stitches, lock_stitch, distance, oriented.  Everything
else is executed."""
try:
    import z3
except ImportError:  # the concrete oracle runs without the verifier
    z3 = None

from .common import load, eqv


def K():
    return load("EmbConstant")


def within(a, b, l):
    """|a-b| <= l (l may be the float infinity)"""
    from pyvc.sym import num

    if isinstance(l, float) and l == float("inf"):
        return z3.BoolVal(True)
    if isinstance(l, AnyLimit):
        from pyvc import core

        return core.CTX.bool("within").e
    d = num(a - b)
    return z3.And(d <= num(l), -d <= num(l))


def limit(c, name):
    l = c.real(name, inp=True)
    c.assume(l > 0)
    return l


class Dest(object):
    """the prepared design"""

    def __init__(self, stitches, threads):
        self.stitches, self.threadlist = stitches, threads
        self.extras = {}


# ------------------------------------------------------------- small helpers
def t_distance(c):
    E = load("EmbEncoder")
    v = [c.real(n, inp=True) for n in ("x0", "y0", "x1", "y1")]
    d = E.distance(*v)
    from pyvc.sym import num

    c.prove("distance/post/at-least-each-axis", z3.And(within(v[2], v[0], d), within(v[3], v[1], d), num(d) >= 0))


def t_oriented(c):
    E = load("EmbEncoder")
    v = [c.real(n, inp=True) for n in ("x0", "y0", "x1", "y1")]
    r = c.real("r", inp=True)
    c.assume(r >= 0)
    p = E.oriented(*(v + [r]))
    c.prove("oriented/post/within-r-in-each-axis", z3.And(within(p[0], v[0], r), within(p[1], v[1], r)))


def t_lock(c, inf):
    """four stitches, each step within the limit, the last one back at the start"""
    from pyvc.runtime import LogList
    from pyvc.sym import num, wrap

    E = load("EmbEncoder")
    x, y, ax, ay = (c.real(n, inp=True) for n in ("x", "y", "ax", "ay"))
    L = float("inf") if inf else limit(c, "max_length")
    log = []

    def add(e):
        log.append(e)

    def distance(x0, y0, x1, y1):
        d = c.real("distance")
        c.assume(d >= 0)
        c.assume(within(x1, x0, d))
        c.assume(within(y1, y0, d))
        return d

    def oriented(x0, y0, x1, y1, r):
        c.prove("oriented/pre/r-not-negative", num(r) >= 0)
        p = (c.real("ox"), c.real("oy"))
        c.assume(within(p[0], x0, r))
        c.assume(within(p[1], y0, r))
        return p

    keep = E.distance, E.oriented
    E.distance, E.oriented = distance, oriented
    try:
        t = E.Transcoder({"max_stitch": L})
        t.destination_pattern = Dest(LogList("dest", add), LogList("threads"))
        t.needle_x, t.needle_y = x, y
        t.lock_stitch(x, y, ax, ay, L)
    finally:
        E.distance, E.oriented = keep
    c.x.cover("locked")
    k = K()
    c.prove("lock_stitch/post/four-stitches", len(log) == 4 and all(isinstance(e[2], int) and e[2] == k.STITCH for e in log))
    p = (x, y)
    for e in log:
        c.prove("lock_stitch/post/step-within-limit", z3.And(within(e[0], p[0], L), within(e[1], p[1], L)))
        p = e
    c.prove("lock_stitch/post/ends-at-the-lock-point", z3.And(eqv(p[0], x), eqv(p[1], y)))
    c.prove("lock_stitch/frame/needle", z3.And(eqv(t.needle_x, x), eqv(t.needle_y, y)))


# --------------------------------------------------- interpolate_gap_stitches
def t_gap(c, arg):
    """the steps of a long move: on the straight line, at equal distances, each
    within the limit, so many that the rest is within the limit as well"""
    from pyvc.runtime import LogList, LoopSpec, SymRange
    from pyvc.sym import num, wrap, toreal
    from pyvc import mathshim as M

    data, inf = arg
    E = load("EmbEncoder")
    k = K()
    x0, y0, x1, y1 = (c.real(n, inp=True) for n in ("x0", "y0", "x1", "y1"))
    L = float("inf") if inf else limit(c, "max_length")
    high = c.int("high", 0, 0xFFFFFF) * 256
    seq = c.bool("sequin_mode", inp=True)
    util = c.choose("utilize")
    g = {"X": x0, "Y": y0, "n": 0, "toggles": 0}
    dx, dy = x1 - x0, y1 - y0
    exceeds = z3.BoolVal(False) if inf else z3.Or(num(abs(dx)) > num(L), num(abs(dy)) > num(L))
    sx = sy = 0
    if not inf and c.branch(exceeds):
        n_x, n_y = M.ceil(abs(dx / L)), M.ceil(abs(dy / L))
        n = wrap(z3.If(num(n_x) > num(n_y), num(n_x), num(n_y)))
        sx, sy = dx / n, dy / n

    def add(e):
        w = e[2]
        c.x.cover("step")
        cmd = wrap(num(w)) & 0xFF
        c.prove("interpolate_gap_stitches/steps-only-when-exceeding", exceeds)
        if inf:
            return
        is_toggle = c.branch(num(cmd) == k.SEQUIN_MODE) if data != k.SEQUIN_MODE else False
        if is_toggle:
            c.x.cover("toggle")
            c.prove("interpolate_gap_stitches/toggle-first-and-once", z3.And(num(g["n"]) == 0, z3.BoolVal(g["toggles"] == 0)))
            c.prove("interpolate_gap_stitches/toggle-only-for-jumps-in-sequin-mode", z3.And(z3.BoolVal(data == k.JUMP and util), seq.e))
            c.prove("interpolate_gap_stitches/toggle-does-not-move", z3.And(eqv(e[0], x0), eqv(e[1], y0)))
            g["toggles"] += 1
            return
        c.prove("interpolate_gap_stitches/step-carries-the-data", num(w) == num(high) + data)
        g["n"] = g["n"] + 1
        g["X"], g["Y"] = x0 + g["n"] * sx, y0 + g["n"] * sy
        c.prove("interpolate_gap_stitches/step-on-the-line", z3.And(eqv(e[0], g["X"]), eqv(e[1], g["Y"])))

    class Steps(LoopSpec):
        def ghosts(self, phase, run):
            return {"X": g["X"], "Y": g["Y"]}

        def on_head(self, run):
            g["n"] = run.count
            g["X"], g["Y"] = x0 + run.count * sx, y0 + run.count * sy

        def on_back(self, run, env):
            c.prove("interpolate_gap_stitches/one-step-per-round", num(g["n"]) == num(run.count))

    c.policy = lambda site, it, loc: Steps() if isinstance(it, SymRange) else None
    t = E.Transcoder({"max_stitch": L, "max_jump": L, "sequin_contingency": k.CONTINGENCY_SEQUIN_UTILIZE if util else k.CONTINGENCY_SEQUIN_JUMP})
    t.destination_pattern = Dest(LogList("dest", add), LogList("threads"))
    t.needle_x, t.needle_y, t.high_flags, t.state_sequin_mode = x0, y0, high, seq
    t.interpolate_gap_stitches(x0, y0, x1, y1, L, data)
    if inf:
        c.prove("interpolate_gap_stitches/post/no-limit-no-change", z3.And(eqv(t.needle_x, x0), eqv(t.needle_y, y0)))
        return
    if not c.branch(exceeds):
        c.prove("interpolate_gap_stitches/post/short-moves-unchanged", z3.And(eqv(t.needle_x, x0), eqv(t.needle_y, y0), num(g["n"]) == 0, t.state_sequin_mode.e == seq.e if not isinstance(t.state_sequin_mode, bool) else seq.e == t.state_sequin_mode))
        return
    c.x.cover("long")
    c.prove("interpolate_gap_stitches/post/number-of-steps", num(g["n"]) == num(n) - 1)
    c.prove("interpolate_gap_stitches/post/needle-at-last-step", z3.And(eqv(t.needle_x, g["X"]), eqv(t.needle_y, g["Y"])))
    c.prove("interpolate_gap_stitches/post/rest-is-one-step", z3.And(eqv(x1 - g["X"], sx), eqv(y1 - g["Y"], sy)))
    if data == k.JUMP and util:
        m = t.state_sequin_mode
        c.prove("interpolate_gap_stitches/post/no-jump-in-sequin-mode", z3.Not(m.e) if not isinstance(m, bool) else not m)


def t_step(c):
    """lemma: at least two equal steps, each within the limit"""
    from pyvc.sym import num, wrap, toreal
    from pyvc import mathshim as M

    dx, dy = c.real("dx", inp=True), c.real("dy", inp=True)
    L = limit(c, "max_length")
    n_x, n_y = M.ceil(abs(dx / L)), M.ceil(abs(dy / L))
    n = wrap(z3.If(num(n_x) > num(n_y), num(n_x), num(n_y)))
    # in terms of any q with q = |dx/L| and N = n as a real number
    q, r, N, S = (c.real(v) for v in ("q", "r", "N", "S"))
    base = [num(L) > 0]
    q_def = num(q) == num(abs(dx / L))
    r_def = num(r) == num(abs(dy / L))
    N_def = num(N) == toreal(num(n))
    c.prove("lemma/quotient", z3.Implies(q_def, num(q) * num(L) == num(abs(dx))))
    c.prove("lemma/steps-cover-both-quotients", z3.Implies(z3.And(q_def, r_def, N_def), z3.And(num(N) >= num(q), num(N) >= num(r))))
    ex = z3.Or(num(abs(dx)) > num(L), num(abs(dy)) > num(L))
    c.prove("lemma/exceeding-means-a-quotient-above-one", z3.Implies(z3.And(ex, q_def, r_def, num(q) * num(L) == num(abs(dx)), num(r) * num(L) == num(abs(dy))), z3.Or(num(q) > 1, num(r) > 1)))
    c.prove("lemma/at-least-two-steps", z3.Implies(z3.Or(num(abs(dx / L)) > 1, num(abs(dy / L)) > 1), num(n) >= 2))
    c.forget()
    for e in base:
        c.assume(e)
    c.assume(num(q) >= 0)
    c.assume(num(q) * num(L) == num(abs(dx)))
    c.assume(num(N) >= num(q))
    c.assume(num(N) >= 2)
    c.assume(num(S) == num(dx) / num(N))
    c.prove("lemma/step-times-number", num(S) * num(N) == num(dx))
    c.prove("lemma/step-within-limit", within(S, 0, L))


# ------------------------------------------------------------- transcode_main
class Matrix(object):
    """EmbMatrix seen as a state: every operation gives a new state, points are
    mapped by an arbitrary function of the state (the algebra is C12)."""

    __vc_ghost__ = True

    def __init__(self, c):
        self.c = c
        self.ver = c.int("matrix").e
        self.inv = False
        self.log = []
        R, I = z3.RealSort(), z3.IntSort()
        self.f = [z3.Function("map_%s%s" % (a, b), I, R, R, R) for a in "xy" for b in ("", "_inverse")]

    def image(self, x, y, inv=None):
        from pyvc.sym import num, wrap, toreal

        inv = self.inv if inv is None else inv
        a = (self.ver, toreal(num(x)), toreal(num(y)))
        return wrap(self.f[1 if inv else 0](*a)), wrap(self.f[3 if inv else 2](*a))

    def point_in_matrix_space(self, v, y=None):
        if y is not None:
            return list(self.image(v, y))
        x, y = self.image(v[0], v[1])
        return [x, y] + list(v[2:3])

    def _op(self, name, *a):
        from pyvc.core import Unsupported

        if self.inv:
            raise Unsupported("a matrix operation on an inverted matrix")
        self.log.append((name,) + a)
        self.ver = self.c.int("matrix").e

    def inverse(self):
        self.inv = not self.inv

    def post_translate(self, *a):
        self._op("post_translate", *a)

    def post_scale(self, *a):
        self._op("post_scale", *a)

    def post_rotate(self, *a):
        self._op("post_rotate", *a)

    def reset(self):
        self._op("reset")

    def __getattr__(self, n):
        from pyvc.core import Unsupported

        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("matrix operation %s" % n)


class AnyLimit(object):
    """a length limit of any value, or none (C09 does not depend on it)"""

    __vc_ghost__ = True


class Change(object):
    """entry k of the change sequence"""

    __vc_ghost__ = True

    def __init__(self, k):
        self.k = k


class Changes(object):
    """the plan made by build_thread_change_sequence: for every order number a
    list [command, thread, needle, thread object] (contract: C10)"""

    __vc_ghost__ = True

    def __init__(self, main):
        self.main = main

    def __getitem__(self, k):
        m = self.main
        m.planned(k)
        e = Change(k)
        return [e, ("thread", k), ("needle", k), ("object", k)]


STITCHLIKE = ("STITCH", "NEEDLE_AT", "SEW_TO")
BASIC = ("STITCH", "JUMP", "TRIM", "STOP", "END", "COLOR_CHANGE", "SEQUIN_MODE", "SEQUIN_EJECT", "NEEDLE_SET", "SLOW", "FAST")


def commands(k):
    """name -> value of every command the library defines"""
    return {n: getattr(k, n) for n in dir(k) if n.isupper() and isinstance(getattr(k, n), int) and 0 <= getattr(k, n) <= 255 and not n.endswith("_MASK")}


class Main(object):
    def __init__(self, c, prop, full_jump, rnd, tcc=None, group=None):
        from pyvc.runtime import LogList, SymSeq

        self.c, self.prop, self.full_jump, self.tcc = c, prop, full_jump, tcc
        self.finite = prop == "C08"
        self.E = load("EmbEncoder")
        self.k = K()
        self.names = commands(self.k)
        self.rnd = rnd
        self.group = group or sorted(self.names) + ["OTHER"]
        self.cmd = None  # command of the entry being prepared
        self.LX = self.LY = 0
        self.fresh = True
        self.ended = False
        self.T = self.CH = 0  # threads listed, changes made
        me = self

        class Threads(LogList):
            """threads listed; all of the source's at once for needle formats"""

            def extend(self, vs):
                if isinstance(vs, LogListSource):
                    me.all_listed += 1
                    me.c.prove("threads/the-source's-list-for-needles-only", z3.And(me.TCC == me.k.NEEDLE_SET if not isinstance(me.TCC, int) else z3.BoolVal(me.TCC == me.k.NEEDLE_SET)))
                    return
                LogList.extend(self, vs)

        self.all_listed = 0
        self.G = self.H = 0  # number of the source's block, after and before the current entry
        self.dead = z3.BoolVal(False)  # nothing is sewn any more
        self.dest = Dest(LogList("dest", self.entry), Threads("threads", self.thread))
        self.in_lock = self.in_gap = False
        self.iteration = []
        self.point = None

    def on(self, *props):
        return self.prop in props

    # ---- settings
    def build(self):
        c, k = self.c, self.k
        inf = float("inf")
        st = {"round": self.rnd, "full_jump": self.full_jump, "writes_speeds": c.bool("writes_speeds", inp=True), "explicit_trim": c.bool("explicit_trim", inp=True)}
        self.MS = self.MJ = inf
        if self.finite:
            st["max_stitch"] = self.MS = limit(c, "max_stitch")
            st["max_jump"] = self.MJ = limit(c, "max_jump")
        else:
            st["max_stitch"] = st["max_jump"] = AnyLimit()

        def one_of(name, *vals):
            v = c.int(name, inp=True)
            c.assume(z3.Or([v.e == x for x in vals]))
            st[name] = v
            return v

        self.TON = one_of("tie_on", k.CONTINGENCY_TIE_ON_NONE, k.CONTINGENCY_TIE_ON_THREE_SMALL)
        self.TOFF = one_of("tie_off", k.CONTINGENCY_TIE_OFF_NONE, k.CONTINGENCY_TIE_OFF_THREE_SMALL)
        ls = [k.CONTINGENCY_LONG_STITCH_JUMP_NEEDLE, k.CONTINGENCY_LONG_STITCH_SEW_TO]
        if self.prop != "C08":
            ls.append(k.CONTINGENCY_LONG_STITCH_NONE)
        self.LONG = one_of("long_stitch_contingency", *ls)
        self.SEQ = one_of("sequin_contingency", k.CONTINGENCY_SEQUIN_UTILIZE, k.CONTINGENCY_SEQUIN_JUMP, k.CONTINGENCY_SEQUIN_STITCH, k.CONTINGENCY_SEQUIN_REMOVE)
        self.sets = [(n, sorted(v)) for n, v in (
            ("TON", (k.CONTINGENCY_TIE_ON_NONE, k.CONTINGENCY_TIE_ON_THREE_SMALL)), ("TOFF", (k.CONTINGENCY_TIE_OFF_NONE, k.CONTINGENCY_TIE_OFF_THREE_SMALL)),
            ("LONG", ls), ("SEQ", (k.CONTINGENCY_SEQUIN_UTILIZE, k.CONTINGENCY_SEQUIN_JUMP, k.CONTINGENCY_SEQUIN_STITCH, k.CONTINGENCY_SEQUIN_REMOVE)))]
        st["thread_change_command"] = getattr(k, self.tcc or "COLOR_CHANGE")
        st["needle_count"] = c.int("needle_count", lo=1, inp=True)
        t = self.E.Transcoder(st)
        self.TCC = t.thread_change_command
        self.t = t
        t.matrix = self.matrix = Matrix(c)
        t.destination_pattern = self.dest
        return t

    # ---- the source
    def element(self, i):
        """entry i of the source: a point and a word"""
        from pyvc.sym import num, wrap, toreal

        c = self.c
        key = ("src", num(i).get_id() if not isinstance(i, int) else i)
        if key in c.memo:
            return c.memo[key]
        c.keep.append(num(i))
        x, y = c.real("sx", inp=True), c.real("sy", inp=True)
        name = None
        names = self.group if i is self.index else sorted(self.names)
        if i is self.index:
            for n in names[:-1]:
                if c.choose("is_" + n):
                    name = n
                    break
            name = name or names[-1]
            if name == "OTHER":
                v = c.int("command", 0, 255, inp=True)
                c.assume(z3.And([v.e != w for w in self.names.values()]))
            else:
                v = self.names[name]
        else:
            v = c.int("command", 0, 255)
        w = c.int("high", 0, 0xFFFFFF) * 256 + v
        e = (x, y, w)
        c.memo[key] = e
        if i is self.index:
            self.cmd, self.src = name, e
            if name in ("OPTION_MAX_JUMP_LENGTH", "OPTION_MAX_STITCH_LENGTH"):
                c.assume(x > 0)
            if name == "CONTINGENCY_LONG_STITCH_NONE" and self.on("C08"):
                from pyvc.core import PathEnd

                raise PathEnd()
            c.x.cover("cmd-" + name)
            if self.on("C10"):
                self.source_block(name)
                return e
            from pyvc import runtime as R

            X, Y = self.matrix.image(x, y)
            self.plain = X, Y
            self.point = (R.b_round(X), R.b_round(Y)) if self.rnd else (X, Y)
        return e

    # ---- the monitor
    def entry(self, e):
        from pyvc.sym import num, wrap

        c, k = self.c, self.k
        w = e[2]
        cmd = w & 0xFF if isinstance(w, int) else wrap(num(w)) & 0xFF
        if not isinstance(cmd, int):
            v = z3.simplify(num(cmd))
            if not z3.is_int_value(v):
                u = c.enumerate_value(num(cmd))
                v = z3.IntVal(u)
            cmd = v.as_long()
        name = next((n for n in BASIC if getattr(k, n) == cmd), None)
        if self.on("C09"):
            c.prove("prepared/entry-is-a-basic-command", name is not None)
            c.prove("prepared/nothing-after-END", not self.ended)
        if name == "END":
            self.ended = True
        if self.on("C08"):
            self.limits(name, e)
        self.LX, self.LY = e[0], e[1]
        self.iteration.append((name, e[0], e[1]))
        if name in ("STITCH", "SEQUIN_EJECT"):
            if self.on("C10"):
                self.sewn()
            self.fresh = False
        elif name in ("TRIM", "STOP", "COLOR_CHANGE", "NEEDLE_SET"):
            self.fresh = True
        if self.on("C10"):
            self.change(name, w)

    def limits(self, name, e):
        c = self.c
        p = self.LX, self.LY

        def far(l):
            return z3.And(within(e[0], p[0], l), within(e[1], p[1], l))

        if name in ("STITCH", "SEQUIN_EJECT"):
            if self.lead():
                c.prove("limit/first-stitch-of-a-run", far(self.MJ))
            else:
                c.prove("limit/stitch", far(self.MS))
        elif name == "JUMP":
            if self.cmd in ("JUMP", "FRAME_EJECT") or self.lead():
                c.prove("limit/jump", far(self.MJ))
            else:
                c.prove("limit/jump-of-a-split-stitch", far(self.MS))
        else:
            c.prove("limit/other-entries-do-not-move", far(0))

    def lead(self):
        if not isinstance(self.fresh, bool):
            self.fresh = self.c.branch(self.fresh.e)
        return self.fresh

    def thread(self, o):
        from pyvc.sym import num

        if self.on("C10"):
            ok = isinstance(o, tuple) and o[0] == "object"
            self.c.prove("threads/block-k-uses-the-planned-thread", z3.And(z3.BoolVal(ok), num(o[1]) == num(self.T)) if ok else False)
        self.T = self.T + 1

    # ---- callee contracts
    def gap(self, t, x0, y0, x1, y1, L, data):
        """contract of interpolate_gap_stitches (tasks gap:*, step)"""
        c = self.c
        k = self.k
        c.prove("interpolate_gap_stitches/pre/starts-at-the-needle", z3.And(eqv(x0, self.LX), eqv(y0, self.LY)))
        near = z3.And(within(x1, x0, L), within(y1, y0, L))
        if z3.is_true(z3.simplify(near)):
            return
        c.x.cover("gap")
        if data == k.JUMP and t.state_sequin_mode:
            if c.branch(near):
                return
            t.toggle_sequins()
        if self.on("C08"):
            if data == k.JUMP and (self.cmd in ("JUMP", "FRAME_EJECT") or self.lead()):
                lim, what = self.MJ, "jump"
            else:
                lim, what = self.MS, "stitch"
            from pyvc.sym import num

            c.prove("limit/split-%s" % what, lim == float("inf") if isinstance(lim, float) else z3.Or(near, num(L) <= num(lim)))
        # zero steps when the point is near, else the last step is at (lx, ly)
        lx, ly = c.real("gx"), c.real("gy")
        c.assume(z3.Implies(near, z3.And(eqv(lx, x0), eqv(ly, y0))))
        if not isinstance(L, AnyLimit):
            c.assume(z3.And(within(x1, lx, L), within(y1, ly, L)))
        self.LX, self.LY = lx, ly
        self.iteration.append(("gap", data, x1, y1, near))
        if data == k.STITCH:
            if self.on("C10"):
                self.sewn()
            from pyvc.sym import wrap

            self.fresh = wrap(z3.And(near, self.fresh.e if not isinstance(self.fresh, bool) else z3.BoolVal(self.fresh)))
        t.update_needle_position(lx, ly)

    def lock(self, t, x, y, ax, ay, L=None):
        """contract of lock_stitch (tasks lock, lock:inf)"""
        c = self.c
        if L is None:
            L = t.max_stitch
        c.x.cover("lock")
        c.prove("lock_stitch/pre/starts-at-the-needle", z3.And(eqv(x, self.LX), eqv(y, self.LY)))
        if self.on("C08"):
            from pyvc.sym import num

            c.prove("limit/tie-stitches", self.MS == float("inf") if isinstance(self.MS, float) else num(L) <= num(self.MS))
        self.iteration.append(("lock", ax, ay))
        self.LX, self.LY = x, y
        if self.on("C10"):
            self.sewn()

    def tie(self, t, on):
        """contract of tie_on, tie_off (tasks tie:*): when requested, at most
        one lock stitch at the needle, within the stitch limit"""
        c, k = self.c, self.k
        v, want = (t.tie_on_contingency, k.CONTINGENCY_TIE_ON_THREE_SMALL) if on else (t.tie_off_contingency, k.CONTINGENCY_TIE_OFF_THREE_SMALL)
        if c.choose("neighbour_sewn"):
            c.assume(v == want)
            self.lock(t, t.needle_x, t.needle_y, c.real("ax"), c.real("ay"), t.max_stitch)
            self.iteration[-1] += (on,)

    def next_change(self, t):
        """contract of next_change_sequence (task next_change): the next block
        starts, with at most one change command where the needle is"""
        c, k = self.c, self.k
        t.order_index += 1
        if t.order_index == 0:
            c.prove("next_change_sequence/first-block-starts-a-run", self.lead())
        self.raw_change(t.needle_x, t.needle_y)
        t.state_trimmed = True

    def raw_change(self, x, y):
        c = self.c
        if self.on("C08"):
            c.prove("limit/other-entries-do-not-move", z3.And(eqv(x, self.LX), eqv(y, self.LY)))
        if self.on("C09"):
            c.prove("prepared/nothing-after-END", not self.ended)
        self.iteration.append(("CHANGE", x, y))
        self.fresh = True

    def encode(self, cmd, thread=None, needle=None, order=None):
        """contract of encode_thread_change (C01): the command is the low byte"""
        c = self.c
        h = c.int("attached", 0, 0xFFFFFF) * 256
        self.attached = (h, thread, needle, order)
        return h + cmd

    # ---- C10: the source's blocks
    def source_block(self, name):
        """contract of get_as_thread_change_sequence_events (task events): the
        number of the block an entry is in; contract of lookahead_stitch
        (task lookahead): after it said no, nothing is sewn up to END"""
        from pyvc.sym import num, wrap

        c = self.c
        self.H, self.event = self.G, False
        if name in STITCHLIKE + ("SEQUIN_EJECT", "TIE_ON"):
            c.assume(z3.Not(self.dead))
        if name in STITCHLIKE + ("SEQUIN_EJECT",):
            self.G = wrap(z3.If(num(self.G) == 0, 1, num(self.G)))
        elif name in ("COLOR_CHANGE", "NEEDLE_SET"):
            self.event, self.G = True, self.G + 1
        elif name == "COLOR_BREAK":
            self.event, self.G = True, wrap(z3.If(num(self.G) == 0, 0, num(self.G) + 1))

    def look(self, t):
        from pyvc.sym import num

        c = self.c
        if not self.on("C10"):
            return c.choose("lookahead")
        c.prove("lookahead_stitch/pre/from-the-current-entry", num(t.position) == num(self.index))
        if c.choose("lookahead"):
            return True
        self.dead = z3.BoolVal(True)
        return False

    def aligned(self):
        from pyvc.sym import num

        o = num(self.order()) + 1
        return z3.And(o <= num(self.G), z3.Or(self.dead, o == num(self.G)))

    def planned(self, k):
        """contract of build_thread_change_sequence (task plan): entries for 0
        and for the number of every change event; the events before the
        current entry are numbered 0 to H-1 (or 1 to H-1), its own is H"""
        from pyvc.sym import num

        if self.on("C10"):
            k, H = num(k), num(self.H)
            self.c.prove("changes/the-plan-has-an-entry-for-the-block", z3.And(k >= 0, z3.Or(k == 0, k < H, k == H if self.event else z3.BoolVal(False))))

    def sewn(self):
        from pyvc.sym import num

        c = self.c
        if self.cmd in ("TIE_ON", "TIE_OFF"):
            return
        if self.cmd in STITCHLIKE + ("SEQUIN_EJECT",):
            c.x.cover("sewn")
            c.prove("threads/sewn-in-the-source's-block", num(self.order()) + 1 == num(self.G))
        if c.branch(num(self.TCC) == self.k.COLOR_CHANGE):
            c.prove("threads/one-thread-more-than-changes-when-sewn", z3.And(num(self.T) == num(self.CH) + 1))
        elif c.branch(num(self.TCC) == self.k.NEEDLE_SET):
            c.prove("needles/block-starts-with-a-needle", num(self.CH) >= 1)
        else:
            c.prove("threads/one-thread-per-stop-change", z3.And(num(self.T) == num(self.CH), num(self.T) >= 1))

    def change(self, name, w):
        """a change of block in the prepared design"""
        from pyvc.sym import num

        c, k = self.c, self.k
        a = getattr(self, "attached", None)
        self.attached = None
        if a is None:
            c.prove("changes/every-change-comes-from-the-plan", name not in ("COLOR_CHANGE", "NEEDLE_SET"))
            return
        o = self.CH
        if name == "COLOR_CHANGE":
            o = o + 1
        c.prove("changes/only-the-format's-own-command", num(self.TCC) == (getattr(k, name) if name else -1))
        ok = all(isinstance(v, tuple) for v in a[1:3]) and a[3] is None and a[1][0] == "thread" and a[2][0] == "needle"
        c.prove("changes/change-k-names-the-planned-thread-and-needle", z3.And(num(a[1][1]) == num(o), num(a[2][1]) == num(o)) if ok else False)
        self.CH = self.CH + 1

    # ---- one iteration
    def check_iteration(self):
        """C09: what one source entry leaves in the prepared design"""
        from pyvc.sym import num

        if self.on("C10"):
            return
        c, k = self.c, self.k
        it, n = self.iteration, self.cmd
        X, Y = self.point
        if self.on("C08"):
            if n == "JUMP" and it:
                c.x.cover("jumped")
                c.prove("limit/jump-ends-at-its-point", z3.And(z3.BoolVal(it[-1][0] == "JUMP"), eqv(it[-1][1], X), eqv(it[-1][2], Y)) if len(it[-1]) == 3 else False)
            return
        if not self.on("C09"):
            return
        pen = [e for e in it if e[0] == "STITCH"]
        gaps = [e for e in it if e[0] == "gap"]
        locks = [i for i, e in enumerate(it) if e[0] == "lock"]
        seq = n == "SEQUIN_EJECT"
        for e in pen:
            c.prove("penetration/at-its-point", z3.And(z3.BoolVal(n in STITCHLIKE or seq), eqv(e[1], X), eqv(e[2], Y)))
        if n in STITCHLIKE:
            c.x.cover("penetration")
            c.prove("penetration/exactly-one", len(pen) == 1)
        elif seq:
            stitched = c.branch(num(self.SEQ0) == k.CONTINGENCY_SEQUIN_STITCH)
            anchor = self.lead0
            c.prove("penetration/sequin", len(pen) == (1 if stitched else 0) + (1 if anchor else 0))
        else:
            c.prove("penetration/none-invented", len(pen) == 0)
        for e in gaps:
            if e[1] == k.STITCH:
                c.x.cover("sewn-gap")
                c.prove("split/into-stitches-only-where-requested", z3.Or(e[4], z3.BoolVal(n == "SEW_TO" or seq), z3.And(z3.BoolVal(n == "STITCH"), num(self.LONG0) == k.CONTINGENCY_LONG_STITCH_SEW_TO)))
                c.prove("split/sewn-toward-its-point", z3.And(eqv(e[2], X), eqv(e[3], Y)))
                j = it.index(e)
                c.prove("split/sewn-before-its-point", all(p[0] != "STITCH" for p in it[:j]) or seq)
            else:
                c.prove("split/other-steps-are-jumps", e[1] == k.JUMP)
        c.prove("ties/at-most-one", len(locks) <= 1)
        for i in locks:
            on = n in STITCHLIKE or n in ("SEQUIN_EJECT", "TIE_ON")
            off = n in ("TIE_OFF", "TRIM", "SEQUENCE_BREAK", "COLOR_BREAK", "COLOR_CHANGE", "NEEDLE_SET", "FRAME_EJECT")
            c.prove("ties/only-where-requested", num(self.TON0) == k.CONTINGENCY_TIE_ON_THREE_SMALL if on else (num(self.TOFF0) == k.CONTINGENCY_TIE_OFF_THREE_SMALL) if off else False)
            if n in STITCHLIKE:
                c.prove("ties/after-the-stitch", any(p[0] == "STITCH" for p in it[:i]))
        # the matrix
        log = self.matrix.log
        x, y, _ = self.src
        want = {"MATRIX_TRANSLATE": ("post_translate", x, y), "MATRIX_SCALE_ORIGIN": ("post_scale", x, y), "MATRIX_ROTATE_ORIGIN": ("post_rotate", x), "MATRIX_RESET": ("reset",)}.get(n)
        if n in ("MATRIX_SCALE", "MATRIX_ROTATE"):
            q = self.pivot
            want = ("post_scale", x, y) + q if n == "MATRIX_SCALE" else ("post_rotate", x) + q
        c.prove("matrix/operations", len(log) == (1 if want else 0) and (not want or log[0][0] == want[0] and len(log[0]) == len(want)))
        if want and log:
            c.x.cover("matrix-op")
            for a, b in zip(log[0][1:], want[1:]):
                c.prove("matrix/operand", eqv(a, b))
        c.prove("matrix/not-left-inverted", not self.matrix.inv)

    def spec_step(self):
        """effect of settings commands on the requested behaviour"""
        k, n = self.k, self.cmd
        x = self.src[0]
        if n == "OPTION_MAX_JUMP_LENGTH":
            self.MJ = x
        elif n == "OPTION_MAX_STITCH_LENGTH":
            self.MS = x
        elif n.startswith("CONTINGENCY_TIE_ON"):
            self.TON = getattr(k, n)
        elif n.startswith("CONTINGENCY_TIE_OFF"):
            self.TOFF = getattr(k, n)
        elif n.startswith("CONTINGENCY_LONG"):
            self.LONG = getattr(k, n)
        elif n.startswith("CONTINGENCY_SEQUIN"):
            self.SEQ = getattr(k, n)

    def run(self):
        from pyvc.runtime import LoopSpec, SymSeq, SymRange
        from pyvc.sym import num, wrap, SymBool, toreal
        from pyvc.runtime import kind_of

        c, k, m = self.c, self.k, self
        self.index = None
        t = self.build()
        source = SymSeq("source", self.element)

        class Source(object):
            stitches = source
            __vc_ghost__ = True
            threadlist = LogListSource()

        t.source_pattern = Source()
        T = self.E.Transcoder
        T_cls = type("T", (T,), {})
        t.__class__ = T_cls
        T_cls.__module__ = T.__module__
        T_cls.interpolate_gap_stitches = lambda s, *a: m.gap(s, *a)
        T_cls.lock_stitch = lambda s, *a: m.lock(s, *a)
        T_cls.tie_on = lambda s: m.tie(s, True)
        T_cls.tie_off = lambda s: m.tie(s, False)
        if not m.on("C10"):
            T_cls.next_change_sequence = lambda s: m.next_change(s)
        T_cls.lookahead_stitch = lambda s: m.look(s)
        T_cls.build_thread_change_sequence = lambda s: Changes(m)
        keep = self.E.encode_thread_change
        self.E.encode_thread_change = m.encode

        class Main_(LoopSpec):
            rich, join = False, True

            def ghosts(self, phase, run):
                g = {"LX": m.LX, "LY": m.LY, "fresh": m.fresh, "TON": m.TON, "TOFF": m.TOFF, "LONG": m.LONG, "SEQ": m.SEQ}
                if m.finite:
                    g.update(MS=m.MS, MJ=m.MJ)
                if m.on("C10"):
                    g.update(order=m.order(), G=m.G)
                return g

            def on_entry(self, run):
                if m.on("C10"):
                    c.prove("threads/threads-and-changes-linked-at-the-start", m.linked())
                    c.prove("threads/blocks-aligned-at-the-start", m.aligned())
                    c.prove("threads/the-source's-list-for-needles", (m.all_listed == 1) == (m.TCC == k.NEEDLE_SET))

            def on_head(self, run):
                m.LX, m.LY = c.real("LX", inp=True), c.real("LY", inp=True)
                m.fresh = c.bool("fresh", inp=True)
                for n, vals in m.sets:
                    v = c.int(n, inp=True)
                    c.assume(z3.Or([v.e == x for x in vals]))
                    setattr(m, n, v)
                if m.finite:
                    m.MS, m.MJ = limit(c, "MS"), limit(c, "MJ")
                m.iteration = []
                m.matrix.ver = c.int("matrix").e
                m.matrix.log = []
                m.SEQ0, m.LONG0, m.TON0, m.TOFF0 = m.SEQ, m.LONG, m.TON, m.TOFF
                m.T, m.CH = c.int("threads", lo=0), c.int("changes", lo=0)
                if m.on("C10"):
                    m.G, m.dead = c.int("G", lo=0), c.bool("dead").e
                    c.assume(m.linked())
                    c.assume(m.aligned())

            def havoc(self, run, name, v0):
                return v0 if isinstance(v0, AnyLimit) else NotImplemented

            def pre_back(self, run, env):
                m.spec_step()

            def on_back(self, run, env):
                m.check_iteration()
                if m.on("C09"):
                    c.prove("prepared/goes-on-until-END", not m.ended)
                    c.prove("prepared/goes-on-after-other-commands-only", m.cmd != "END")
                if m.on("C10"):
                    c.prove("threads/threads-and-changes-stay-linked", m.linked())
                    c.prove("threads/blocks-stay-aligned", m.aligned())

            def on_leave(self, run, env):
                m.iteration = []

            def candidates(self, run, name, kind, v):
                if kind == "int":
                    return [(("not-end", str(name)), num(v) != k.END), (("high", str(name)), num(v) % 256 == 0)]
                if kind == "real":
                    return [(("positive", str(name)), num(v) > 0)]
                return []

            def pairs(self, run, vals):
                out = []
                dropped = run.x.houdini[run.key]
                b = [(n, v) for n, v in vals.items() if kind_of(v) == "bool"]
                i = [(n, v) for n, v in vals.items() if kind_of(v) == "int"]
                for n, v in b:
                    e = v.e if isinstance(v, SymBool) else z3.BoolVal(v)
                    for o, w in i:
                        if ("or-ge0", str(n), str(o)) in dropped:
                            continue
                        out.append((("or-ge0", str(n), str(o)), z3.Or(e, num(w) >= 0)))
                return out

        class Other(LoopSpec):
            pass

        def policy(site, it, loc):
            if getattr(it, "seq", it) is source:
                return Main_()
            if isinstance(it, SymRange):
                return Other()

        # the element of the iteration is the one the loop asks for
        inner = source.elem

        def elem(i):
            m.index = i
            m.lead0 = m.lead() if m.on("C09") else None
            e = m.element(i)
            if m.on("C09"):
                m.pivot = m.matrix.image(m.LX, m.LY, True)
            return e

        source.elem = elem
        c.policy = policy
        try:
            t.transcode_main()
        finally:
            self.E.encode_thread_change = keep
        c.x.cover("finished")
        if self.on("C09"):
            c.prove("prepared/ends-with-END", self.ended)
            c.prove("prepared/END-is-all-that-is-added-at-the-end", [e[0] for e in self.iteration] == ["END"])

    def linked(self):
        """threads and changes of the prepared design, per kind of format"""
        from pyvc.sym import num

        k = self.k
        T, CH = num(self.T), num(self.CH)
        return z3.And(
            z3.Implies(num(self.TCC) == k.COLOR_CHANGE, CH == z3.If(T > 0, T - 1, 0)),
            z3.Implies(num(self.TCC) == k.NEEDLE_SET, T == 0),
            z3.Implies(num(self.TCC) == k.STOP, T == CH))

    def order(self):
        """number of the current block, -1 before the first"""
        from pyvc.sym import num, wrap

        return wrap(z3.If(num(self.TCC) == self.k.NEEDLE_SET, num(self.CH), num(self.T)) - 1)


class LogListSource(object):
    __vc_ghost__ = True


def t_main(c, arg):
    Main(c, *arg).run()


def t_tie(c, on):
    """tie_on and tie_off: a lock stitch at the needle towards the neighbouring
    source entry, exactly when ties are requested and that entry is sewn"""
    from pyvc.runtime import LogList, SymSeq
    from pyvc.sym import num, wrap

    E, k = load("EmbEncoder"), K()
    m = Matrix(c)
    L = limit(c, "max_stitch")
    pos = c.int("position", lo=1 if not on else 0, inp=True)
    c.assume(pos >= 0)
    seen, locks = {}, []

    def element(i):
        e = (c.real("sx", inp=True), c.real("sy", inp=True), c.int("high", 0, 0xFFFFFF) * 256 + c.int("command", 0, 255, inp=True))
        c.prove("tie/neighbouring-entry", num(i) == num(pos) + (1 if on else -1))
        seen["e"] = e
        return e

    src = SymSeq("source", element)
    c.assume(num(src.vc_len()) > num(pos))

    class Source(object):
        stitches = src
        __vc_ghost__ = True

    cont = c.int("contingency", inp=True)
    vals = (k.CONTINGENCY_TIE_ON_NONE, k.CONTINGENCY_TIE_ON_THREE_SMALL) if on else (k.CONTINGENCY_TIE_OFF_NONE, k.CONTINGENCY_TIE_OFF_THREE_SMALL)
    c.assume(z3.Or([cont.e == v for v in vals]))
    t = E.Transcoder({"max_stitch": L, "tie_on" if on else "tie_off": cont})
    t.matrix, t.position, t.source_pattern = m, pos, Source()
    t.destination_pattern = Dest(LogList("dest", lambda e: c.prove("tie/only-through-lock_stitch", False)), LogList("threads"))
    nx, ny = t.needle_x, t.needle_y = c.real("nx", inp=True), c.real("ny", inp=True)
    T = type("T", (E.Transcoder,), {})
    T.lock_stitch = lambda s, *a: locks.append(a)
    t.__class__ = T
    (t.tie_on if on else t.tie_off)()
    req = num(cont) == vals[1]
    if not locks:
        c.x.cover("none")
        if "e" in seen:
            f = num(wrap(num(seen["e"][2])) & 0xFF)
            c.prove("tie/made-when-requested-and-sewn", z3.Not(z3.And(req, z3.Or([f == v for v in (k.STITCH, k.NEEDLE_AT, k.SEW_TO, k.SEQUIN_EJECT)]))))
        else:
            c.prove("tie/made-when-requested", z3.Or(z3.Not(req), num(pos) + 1 >= num(src.vc_len()) if on else False))
        return
    c.x.cover("tied")
    c.prove("tie/at-most-one", len(locks) == 1)
    c.prove("tie/only-when-requested", req)
    a = locks[0]
    f = num(wrap(num(seen["e"][2])) & 0xFF)
    c.prove("tie/towards-a-sewn-entry", z3.Or([f == v for v in (k.STITCH, k.NEEDLE_AT, k.SEW_TO, k.SEQUIN_EJECT)]))
    X, Y = m.image(seen["e"][0], seen["e"][1])
    c.prove("tie/at-the-needle-towards-the-neighbour", z3.And(eqv(a[0], nx), eqv(a[1], ny), eqv(a[2], X), eqv(a[3], Y)))
    c.prove("tie/within-the-stitch-limit", z3.BoolVal(True) if len(a) == 4 or a[4] is None else eqv(a[4], L))


def t_next_change(c, tcc):
    """next_change_sequence: the block number grows by one; one change command
    where the needle is, except before the first block of a colour-change format"""
    from pyvc.runtime import LogList
    from pyvc.sym import num, wrap

    E, k = load("EmbEncoder"), K()
    out, threads = [], []
    t = E.Transcoder({"thread_change_command": getattr(k, tcc), "needle_count": c.int("needle_count", lo=2)})

    class Plan(object):
        __vc_ghost__ = True

        def __getitem__(self, i):
            c.prove("next_change_sequence/entry-of-the-next-block", num(i) == num(o) + 1)
            return [object(), ("thread", i), ("needle", i), ("object", i)]

    o = t.order_index = c.int("order", lo=-1, inp=True)
    t.change_sequence = Plan()
    t.destination_pattern = Dest(LogList("dest", out.append), LogList("threads", threads.append))
    nx, ny = t.needle_x, t.needle_y = c.real("nx", inp=True), c.real("ny", inp=True)
    t.state_trimmed = c.bool("trimmed")
    w = c.int("word", 0, 0xFFFFFFFF)
    calls = []

    def encode(*a):
        calls.append(a)
        return w

    keep = E.encode_thread_change
    E.encode_thread_change = encode
    try:
        t.next_change_sequence()
    finally:
        E.encode_thread_change = keep
    c.x.cover("changed")
    c.prove("next_change_sequence/post/block-number", num(t.order_index) == num(o) + 1)
    c.prove("next_change_sequence/post/trimmed", t.state_trimmed is True)
    c.prove("next_change_sequence/frame/needle", z3.And(eqv(t.needle_x, nx), eqv(t.needle_y, ny)))
    first = num(o) == -1
    if tcc == "COLOR_CHANGE":
        c.prove("next_change_sequence/post/command-unless-first", z3.BoolVal(len(out) == 0) if c.branch(first) else z3.BoolVal(len(out) == 1))
    else:
        c.prove("next_change_sequence/post/command", len(out) == 1)
    for e in out:
        c.prove("next_change_sequence/post/at-the-needle", z3.And(eqv(e[0], nx), eqv(e[1], ny), eqv(e[2], w)))
        c.prove("next_change_sequence/post/own-command", len(calls) == 1 and calls[0][0] == getattr(k, tcc))
    c.prove("next_change_sequence/post/thread", [x[0] for x in threads] == ([] if tcc == "NEEDLE_SET" else ["object"]))


def t_settings(c):
    """the settings a caller gives reach the state the preparation starts from"""
    E, k = load("EmbEncoder"), K()
    log = []

    class M(object):
        __vc_ghost__ = True

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return lambda *a: log.append((n,) + a)

    keep = E.EmbMatrix
    E.EmbMatrix = M
    try:
        tx, ty, sx, sy, r = (c.real(n, inp=True) for n in ("tx", "ty", "sx", "sy", "r"))
        for on in (True, False):
            t = E.Transcoder({"tie_on": on, "tie_off": on})
            c.prove("settings/tie_on", t.tie_on_contingency == (k.CONTINGENCY_TIE_ON_THREE_SMALL if on else k.CONTINGENCY_TIE_ON_NONE))
            c.prove("settings/tie_off", t.tie_off_contingency == (k.CONTINGENCY_TIE_OFF_THREE_SMALL if on else k.CONTINGENCY_TIE_OFF_NONE))
            t = E.Transcoder({"strip_sequins": on})
            c.prove("settings/strip_sequins", t.sequin_contingency == (k.CONTINGENCY_SEQUIN_JUMP if on else k.CONTINGENCY_SEQUIN_UTILIZE))
        t = E.Transcoder()
        c.prove("settings/defaults", t.max_stitch == t.max_jump == float("inf") and t.tie_on_contingency == k.CONTINGENCY_TIE_ON_NONE and t.tie_off_contingency == k.CONTINGENCY_TIE_OFF_NONE and not t.round and t.long_stitch_contingency == k.CONTINGENCY_LONG_STITCH_JUMP_NEEDLE)
        for scale, want in (([sx, sy], (sx, sy)), (sx, (sx, sx))):
            log.clear() if hasattr(log, "clear") else None
            del log[:]
            E.Transcoder({"translate": [tx, ty], "scale": scale, "rotate": r})
            c.prove("settings/matrix-operations", [e[0] for e in log] == ["post_translate", "post_scale", "post_rotate"] and [len(e) for e in log] == [3, 3, 2])
            for a, b in zip([v for e in log for v in e[1:]], (tx, ty) + want + (r,)):
                c.prove("settings/matrix-operands", eqv(a, b))
    finally:
        E.EmbMatrix = keep


def t_lookahead(c):
    """lookahead_stitch: yes at an entry that is sewn (or asks for a tie), no at
    END or at the end of the source; before that neither; changes nothing"""
    from pyvc.runtime import LoopSpec, SymSeq
    from pyvc.sym import num, wrap

    E, k = load("EmbEncoder"), K()
    g = {"w": None, "count": None, "left": False}

    def element(i):
        c.prove("lookahead_stitch/one-entry-after-the-other", z3.And(z3.BoolVal(g["count"] is not None), num(i) == num(t.position) + num(g["count"])) if g["count"] is not None else False)
        key = ("look", num(i).get_id())
        if key not in c.memo:
            c.keep.append(num(i))
            c.memo[key] = (c.real("x"), c.real("y"), c.int("high", 0, 0xFFFFFF) * 256 + c.int("command", 0, 255, inp=True))
        g["w"] = wrap(num(c.memo[key][2])) & 0xFF
        return c.memo[key]

    src = SymSeq("source", element)

    class Source(object):
        stitches = src
        __vc_ghost__ = True

    def sews(w):
        return z3.Or([num(w) == v for v in (k.STITCH, k.NEEDLE_AT, k.SEW_TO, k.SEQUIN_EJECT)])

    class Walk(LoopSpec):
        def on_head(self, run):
            g["count"], g["w"] = run.count, None

        def on_back(self, run, env):
            w = g["w"]
            c.x.cover("past")
            c.prove("lookahead_stitch/passes-no-sewn-entry-and-no-END", w is not None and z3.Not(z3.Or(sews(w), num(w) == k.END, num(w) == k.TIE_ON)))

        def on_leave(self, run, env):
            g["left"], g["w"] = True, None
            c.prove("lookahead_stitch/looks-at-all-entries", num(t.position) + num(run.count) >= num(src.vc_len()))

    t = E.Transcoder({})
    t.source_pattern = Source()
    t.position = c.int("position", lo=0)
    c.policy = lambda site, it, loc: Walk()
    before = dict(t.__dict__)
    r = t.lookahead_stitch()
    c.prove("lookahead_stitch/post/yes-or-no", r is True or r is False)
    w = g["w"]
    if r:
        c.x.cover("yes")
        c.prove("lookahead_stitch/post/yes-where-something-is-sewn", w is not None and z3.Or(sews(w), num(w) == k.TIE_ON))
    else:
        c.x.cover("no")
        c.prove("lookahead_stitch/post/no-only-at-the-end", g["left"] or w is not None and num(w) == k.END)
    c.prove("lookahead_stitch/frame", set(before) == set(t.__dict__) and all(before[n] is t.__dict__[n] for n in before))


# ---------------------------------------------------------- the plan (C10)
CHANGES = ("COLOR_CHANGE", "NEEDLE_SET", "COLOR_BREAK")


def maybe(c, name, hi=254):
    return c.int(name, 0, hi, inp=True) if c.choose("has_" + name) else None


def t_events(c, _=None):
    """get_as_thread_change_sequence_events: every change of the source with
    the number of the block it starts"""
    from pyvc.runtime import LoopSpec, SymSeq
    from pyvc.sym import num, wrap

    E, k = load("EmbEncoder"), K()
    g = {"G": 0, "cur": None}
    out = []

    def element(i):
        w = c.int("word", 0, 0xFFFFFFFF, inp=True)
        return (c.real("x"), c.real("y"), w)

    def decode(w):
        """contract of decode_embroidery_command (C01)"""
        f = wrap(num(w)) & 0xFF
        r = (f, maybe(c, "thread"), maybe(c, "needle"), maybe(c, "order"))
        g["cur"] = r
        return r

    src = SymSeq("source", element)

    class Source(object):
        stitches = src
        __vc_ghost__ = True

    class Walk(LoopSpec):
        def ghosts(self, phase, run):
            return {"G": g["G"]}

        def on_head(self, run):
            g["G"], g["cur"] = c.int("G", lo=0), None
            del out[:]

        def pre_back(self, run, env):
            c.x.cover("each")
            r = g["cur"]
            c.prove("events/every-entry-is-decoded", r is not None)
            if r is None:
                return
            f = num(r[0])
            G = num(g["G"])
            G = z3.If(z3.And(G == 0, z3.Or([f == getattr(k, n) for n in STITCHLIKE + ("SEQUIN_EJECT",)])), 1, G)
            if c.branch(f == k.SET_CHANGE_SEQUENCE):
                self.event(r, None)
            elif c.branch(z3.Or([f == getattr(k, n) for n in CHANGES])):
                self.event(r, G)
                G = z3.If(z3.And(f == k.COLOR_BREAK, G == 0), 0, G + 1)
            else:
                c.prove("events/other-entries-change-nothing", not out)
            g["G"] = wrap(G)

        def event(self, r, G):
            c.x.cover("event")
            c.prove("events/one-for-each-change", len(out) == 1 and len(out[0]) == 5)
            for e in out[:1]:
                c.prove("events/command", eqv(e[0], r[0]))
                for i in (1, 2, 3):
                    c.prove("events/what-is-attached", (e[i] is None) == (r[i] is None) and (e[i] is None or eqv(e[i], r[i])))
                c.prove("events/number-of-the-block", e[4] is None if G is None else e[4] is not None and num(e[4]) == G)

    t = E.Transcoder({})
    t.source_pattern = Source()
    keep = E.decode_embroidery_command
    E.decode_embroidery_command = decode
    c.policy = lambda site, it, loc: Walk() if getattr(it, "seq", it) is src else None
    try:
        for e in t.get_as_thread_change_sequence_events():
            out.append(e)
    finally:
        E.decode_embroidery_command = keep
    c.x.cover("done")


class PlanDict(object):
    """the plan while it is made; its entry for one arbitrary block number"""

    __vc_ghost__ = True

    def __init__(self, c, key, proof):
        self.c, self.key, self.proof = c, key, proof
        self.entry = None
        self.open = True
        self.uses = 0

    def mine(self, k):
        from pyvc.sym import num
        from pyvc.core import Unsupported

        if k is None:
            return False
        if not self.open:
            if not self.c.branch(num(k) == num(self.key)):
                raise Unsupported("another entry of the plan")
            return True
        return self.c.branch(num(k) == num(self.key))

    def has(self, k):
        if self.mine(k):
            return self.entry is not None
        return self.c.choose("planned before")

    def __contains__(self, k):
        return self.has(k)

    def other(self):
        return [None, None, None, None]

    def __getitem__(self, k):
        if self.mine(k):
            if self.entry is None:
                raise KeyError(k)
            return self.entry
        if not self.c.choose("planned before"):
            raise KeyError(k)
        return self.other()

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def setdefault(self, k, d):
        try:
            return self[k]
        except KeyError:
            self[k] = d
            return d

    def __setitem__(self, k, v):
        if self.mine(k):
            self.entry = v

    def items(self):
        return PlanItems(self, True)

    def keys(self):
        return PlanItems(self, False)

    def vc_sorted(self, **k):
        return self.keys().vc_sorted(**k)


class PlanItems(object):
    __vc_ghost__ = True

    def __init__(self, plan, pairs):
        self.plan, self.pairs = plan, pairs

    def vc_sorted(self, **k):
        from pyvc.core import Unsupported

        if k:
            raise Unsupported("sorted with arguments")
        return self.plan.proof.entries(self.pairs)


class Filler(object):
    __vc_ghost__ = True

    def __init__(self, i):
        self.i = i


def t_plan(c, _=None):
    """build_thread_change_sequence: the entry of block number b, for every b.
    First loop: what the events set for it; second loop: what is missing is
    filled in, in the order of the blocks."""
    from pyvc.runtime import LoopSpec, SymSeq
    from pyvc.sym import num, wrap

    E, k = load("EmbEncoder"), K()
    b = c.int("block", lo=0, inp=True)
    g = {"LA": 0, "want": None, "phase": 0, "ev": None, "TI": 0, "NI": 1}

    class Source(object):
        __vc_ghost__ = True

        def get_thread_or_filler(self, i):
            return Filler(i)

    def event(i):
        for n in CHANGES + ("SET_CHANGE_SEQUENCE",):
            if n == "SET_CHANGE_SEQUENCE" or c.choose("is_" + n):
                break
        w = getattr(k, n)
        e = (w, maybe(c, "thread"), maybe(c, "needle"), maybe(c, "order"), c.int("number", 0, inp=True) if n in CHANGES else None)
        g["ev"] = n, e
        return e

    events = SymSeq("events", event)

    def some_entry():
        """what earlier events may have left for the block: nothing, or a list"""
        if c.branch(num(b) == 0) or c.choose("planned"):
            f = None
            if c.choose("has_command"):
                f = c.int("change", inp=True)
                c.assume(z3.Or(f.e == k.COLOR_CHANGE, f.e == k.NEEDLE_SET))
            th = maybe(c, "thread")
            return [f, th, maybe(c, "needle"), None if th is None else Filler(th)]
        return None

    def agree(name, have, want):
        c.prove(name + "/planned", (have is None) == (want is None))
        if have is None or want is None:
            return
        c.prove(name + "/four-fields", len(have) == 4)
        for i, what in ((0, "command"), (1, "thread"), (2, "needle"), (3, "thread-object")):
            h, w = have[i], want[i]
            if w is None or h is None:
                c.prove(name + "/" + what, h is w)
            elif i == 3:
                c.prove(name + "/" + what, eqv(h.i, w.i) if isinstance(h, Filler) else False)
            else:
                c.prove(name + "/" + what, not isinstance(h, Filler) and eqv(h, w))

    class Assign(LoopSpec):
        def ghosts(self, phase, run):
            return {"LA": g["LA"]}

        def on_entry(self, run):
            c.prove("plan/one-pass-over-the-events", g["phase"] == 0)
            g["phase"] = 1
            self.want = [None] * 4 if c.branch(num(b) == 0) else None
            agree("plan/at-the-start", plan.entry, self.want)

        def on_head(self, run):
            g["LA"] = c.int("LA", lo=0)
            e = some_entry()
            g["want"] = e and list(e)
            plan.entry = e

        def on_elem(self, run, idx, e):
            c.x.cover("event")

        def pre_back(self, run, env):
            if g["ev"] is None:
                c.prove("plan/every-event-is-used", False)
                return
            n, (w, th, ne, od, idx) = g["ev"]
            LA = g["LA"]
            if n != "SET_CHANGE_SEQUENCE":
                at = idx
                g["LA"] = wrap(z3.If(num(idx) >= num(LA), num(idx) + 1, num(LA)))
            elif od is None:
                at = LA
                g["LA"] = LA + 1
            else:
                at = od
            want = g["want"]
            if c.branch(num(at) == num(b)):
                c.x.cover("assigned")
                want = list(want or [None] * 4)
                if n in ("COLOR_CHANGE", "NEEDLE_SET"):
                    want[0] = w
                if th is not None:
                    want[1], want[3] = th, Filler(th)
                if ne is not None:
                    want[2] = ne
            agree("plan/what-the-events-set", plan.entry, want)

        def on_leave(self, run, env):
            g["phase"] = 2
            plan.open = False

    class Fill(LoopSpec):
        def ghosts(self, phase, run):
            return {"TI": g["TI"], "NI": g["NI"]}

        def on_head(self, run):
            g["TI"], g["NI"] = c.int("TI", lo=0), c.int("NI", lo=1)
            e = some_entry()
            g["want"] = e and list(e)
            plan.entry = e

        def on_elem(self, run, idx, e):
            if plan.entry is None:
                from pyvc.core import PathEnd

                raise PathEnd()
            c.x.cover("fill")

        def pre_back(self, run, env):
            want = list(g["want"])
            if want[1] is None:
                want[1] = g["TI"]
                g["TI"] = g["TI"] + 1
            want[3] = Filler(want[1])
            if want[0] is None:
                want[0] = t.thread_change_command
            if want[2] is None:
                have = plan.entry[2]
                c.x.cover("needle")
                c.prove("plan/needle-one-to-the-needle-count", z3.And(num(have) >= 1, num(have) <= num(t.needle_count)) if have is not None else False)
                want[2] = have
                g["NI"] = g["NI"] + 1
            agree("plan/what-is-filled-in", plan.entry, want)

    class Proof(object):
        def entries(self, pairs):
            c.prove("plan/filled-in-after-the-events", g["phase"] == 2)
            g["phase"] = 3
            self.seq = SymSeq("entries", lambda i: (b, plan.entry) if pairs else b)
            return self.seq

    proof = Proof()
    proof.seq = None
    plan = PlanDict(c, b, proof)
    made = []

    def factory():
        made.append(1)
        c.prove("plan/one-dictionary", len(made) == 1)
        return plan

    c.dict_factory = None
    count = c.int("needle_count", lo=1, inp=True)
    tcc = c.int("thread_change_command", inp=True)
    c.assume(z3.Or([tcc.e == v for v in (k.COLOR_CHANGE, k.NEEDLE_SET, k.STOP)]))
    t = E.Transcoder({"needle_count": count, "thread_change_command": tcc})
    t.source_pattern = Source()
    T = type("T", (E.Transcoder,), {})
    T.__module__ = E.Transcoder.__module__
    T.get_as_thread_change_sequence_events = lambda s: events
    t.__class__ = T

    def policy(site, it, loc):
        s = getattr(it, "seq", it)
        if s is events:
            return Assign()
        if proof.seq is not None and s is proof.seq:
            return Fill()

    c.policy = policy
    c.dict_factory = factory
    try:
        r = t.build_thread_change_sequence()
    finally:
        c.dict_factory = None
    c.x.cover("done")
    c.prove("plan/the-plan-is-returned", r is plan and g["phase"] == 3)


def tasks10():
    """the tasks of C10"""
    T = {}
    F = tasks("C09")["main:plain:exact"]["functions"] + ["Transcoder.next_change_sequence", "Transcoder.add_thread_change", "Transcoder.lookahead_stitch"]
    for tcc in ("COLOR_CHANGE", "NEEDLE_SET", "STOP"):
        for full in (True, False):
            for rnd in (True, False):
                T["main:%s:%s:%s" % (tcc, "full_jump" if full else "plain", "round" if rnd else "exact")] = {
                    "fn": t_main, "arg": ("C10", full, rnd, tcc), "functions": F, "tier": "quick" if full == rnd else "thorough", "limit": 700, "opts": {"budget_s": 600},
                    "covers": ["gap", "lock", "finished", "sewn"] + ["cmd-" + n for n in STITCHLIKE + ("SEQUIN_EJECT", "END", "TRIM", "COLOR_CHANGE", "COLOR_BREAK", "NEEDLE_SET", "OTHER")]}
    for n in ("lookahead", "lock", "gap:jump", "gap:stitch", "tie:on", "tie:off"):
        T[n] = tasks("C09")[n]
    T["events"] = {"fn": t_events, "functions": ["Transcoder.get_as_thread_change_sequence_events"], "covers": ["each", "event", "done"]}
    T["plan"] = {"fn": t_plan, "functions": ["Transcoder.build_thread_change_sequence"], "covers": ["event", "assigned", "fill", "needle", "done"]}
    from .C16 import t_filler

    T["filler"] = {"fn": t_filler, "functions": ["EmbPattern.EmbPattern.get_thread_or_filler", "EmbPattern.EmbPattern.get_random_thread"], "covers": ["thread", "filler"]}
    return T


def tasks(prop):
    """the tasks of C08 and C09"""
    T = {}
    F = ["Transcoder.transcode_main", "Transcoder.add", "Transcoder.stitch_at", "Transcoder.needle_to", "Transcoder.sew_to", "Transcoder.jump_to", "Transcoder.jump_at", "Transcoder.jump_to_within_stitchrange", "Transcoder.stitch_with_contingency", "Transcoder.sequin_at", "Transcoder.toggle_sequins", "Transcoder.color_break", "Transcoder.tie_off_trim_color_change", "Transcoder.tie_off_and_trim", "Transcoder.trim_here", "Transcoder.stop_here", "Transcoder.end_here", "Transcoder.declare_not_trimmed", "Transcoder.slow_command_here", "Transcoder.fast_command_here"]
    for full in (True, False):
        for rnd in (True, False):
            T["main:%s:%s" % ("full_jump" if full else "plain", "round" if rnd else "exact")] = {
                "fn": t_main, "arg": (prop, full, rnd), "functions": F, "limit": 700, "opts": {"budget_s": 600},
                "covers": ["gap", "lock", "finished"] + ["cmd-" + n for n in STITCHLIKE + ("JUMP", "SEQUIN_EJECT", "END", "TRIM", "COLOR_CHANGE", "FRAME_EJECT", "MATRIX_SCALE", "OTHER")] + (["jumped"] if prop == "C08" else ["penetration", "sewn-gap", "matrix-op"])}
    for inf in (False, True):
        T["lock%s" % (":unlimited" if inf else "")] = {"fn": t_lock, "arg": inf, "functions": ["Transcoder.lock_stitch", "EmbEncoder.towards"], "covers": ["locked"]}
        for d, n in ((1, "jump"), (0, "stitch")):
            T["gap:%s%s" % (n, ":unlimited" if inf else "")] = {"fn": t_gap, "arg": (d, inf), "functions": ["Transcoder.interpolate_gap_stitches", "Transcoder.toggle_sequins", "Transcoder.update_needle_position"], "covers": [] if inf else ["step", "long"] + (["toggle"] if d else [])}
    T["gap:lemma"] = {"fn": t_step, "functions": []}
    T["distance"] = {"fn": t_distance, "functions": ["EmbEncoder.distance", "EmbEncoder.distance_squared"], "opts": {"nonlinear": True}}
    T["oriented"] = {"fn": t_oriented, "functions": ["EmbEncoder.oriented", "EmbEncoder.angle_radians"]}
    for on in (True, False):
        T["tie:%s" % ("on" if on else "off")] = {"fn": t_tie, "arg": on, "functions": ["Transcoder.tie_on" if on else "Transcoder.tie_off"], "covers": ["tied", "none"]}
    for tcc in ("COLOR_CHANGE", "NEEDLE_SET", "STOP"):
        T["next_change:" + tcc] = {"fn": t_next_change, "arg": tcc, "functions": ["Transcoder.next_change_sequence", "Transcoder.add_thread_change"], "covers": ["changed"]}
    T["lookahead"] = {"fn": t_lookahead, "functions": ["Transcoder.lookahead_stitch"], "covers": ["past", "yes", "no"]}
    T["settings"] = {"fn": t_settings, "functions": ["Transcoder.__init__"]}
    return T


ASSUMPTIONS = [
    "coordinates, limits and matrix images are exact real numbers (floating-point rounding is not modelled); round() is Python's round-half-even on them",
    "the matrix is an arbitrary map of points for each of its states (its algebra is C12); sin, cos are uninterpreted with values in -1..1, sqrt is the non-negative root",
    "encode_thread_change returns a word whose low byte is the command (C01); the change sequence has an entry for every block reached (proved in C10)",
    "tie commands before anything is sewn are outside the property (there is no stitch to tie); thread_change_command is COLOR_CHANGE, NEEDLE_SET or STOP",
]
