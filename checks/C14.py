"""C14: editing and measuring operations do exactly what they say."""
from . import gen as G

ASSUMPTIONS = ["coordinates are exact real numbers (floating-point rounding is not modelled)"]
RULE = "random editing histories replayed on an own list model; non-trivial = distinct history"
BUDGET = 20
KNOWN = []
VERBS = {"move": 1, "stitch": 0, "stop": 3, "trim": 2, "color_change": 5, "sequin_eject": 7, "sequin_mode": 6, "end": 4}


def o_edit(case):
    from pyvc.concrete import Violation
    from pyembroidery import EmbPattern

    p = EmbPattern()
    m = []
    px = py = 0

    def rel(cmd, dx, dy, pos):
        nonlocal px, py
        if pos is None or pos == len(m) and not (pos == 0):
            px, py = px + dx, py + dy
            m.append([px, py, cmd])
            return
        if pos < 0:
            pos += len(m)
        if pos == 0:
            m.insert(0, [dx, dy, cmd])
        elif 0 < pos < len(m):
            m.insert(pos, [m[pos - 1][0] + dx, m[pos - 1][1] + dy, cmd])

    for n, op in enumerate(case["ops"]):
        k = op[0]
        before = [list(s) for s in m]
        if k in VERBS:
            _, dx, dy, pos = op
            if pos is not None and pos < 0 and pos + len(m) < 0:
                continue
            getattr(p, k)(dx, dy, pos) if pos is not None else getattr(p, k)(dx, dy)
            rel(VERBS[k], dx, dy, pos)
        elif k == "needle":
            p.needle_change(op[1], op[2], op[3])
            rel(9 | (op[1] + 1) << 16, op[2], op[3], None)
        elif k == "rel":
            p.add_stitch_relative(op[1], op[2], op[3])
            rel(op[1], op[2], op[3], None)
        elif k == "abs":
            p.add_stitch_absolute(op[1], op[2], op[3])
            px, py = op[2], op[3]
            m.append([px, py, op[1]])
        elif k in ("stitch_abs", "move_abs"):
            cmd = 0 if k == "stitch_abs" else 1
            if op[3] is None:
                getattr(p, k)(op[1], op[2])
                px, py = op[1], op[2]
                m.append([px, py, cmd])
            else:
                getattr(p, k)(op[1], op[2], op[3])
                m.insert(op[3], [op[1], op[2], cmd])
        elif k == "insert":
            p.insert(op[1], op[2], op[3], op[4])
            m.insert(op[1], [op[3], op[4], op[2]])
        elif k == "cmd":
            p.add_command(op[1], op[2], op[3])
            m.append([op[2], op[3], op[1]])
        elif k == "pre":
            p.prepend_command(op[1], op[2], op[3])
            m.insert(0, [op[2], op[3], op[1]])
        elif k == "translate":
            p.translate(op[1], op[2])
            for s in m:
                s[0] += op[1]
                s[1] += op[2]
        elif k == "iadd":
            q = p
            q += [tuple(v) for v in op[1]]
            if q is not p:
                raise Violation("+= made another design")
            for v in op[1]:
                m.append([v[0], v[1], v[2] if len(v) > 2 else 0])
                px, py = v[0], v[1]
        elif k == "block":
            p.add_block([tuple(v) for v in op[1]])
            for v in op[1]:
                m.append([v[0], v[1], v[2] if len(v) > 2 else 0])
                px, py = v[0], v[1]
            if op[1]:
                m.append([0, 0, G.COLOR_BREAK])
        elif k == "center":
            if not m:
                continue
            x0, x1 = min(s[0] for s in m), max(s[0] for s in m)
            y0, y1 = min(s[1] for s in m), max(s[1] for s in m)
            p.move_center_to_origin()
            if len(p.stitches) != len(m):
                raise Violation("move_center_to_origin changed the number of stitches")
            dx, dy = p.stitches[0][0] - m[0][0], p.stitches[0][1] - m[0][1]
            for s in m:
                s[0] += dx
                s[1] += dy
            b = p.bounds()
            if abs(b[0] + b[2]) > 1 + 1e-6 or abs(b[1] + b[3]) > 1 + 1e-6:
                raise Violation("after move_center_to_origin the bounds are %r" % (b,))
            if (dx + (x0 + x1) / 2) ** 2 > 0.2501 or (dy + (y0 + y1) / 2) ** 2 > 0.2501:
                raise Violation("move_center_to_origin moved by (%s, %s), the centre was (%s, %s)" % (dx, dy, (x0 + x1) / 2, (y0 + y1) / 2))
        got = p.stitches
        if [list(s) for s in got] != m:
            j = next((i for i, (a, b) in enumerate(zip(got, m)) if list(a) != b), min(len(got), len(m)))
            raise Violation("after step %d %r of the history entry %d is %r, expected %r (%d entries, expected %d)" % (n, op, j, got[j:j + 1], m[j:j + 1], len(got), len(m)))
    b = p.bounds()
    if m:
        e = (min(s[0] for s in m), min(s[1] for s in m), max(s[0] for s in m), max(s[1] for s in m))
        if tuple(b) != e or tuple(p.extents()) != e or tuple(p.extends()) != e:
            raise Violation("bounds %r, expected %r" % (b, e))
    for c in case["count"]:
        e = sum(1 for s in m if s[2] & 0xFF == c)
        if p.count_stitch_commands(c) != e:
            raise Violation("count_stitch_commands(%d) = %d, expected %d" % (c, p.count_stitch_commands(c), e))
        if [list(s) for s in p.get_match_commands(c)] != [s for s in m if s[2] & 0xFF == c]:
            raise Violation("get_match_commands(%d)" % c)
    if p.count_stitches() != len(m) or len(p) != len(m):
        raise Violation("count_stitches")
    if p.count_color_changes() != sum(1 for s in m if s[2] & 0xFF == 5) or p.count_needle_sets() != sum(1 for s in m if s[2] & 0xFF == 9):
        raise Violation("count_color_changes / count_needle_sets")
    if [list(s) for s in p.stitches] != m:
        raise Violation("measuring changed the design")


def concrete(run):
    r = run.rng
    from pyvc.concrete import harvest

    def v():
        return r.choice((0, 1, -1, r.randint(-50, 50), r.randint(-2000, 2000), r.randint(-40, 40) + 0.5))

    def pos(n):
        return r.choice((None, 0, 1, n, n - 1, -1, -n, r.randint(-n - 1, n + 1), r.randint(0, n + 1)))

    while run.more() and run.evals < 150000:
        n = r.choice((1, 2, 4, 8, 16))
        ops = []
        for i in range(n):
            k = r.choice(tuple(VERBS) * 2 + ("needle", "rel", "rel", "abs", "abs", "stitch_abs", "move_abs", "insert", "insert", "cmd", "pre", "translate", "iadd", "block", "center"))
            cm = r.choice((0, 0, 1, 2, 3, 5, 4, 7, 0xE2, 0x30009, 0x105))
            if k in VERBS:
                p = pos(i)
                if p == 0 and i == 0:
                    p = None
                ops.append([k, v(), v(), p])
            elif k == "needle":
                ops.append([k, r.randint(0, 14), v(), v()])
            elif k in ("rel", "abs", "cmd", "pre"):
                ops.append([k, cm, v(), v()])
            elif k in ("stitch_abs", "move_abs"):
                ops.append([k, v(), v(), r.choice((None, r.randint(-5, 9)))])
            elif k == "insert":
                ops.append([k, r.randint(-5, 9), cm, v(), v()])
            elif k == "translate":
                ops.append([k, v(), v()])
            elif k in ("iadd", "block"):
                ops.append([k, [[v(), v()] + ([r.choice((0, 1, 2))] if r.random() < 0.5 else []) for _ in range(r.randint(0, 4))]])
            else:
                ops.append([k])
        run.case(o_edit, {"ops": ops, "count": [0, 1, 2, 3, 4, 5, 7, 9, 0xE2]})


# ------------------------------------------------------------------ contracts
class Design(object):
    """an EmbPattern with any number of stitches: position i holds
    (X(i), Y(i), C(i)), the last added position is (px, py)"""

    def __init__(self, c, name="", p=None, prev=True, masked=False):
        import z3
        from .common import load
        from pyvc.runtime import FList
        from pyvc.sym import SymNum, num

        P = load("EmbPattern").EmbPattern
        I, R = z3.IntSort(), z3.RealSort()
        self.X, self.Y, self.C = z3.Function("X" + name, I, R), z3.Function("Y" + name, I, R), z3.Function("C" + name, I, I)
        self.n = c.int("len" + name, lo=0, inp=True)
        self.at = lambda k: (SymNum(self.X(num(k))), SymNum(self.Y(num(k))), SymNum(self.C(num(k))))
        self.p = p if p is not None else P()
        self.p.stitches = self.list = FList("stitches" + name, self.n, self.at)
        if prev:
            self.px, self.py = c.real("prevX" + name, inp=True), c.real("prevY" + name, inp=True)
            self.p._previousX, self.p._previousY = self.px, self.py
        else:
            self.px, self.py = self.p._previousX, self.p._previousY


def same_list(c, name, got, n, at, k):
    """got has length n and holds at(i) everywhere (k: an arbitrary index)"""
    import z3
    from .common import eqv
    from pyvc.sym import num
    from pyvc.runtime import vals

    c.prove(name + "/length", eqv(got.n, n))
    a, b = vals(got.at(k)), vals(at(k))
    inside = z3.And(num(k) >= 0, num(k) < num(n))
    c.prove(name + "/entries", len(a) == len(b))
    for f, x, y in zip(("x", "y", "command"), a, b):
        c.prove("%s/%s" % (name, f), z3.Implies(inside, eqv(x, y)))


def check_state(c, name, d, n, at, px, py, k):
    from .common import eqv

    same_list(c, name + "/stitches", d.p.stitches, n, at, k)
    c.prove(name + "/last-position-x", eqv(d.p._previousX, px))
    c.prove(name + "/last-position-y", eqv(d.p._previousY, py))
    c.prove(name + "/threads-and-metadata-unchanged", list(d.p.threadlist) == [] and d.p.extras == {})


def appended(d, v):
    from pyvc.runtime import pick
    from pyvc.sym import num

    return lambda k: pick(num(k) == num(d.n), lambda: v, lambda: d.at(k))


def inserted(d, pos, v):
    from pyvc.runtime import pick
    from pyvc.sym import num

    return lambda k: pick(num(k) < num(pos), lambda: d.at(k), lambda: pick(num(k) == num(pos), lambda: v, lambda: d.at(k - 1)))


def t_add(c, op):
    import z3
    from .common import load, eqv
    from pyvc.sym import num

    d = Design(c)
    k = c.int("k", inp=True)
    x, y, cmd = c.real("x", inp=True), c.real("y", inp=True), c.int("command", 0, inp=True)
    p, n, px, py = d.p, d.n, d.px, d.py
    K = load("EmbConstant")
    if op == "add_stitch_absolute":
        p.add_stitch_absolute(cmd, x, y)
        check_state(c, op, d, n + 1, appended(d, (x, y, cmd)), x, y, k)
    elif op == "add_stitch_relative":
        p.add_stitch_relative(cmd, x, y)
        check_state(c, op, d, n + 1, appended(d, (px + x, py + y, cmd)), px + x, py + y, k)
    elif op == "add_command":
        p.add_command(cmd, x, y)
        check_state(c, op, d, n + 1, appended(d, (x, y, cmd)), px, py, k)
    elif op == "prepend_command":
        p.prepend_command(cmd, x, y)
        check_state(c, op, d, n + 1, inserted(d, 0, (x, y, cmd)), px, py, k)
    elif op in ("stitch_abs", "move_abs"):
        getattr(p, op)(x, y)
        check_state(c, op, d, n + 1, appended(d, (x, y, K.STITCH if op == "stitch_abs" else K.JUMP)), x, y, k)
    elif op == "needle_change":
        needle = c.int("needle", 0, 200, inp=True)
        p.needle_change(needle, x, y)
        check_state(c, op, d, n + 1, appended(d, (px + x, py + y, K.NEEDLE_SET | (needle + 1) << 16)), px + x, py + y, k)
    else:
        getattr(p, op)(x, y)
        check_state(c, op, d, n + 1, appended(d, (px + x, py + y, getattr(K, _CMD[op]))), px + x, py + y, k)
    c.x.cover("done")


def t_insert(c, op):
    """python's list.insert position rules for insert; for the relative forms
    the offset is from the stitch before, or from the origin at position 0"""
    import z3
    from .common import load
    from pyvc.sym import num

    d = Design(c)
    k = c.int("k", inp=True)
    pos = c.int("position", inp=True)
    x, y, cmd = c.real("x", inp=True), c.real("y", inp=True), c.int("command", 0, inp=True)
    p, n, px, py = d.p, d.n, d.px, d.py
    K = load("EmbConstant")
    if op in ("insert", "stitch_abs", "move_abs"):
        if op == "insert":
            p.insert(pos, cmd, x, y)
        else:
            cmd = K.STITCH if op == "stitch_abs" else K.JUMP
            getattr(p, op)(x, y, pos)
        e = z3.If(pos.e < 0, z3.If(pos.e + n.e < 0, 0, pos.e + n.e), z3.If(pos.e > n.e, n.e, pos.e))
        from pyvc.sym import wrap

        check_state(c, op + "/at-position", d, n + 1, inserted(d, wrap(e), (x, y, cmd)), px, py, k)
        c.x.cover("done")
        return
    if op == "insert_stitch_relative":
        p.insert_stitch_relative(pos, cmd, x, y)
    elif op == "needle_change":
        needle = c.int("needle", 0, 200, inp=True)
        cmd = K.NEEDLE_SET | (needle + 1) << 16
        p.needle_change(needle, x, y, pos)
    else:
        cmd = getattr(K, _CMD[op])
        getattr(p, op)(x, y, pos)
    if c.branch(pos.e < 0):
        pos = pos + n
    if c.branch(num(pos) == 0):
        c.x.cover("first")
        check_state(c, op + "/at-start", d, n + 1, inserted(d, 0, (x, y, cmd)), px, py, k)
    elif c.branch(num(pos) == n.e):
        c.x.cover("append")
        check_state(c, op + "/at-end", d, n + 1, appended(d, (px + x, py + y, cmd)), px + x, py + y, k)
    elif c.branch(z3.And(num(pos) > 0, num(pos) < n.e)):
        c.x.cover("inside")
        b = d.at(pos - 1)
        check_state(c, op + "/inside", d, n + 1, inserted(d, pos, (b[0] + x, b[1] + y, cmd)), px, py, k)
    else:
        check_state(c, op + "/no-such-position", d, n, d.at, px, py, k)
    c.x.cover("done")


def t_translate(c, _=None):
    import z3
    from .common import load
    from pyvc.runtime import LoopSpec, FList, pick
    from pyvc.sym import num, SymNum

    d = Design(c)
    k = c.int("k", 0, inp=True)
    dx, dy = c.real("dx", inp=True), c.real("dy", inp=True)
    I, R = z3.IntSort(), z3.RealSort()

    def want(count):
        return lambda i: pick(num(i) < num(count), lambda: (d.at(i)[0] + dx, d.at(i)[1] + dy, d.at(i)[2]), lambda: d.at(i))

    class Spec(LoopSpec):
        frame = False

        def on_entry(self, run):
            same_list(c, "translate/inv@entry", d.list, d.n, want(0), k)

        def on_head(self, run):
            # what the invariant says, at every index
            d.list.at = want(run.count)

        def on_back(self, run, env):
            c.x.cover("each")
            same_list(c, "translate/inv@back", d.list, d.n, want(run.count), k)

    c.policy = lambda site, it, loc: Spec() if it is d.list else None
    d.p.translate(dx, dy)
    c.x.cover("done")
    c.prove("translate/same-list", d.p.stitches is d.list)
    check_state(c, "translate", d, d.n, want(d.n), d.px, d.py, k)


class Extrema(object):
    """loop invariants: every scalar is, for some axis, the least or greatest
    coordinate visited so far, and is attained by a visited stitch"""

    def __init__(self, c, d, k):
        self.c, self.d, self.k, self.wit = c, d, k, {}

    def inv(self, v, axis, greatest, count, wit):
        import z3
        import math
        from pyvc.sym import num

        F = (self.d.X, self.d.Y)[axis]
        if isinstance(v, float) and math.isinf(v):
            return z3.And(num(count) == 0, z3.BoolVal((v < 0) == greatest))
        e = z3.ToReal(num(v)) if num(v).sort() == z3.IntSort() else num(v)
        k = num(self.k)
        ext = e >= F(k) if greatest else e <= F(k)
        return z3.And(
            z3.Implies(z3.And(k >= 0, k < num(count)), ext),
            z3.Or([z3.And(num(w) >= 0, num(w) < num(count), e == F(num(w))) for w in wit]),
        )


def t_bounds(c, which):
    import z3
    from pyvc.runtime import LoopSpec
    from pyvc.sym import num

    d = Design(c)
    k = c.int("k", inp=True)
    X = Extrema(c, d, k)
    c.assume(d.n > 0)

    class Spec(LoopSpec):
        phase = "entry"

        def on_head(self, run):
            self.phase = "head"
            self.at = run.count

        def on_back(self, run, env):
            self.phase = "back"
            c.x.cover("each")

        def pairs(self, run, vals):
            out = []
            for n, v in vals.items():
                if not isinstance(n, str) or v is None or (num(v) is None and not isinstance(v, float)):
                    continue
                if self.phase == "head":
                    X.wit[n] = c.int("witness_" + n)
                w = [] if self.phase == "entry" else [X.wit[n]] + ([self.at] if self.phase == "back" else [])
                for axis in (0, 1):
                    for g in (0, 1):
                        out.append((("extreme", n, axis, g), X.inv(v, axis, bool(g), run.count, w or [z3.IntVal(-1)])))
            return out

    c.policy = lambda site, it, loc: Spec() if it is d.list else None
    b = getattr(d.p, which)()
    c.x.cover("done")
    c.prove(which + "/four-values", len(b) == 4)
    for i, (name, axis, g) in enumerate((("min-x", 0, False), ("min-y", 1, False), ("max-x", 0, True), ("max-y", 1, True))):
        c.prove("%s/%s" % (which, name), X.inv(b[i], axis, g, d.n, list(X.wit.values()) or [z3.IntVal(-1)]))
    check_state(c, which, d, d.n, d.at, d.px, d.py, k)


def t_empty_bounds(c, which):
    from .common import load

    p = load("EmbPattern").EmbPattern()
    b = getattr(p, which)()
    i = float("inf")
    c.prove(which + "/empty", tuple(b) == (i, i, -i, -i))
    c.x.cover("done")


def t_count(c, what):
    """number of stitches whose low byte is the command (a recursive count)"""
    import z3
    from .common import load, eqv
    from pyvc.runtime import LoopSpec
    from pyvc.sym import num, SymNum

    d = Design(c)
    k = c.int("k", inp=True)
    K = load("EmbConstant")
    cmd = {"any": c.int("wanted", 0, 255, inp=True), "changes": K.COLOR_CHANGE, "needles": K.NEEDLE_SET}[what]
    CNT = z3.Function("count", z3.IntSort(), z3.IntSort())
    c.assume(CNT(0) == 0)

    class Spec(LoopSpec):
        def ghosts(self, phase, run):
            return {"occurrences": SymNum(CNT(num(run.count)))}

        def on_elem(self, run, idx, elem):
            low = d.at(idx)[2] & 0xFF
            c.assume(CNT(num(idx) + 1) == CNT(num(idx)) + z3.If(num(low) == num(cmd), 1, 0))

        def on_back(self, run, env):
            c.x.cover("each")

    c.policy = lambda site, it, loc: Spec() if it is d.list else None
    if what == "any":
        r = d.p.count_stitch_commands(cmd)
    elif what == "changes":
        r = d.p.count_color_changes()
    else:
        r = d.p.count_needle_sets()
    c.x.cover("done")
    c.prove("count/%s/exact" % what, eqv(r, SymNum(CNT(num(d.n)))))
    check_state(c, "count", d, d.n, d.at, d.px, d.py, k)


def t_len(c, _=None):
    from .common import eqv

    d = Design(c)
    c.prove("count_stitches/post", eqv(d.p.count_stitches(), d.n))
    c.x.cover("done")


def t_match(c, _=None):
    """get_match_commands yields, at each stitch, it and only it when it
    carries the command"""
    import z3
    from .common import eqv
    from pyvc.runtime import LoopSpec
    from pyvc.sym import num

    d = Design(c)
    cmd = c.int("wanted", 0, 255, inp=True)
    got = []

    class Spec(LoopSpec):
        frame = False

        def on_head(self, run):
            del got[:]

        def on_back(self, run, env):
            c.x.cover("each")
            e = d.at(run.iter_index)
            hit = c.branch(num(e[2] & 0xFF) == num(cmd))
            c.prove("get_match_commands/exactly-the-matching", len(got) == (1 if hit else 0))
            if hit:
                c.prove("get_match_commands/the-stitch", z3.And([eqv(a, b) for a, b in zip(got[0], e)]))

    c.policy = lambda site, it, loc: Spec() if it is d.list else None
    for s in d.p.get_match_commands(cmd):
        got.append(list(s))
    c.x.cover("done")


def t_center(c, _=None):
    import z3
    from .common import load, eqv
    from pyvc.sym import num

    d = Design(c)
    k = c.int("k", inp=True)
    b = [c.real(n, inp=True) for n in ("min_x", "min_y", "max_x", "max_y")]
    c.assume(b[0] <= b[2])
    c.assume(b[1] <= b[3])
    d.p.bounds = lambda: tuple(b)
    moves = []
    d.p.translate = lambda x, y: moves.append((x, y))
    d.p.move_center_to_origin()
    c.prove("move_center_to_origin/one-translation", len(moves) == 1)
    for n, i in (("x", 0), ("y", 1)):
        t = num(moves[0][i])
        t = z3.ToReal(t) if t.sort() == z3.IntSort() else t
        mid = (num(b[i]) + num(b[i + 2])) / 2
        c.prove("move_center_to_origin/%s-within-half" % n, z3.And(2 * (mid + t) <= 1, 2 * (mid + t) >= -1))
    check_state(c, "move_center_to_origin", d, d.n, d.at, d.px, d.py, k)
    c.x.cover("done")


def t_iadd(c, what):
    """+= and add_block add the entries of a list one after the other, as
    absolute positions"""
    import z3
    from .common import load, eqv
    from pyvc.runtime import LoopSpec, FList, pick, SymSeq
    from pyvc.sym import num, SymNum

    how, width = what
    K = load("EmbConstant")
    d = Design(c)
    k = c.int("k", inp=True)
    I, R = z3.IntSort(), z3.RealSort()
    BX, BY, BC = z3.Function("bx", I, R), z3.Function("by", I, R), z3.Function("bc", I, I)
    m = c.int("block", 1, inp=True)

    def entry(i):
        v = (SymNum(BX(num(i))), SymNum(BY(num(i))))
        return v + (SymNum(BC(num(i))),) if width == 3 else v

    def full(i):
        return entry(i) if width == 3 else entry(i) + (K.STITCH,)

    block = FList("block", m, entry, width, wrap_elem=tuple)

    def want(count):
        return lambda i: pick(num(i) < num(d.n), lambda: d.at(i), lambda: full(i - d.n))

    def prev(count):
        j = num(count)
        return SymNum(z3.If(j == 0, num(d.px), BX(j - 1))), SymNum(z3.If(j == 0, num(d.py), BY(j - 1)))

    class Spec(LoopSpec):
        frame = False

        def state(self, name, run):
            same_list(c, name, d.list, d.n + run.count, want(run.count), k)
            a = prev(run.count)
            c.prove(name + "/last-x", eqv(d.p._previousX, a[0]))
            c.prove(name + "/last-y", eqv(d.p._previousY, a[1]))

        def on_entry(self, run):
            self.state(how + "/inv@entry", run)

        def on_head(self, run):
            d.list.n, d.list.at = d.n + run.count, want(run.count)
            d.p._previousX, d.p._previousY = prev(run.count)

        def on_back(self, run, env):
            c.x.cover("each")
            self.state(how + "/inv@back", run)

    c.policy = lambda site, it, loc: Spec() if it is block else None
    q = d.p
    if how == "iadd":
        q += block
        c.prove("iadd/same-object", q is d.p)
        n, at = d.n + m, want(m)
    else:
        d.p.add_block(block)
        n = d.n + m + 1
        at = lambda i: pick(num(i) == num(d.n + m), lambda: (0, 0, K.COLOR_BREAK), lambda: want(m)(i))
    c.x.cover("done")
    a = prev(m)
    check_state(c, how, d, n, at, a[0], a[1], k)


_CMD = {"move": "JUMP", "stitch": "STITCH", "stop": "STOP", "trim": "TRIM", "color_change": "COLOR_CHANGE", "sequin_eject": "SEQUIN_EJECT", "sequin_mode": "SEQUIN_MODE", "end": "END"}
_Q = "EmbPattern.EmbPattern."
TASKS = {
    "translate": {"fn": t_translate, "functions": [_Q + "translate"], "covers": ["each", "done"]},
    "center": {"fn": t_center, "functions": [_Q + "move_center_to_origin"], "covers": ["done"]},
    "match": {"fn": t_match, "functions": [_Q + "get_match_commands"], "covers": ["each", "done"]},
    "len": {"fn": t_len, "functions": [_Q + "count_stitches"], "covers": ["done"]},
}
for _o in ("add_stitch_absolute", "add_stitch_relative", "add_command", "prepend_command", "stitch_abs", "move_abs", "needle_change") + tuple(_CMD):
    TASKS["add:" + _o] = {"fn": t_add, "arg": _o, "functions": [_Q + _o, _Q + "add_stitch_absolute", _Q + "add_stitch_relative"], "covers": ["done"]}
for _o in ("insert", "stitch_abs", "move_abs"):
    TASKS["insert:" + _o] = {"fn": t_insert, "arg": _o, "functions": [_Q + _o, _Q + "insert"], "covers": ["done"]}
for _o in ("insert_stitch_relative", "needle_change") + tuple(_CMD):
    TASKS["insert:" + _o] = {"fn": t_insert, "arg": _o, "functions": [_Q + _o, _Q + "insert_stitch_relative"], "covers": ["first", "append", "inside", "done"]}
for _o in ("bounds", "extents", "extends"):
    TASKS[_o] = {"fn": t_bounds, "arg": _o, "functions": [_Q + "bounds"], "covers": ["each", "done"]}
    TASKS[_o + ":empty"] = {"fn": t_empty_bounds, "arg": _o, "functions": [_Q + "bounds"], "covers": ["done"]}
for _o in ("any", "changes", "needles"):
    TASKS["count:" + _o] = {"fn": t_count, "arg": _o, "functions": [_Q + "count_stitch_commands", _Q + "count_color_changes", _Q + "count_needle_sets"], "covers": ["each", "done"]}
for _o in ("iadd", "add_block"):
    for _w in (2, 3):
        TASKS["%s:%d" % (_o, _w)] = {"fn": t_iadd, "arg": (_o, _w), "functions": [_Q + ("__iadd__" if _o == "iadd" else "add_block")], "covers": ["each", "done"]}
