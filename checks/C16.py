"""C16: splitting a design into blocks loses and duplicates nothing."""
from . import gen as G

ASSUMPTIONS = ["the design is not changed while its blocks are being consumed"]
RULE = "every command sequence up to a length over the relevant commands, and random designs; non-trivial = distinct design"
BUDGET = 20
KNOWN = []


def o_blocks(case):
    from pyvc.concrete import Violation

    p = G.build(case)
    src = list(p.stitches)
    snap = [list(s) for s in src]
    T = list(p.threadlist)

    def thread_ok(k, t):
        return t is not None and (k >= len(T) or t is T[k] or t == T[k])

    # command blocks
    out = []
    for b in p.get_as_command_blocks():
        out += b
        cs = {s[2] & 0xFF for s in b}
        if len(cs) > 1:
            raise Violation("a command block holds the commands %r" % sorted(cs))
    if [list(s) for s in out] != snap:
        raise Violation("the command blocks hold %d entries, the design %d (or other ones)" % (len(out), len(snap)))
    # colour blocks
    out = []
    k = 0
    for b, t in p.get_as_colorblocks():
        if not thread_ok(k, t):
            raise Violation("colour block %d carries thread %r" % (k, t))
        k += 1
        out += b
        n = len(b)
        for i, s in enumerate(b):
            c = s[2] & 0xFF
            if c == G.COLOR_CHANGE and i != n - 1:
                raise Violation("a colour change lies inside colour block %d" % (k - 1))
            if c == G.NEEDLE_SET and i != 0:
                raise Violation("a needle change lies inside colour block %d" % (k - 1))
        if not b:
            raise Violation("colour block %d is empty" % (k - 1))
    if [list(s) for s in out] != [s for s in snap if s[2] & 0xFF != G.COLOR_BREAK]:
        raise Violation("the colour blocks hold %r, the design %r" % ([list(s) for s in out][:30], snap[:30]))
    # stitch blocks
    want = []
    k = 0
    for s in snap:
        if s[2] & 0xFF == G.STITCH:
            want.append((s, k))
        elif s[2] & 0xFF == G.COLOR_CHANGE:
            k += 1
    got = []
    for b, t in p.get_as_stitchblock():
        if not b:
            raise Violation("an empty stitch block")
        got += [(list(s), t) for s in b]
    if [s for s, t in got] != [s for s, k in want]:
        raise Violation("the stitch blocks hold %r, the design %r" % ([s for s, t in got][:30], [s for s, k in want][:30]))
    for (s, t), (s2, k) in zip(got, want):
        if not thread_ok(k, t):
            raise Violation("stitch %r is given thread %r, current is number %d" % (s, t, k))
    if [list(s) for s in p.stitches] != snap or p.threadlist != T:
        raise Violation("splitting changed the design")
    # decoded view
    from pyembroidery import decode_embroidery_command

    v = list(p.get_as_stitches())
    if len(v) != len(snap):
        raise Violation("get_as_stitches yields %d of %d" % (len(v), len(snap)))
    for i, (e, s) in enumerate(zip(v, snap)):
        if tuple(e) != (i, s[0], s[1]) + tuple(decode_embroidery_command(s[2])):
            raise Violation("get_as_stitches entry %d is %r for %r" % (i, e, s))


def concrete(run):
    import itertools

    r = run.rng
    al = (G.STITCH, G.COLOR_CHANGE, G.COLOR_BREAK, G.NEEDLE_SET, G.JUMP, G.STOP)
    for n in range(0, 6):
        for seq in itertools.product(al, repeat=n):
            run.case(o_blocks, {"s": [[i, i, c] for i, c in enumerate(seq)], "t": [0x010101 * i for i in range((n + seq.count(5)) % 4)]}, "exhaustive")
        if not run.more():
            return
    g = G.Gen(r, [])
    while run.more() and run.evals < 100000:
        cm = r.sample(G.ALL, r.randint(1, 6)) + list(al)
        s = [[r.randint(-9, 9), r.randint(-9, 9), r.choice(cm) | (r.choice((0, 0, 0, 1 << 8, 3 << 16)))] for _ in range(r.choice((0, 1, 2, 5, 20, 60)))]
        run.case(o_blocks, {"s": s, "t": g.threads(r.randint(0, 9))})


# ------------------------------------------------------------------ contracts
def _setup(c):
    import z3
    from .C14 import Design
    from .common import load
    from pyvc.sym import num, SymNum, wrap

    d = Design(c)
    cmd = lambda i: num(d.at(wrap(num(i)))[2] & 0xFF)
    return z3, d, cmd, load("EmbConstant")


class Tok(object):
    """the thread (or filler) number `i` of the design"""

    def __init__(self, i):
        self.i = i


def _part(c, name, d, b):
    """the block is a run [lo, hi) of the design's own list"""
    part = getattr(b, "part", None)
    c.prove(name + "/block-is-a-run-of-the-design", part is not None and part[0] is d.list)
    if part is None:
        from pyvc.core import PathEnd

        raise PathEnd()
    return part[1], part[2]


def t_command(c, _=None):
    from pyvc.runtime import LoopSpec
    from pyvc.sym import num, wrap

    z3, d, cmd, K = _setup(c)
    k = c.int("k", 0, inp=True).e
    g = {"E": 0}

    class Spec(LoopSpec):
        def ghosts(self, phase, run):
            e, n = num(g["E"]), num(run.count)
            return {"E": g["E"], "current": wrap(z3.If(n == 0, z3.IntVal(K.NO_COMMAND), cmd(e)))}

        def inv(self, run):
            e, n = num(g["E"]), num(run.count)
            return z3.And(e >= 0, e <= n, z3.Implies(n > 0, e < n), z3.Implies(z3.And(k >= e, k < n), cmd(k) == cmd(e)))

        def on_entry(self, run):
            c.prove("get_as_command_blocks/inv@entry", self.inv(run))

        def on_head(self, run):
            g["E"] = c.int("E", 0)
            c.assume(self.inv(run))

        def on_back(self, run, env):
            c.x.cover("each")
            c.prove("get_as_command_blocks/inv@back", self.inv(run))

    c.policy = lambda site, it, loc: Spec() if getattr(it, "seq", it) is d.list else None
    for b in d.p.get_as_command_blocks():
        c.x.cover("yield")
        lo, hi = _part(c, "get_as_command_blocks", d, b)
        c.prove("get_as_command_blocks/starts-where-the-last-ended", num(lo) == num(g["E"]))
        c.prove("get_as_command_blocks/single-command", z3.Implies(z3.And(k >= num(lo), k < num(hi)), cmd(k) == cmd(lo)))
        g["E"] = hi
    c.prove("get_as_command_blocks/nothing-left", num(g["E"]) == num(d.n))
    c.prove("get_as_command_blocks/design-unchanged", d.p.stitches is d.list and not d.list.writes)
    c.x.cover("done")


def t_color(c, _=None):
    from pyvc.runtime import LoopSpec
    from pyvc.sym import num, wrap

    z3, d, cmd, K = _setup(c)
    k = c.int("k", 0, inp=True).e
    g = {"E": 0, "B": 0}
    d.p.get_thread_or_filler = lambda i: Tok(i)
    N = "get_as_colorblocks"

    class Spec(LoopSpec):
        def ghosts(self, phase, run):
            return {"E": g["E"], "blocks": g["B"]}

        def inv(self, run):
            e, n = num(g["E"]), num(run.count)
            return z3.And(
                e >= 0, e <= n, num(g["B"]) >= 0,
                z3.Implies(z3.And(k >= e, k < n), z3.And(cmd(k) != K.COLOR_BREAK, cmd(k) != K.COLOR_CHANGE, z3.Implies(k > e, cmd(k) != K.NEEDLE_SET))),
            )

        def on_entry(self, run):
            c.prove(N + "/inv@entry", self.inv(run))

        def on_head(self, run):
            g["E"], g["B"] = c.int("E", 0), c.int("blocks", 0)
            c.assume(self.inv(run))

        def pre_back(self, run, env):
            i = num(run.count) - 1
            e = num(g["E"])
            # a colour break belongs to no block
            g["E"] = wrap(z3.If(z3.And(e == i, cmd(i) == K.COLOR_BREAK), i + 1, e))

        def on_back(self, run, env):
            c.x.cover("each")
            c.prove(N + "/inv@back", self.inv(run))

    c.policy = lambda site, it, loc: Spec() if getattr(it, "seq", it) is d.list else None
    for b, t in d.p.get_as_colorblocks():
        c.x.cover("yield")
        lo, hi = _part(c, N, d, b)
        inside = z3.And(k >= num(lo), k < num(hi))
        c.prove(N + "/starts-where-the-last-ended", num(lo) == num(g["E"]))
        c.prove(N + "/not-empty", num(lo) < num(hi))
        c.prove(N + "/thread-number", isinstance(t, Tok) and num(t.i) == num(g["B"]))
        c.prove(N + "/no-colour-break-inside", z3.Implies(inside, cmd(k) != K.COLOR_BREAK))
        c.prove(N + "/colour-change-only-at-the-end", z3.Implies(z3.And(inside, k != num(hi) - 1), cmd(k) != K.COLOR_CHANGE))
        c.prove(N + "/needle-change-only-at-the-start", z3.Implies(z3.And(inside, k != num(lo)), cmd(k) != K.NEEDLE_SET))
        g["E"], g["B"] = hi, g["B"] + 1
    c.prove(N + "/nothing-left", num(g["E"]) == num(d.n))
    c.prove(N + "/design-unchanged", d.p.stitches is d.list and not d.list.writes)
    c.x.cover("done")


def t_stitch(c, _=None):
    """CNT(i): number of plain stitches before i; CC(i): colour changes before
    i.  The list being collected holds the plain stitches number D, D+1, ..."""
    from pyvc.runtime import LoopSpec, VList, Ref
    from pyvc.sym import num, wrap, SymNum

    z3, d, cmd, K = _setup(c)
    I = z3.IntSort()
    CNT, CC = z3.Function("stitches_before", I, I), z3.Function("changes_before", I, I)
    c.assume(CNT(0) == 0)
    c.assume(CC(0) == 0)
    q = c.int("q", 0, inp=True).e  # any plain stitch
    c.assume(z3.And(q < num(d.n), cmd(q) == K.STITCH))
    c.assume(CNT(q + 1) == CNT(q) + 1)
    c.assume(CNT(q) >= 0)
    g = {"D": 0}
    sent = []
    d.p.get_thread_or_filler = lambda i: Tok(i)
    N = "get_as_stitchblock"

    def step(i):
        i = num(i)
        c.assume(CNT(i + 1) == CNT(i) + z3.If(cmd(i) == K.STITCH, 1, 0))
        c.assume(CC(i + 1) == CC(i) + z3.If(cmd(i) == K.COLOR_CHANGE, 1, 0))
        # counts never decrease
        c.assume(z3.And(z3.Implies(q < i, CNT(q) < CNT(i)), z3.Implies(q >= i, CNT(q) >= CNT(i)), z3.Implies(q < i + 1, CNT(q) < CNT(i + 1)), z3.Implies(q >= i + 1, CNT(q) >= CNT(i + 1))))

    def check_tail(lst):
        t = lst.tail()
        total = num(lst.vc_total())
        for j, s in enumerate(t):
            ok = isinstance(s, Ref) and s.l is d.list
            c.prove(N + "/collects-the-design's-own-stitches", ok)
            pos = num(g["D"]) + total - len(t) + j
            c.prove(N + "/collected-in-order", z3.And(cmd(s.i) == K.STITCH, CNT(num(s.i)) == pos))

    class Spec(LoopSpec):
        def ghosts(self, phase, run):
            n = num(run.count)
            return {"pending": wrap(CNT(n) - num(g["D"])), "changes": wrap(CC(n)), "changes+1": wrap(CC(n) + 1)}

        def inv(self, run):
            n = num(run.count)
            return z3.And(num(g["D"]) >= 0, num(g["D"]) <= CNT(n), z3.Implies(z3.And(q < n, CNT(q) >= num(g["D"])), CC(q) == CC(n)))

        def on_entry(self, run):
            c.prove(N + "/inv@entry", self.inv(run))

        def havoc(self, run, name, v0):
            if isinstance(v0, Tok):
                return Tok(c.int("thread_no"))
            return NotImplemented

        def on_head(self, run):
            g["D"] = c.int("delivered", 0)
            del sent[:]
            c.assume(self.inv(run))
            for v in run.cur.values():
                if isinstance(v, Tok):
                    c.assume(num(v.i) == CC(num(run.count)))
            step(run.count)
            self.toks = [n for n, v in run.cur.items() if isinstance(v, Tok)]

        def on_back(self, run, env):
            c.x.cover("each")
            for n in self.toks:
                c.prove(N + "/thread-is-the-current-one@back", isinstance(env[n], Tok) and num(env[n].i) == CC(num(run.count)))
            for l, n in sent:
                c.prove(N + "/block-not-changed-afterwards", num(l.vc_total()) == n)
            ls = [v for v in env.values() if isinstance(v, VList)]
            c.prove(N + "/one-collection", len(ls) == 1)
            check_tail(ls[0])
            c.prove(N + "/all-stitches-so-far-delivered-or-collected", num(ls[0].vc_total()) == CNT(num(run.count)) - num(g["D"]))
            c.prove(N + "/inv@back", self.inv(run))

    c.policy = lambda site, it, loc: Spec() if it is d.list else None
    for b, t in d.p.get_as_stitchblock():
        c.x.cover("yield")
        c.prove(N + "/a-list", isinstance(b, VList))
        check_tail(b)
        n = num(b.vc_total())
        c.prove(N + "/not-empty", n > 0)
        here = z3.And(CNT(q) >= num(g["D"]), CNT(q) < num(g["D"]) + n)
        c.prove(N + "/thread-current-at-every-stitch", isinstance(t, Tok) and z3.Implies(here, CC(q) == num(t.i)))
        g["D"] = wrap(num(g["D"]) + n)
        sent.append((b, n))
    c.prove(N + "/nothing-left", num(g["D"]) == CNT(num(d.n)))
    c.prove(N + "/design-unchanged", d.p.stitches is d.list and not d.list.writes)
    c.x.cover("done")


def t_stitches(c, _=None):
    from .common import load, eqv
    from pyvc.runtime import LoopSpec
    from pyvc.sym import num

    z3, d, cmd, K = _setup(c)
    got = []
    dec = load("EmbFunctions").decode_embroidery_command

    class Spec(LoopSpec):
        def on_head(self, run):
            del got[:]

        def on_back(self, run, env):
            c.x.cover("each")
            i = run.iter_index
            e = d.at(i)
            c.prove("get_as_stitches/one-entry-each", len(got) == 1 and len(got[0]) == 7)
            for a, b in zip(got[0], (i, e[0], e[1]) + tuple(dec(e[2]))):
                c.prove("get_as_stitches/entry", eqv(a, b))

    c.policy = lambda site, it, loc: Spec() if getattr(it, "seq", it) is d.list else None
    for e in d.p.get_as_stitches():
        got.append(e)
    c.x.cover("done")


def t_filler(c, _=None):
    """thread number i of the design, or some thread when there is none"""
    from .common import load, eqv
    from pyvc.runtime import FList
    from pyvc.sym import num
    import z3

    P, T = load("EmbPattern").EmbPattern, load("EmbThread").EmbThread
    p = P()
    n, i = c.int("threads", 0, inp=True), c.int("i", 0, inp=True)
    p.threadlist = lst = FList("threads", n, lambda k: (k,), 1, wrap_elem=lambda v: Tok(v[0]))
    t = p.get_thread_or_filler(i)
    if isinstance(t, Tok):
        c.x.cover("thread")
        c.prove("get_thread_or_filler/thread-number", z3.And(i.e < n.e, eqv(t.i, i)))
    else:
        c.x.cover("filler")
        c.prove("get_thread_or_filler/filler-only-beyond-the-list", i >= n)
        c.prove("get_thread_or_filler/a-thread", isinstance(t, T))
    c.prove("get_thread_or_filler/list-unchanged", z3.And(z3.BoolVal(p.threadlist is lst), eqv(lst.n, n)))


_Q = "EmbPattern.EmbPattern."
TASKS = {
    "filler": {"fn": t_filler, "functions": [_Q + "get_thread_or_filler", _Q + "get_random_thread"], "covers": ["thread", "filler"]},
    "command-blocks": {"fn": t_command, "functions": [_Q + "get_as_command_blocks"], "covers": ["each", "yield", "done"]},
    "colour-blocks": {"fn": t_color, "functions": [_Q + "get_as_colorblocks"], "covers": ["each", "yield", "done"]},
    "stitch-blocks": {"fn": t_stitch, "functions": [_Q + "get_as_stitchblock"], "covers": ["each", "yield", "done"]},
    "stitches": {"fn": t_stitches, "functions": [_Q + "get_as_stitches"], "covers": ["each", "done"]},
}
