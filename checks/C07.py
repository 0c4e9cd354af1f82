"""C07: VP3 files keep every stitch without drift."""
from . import product, roundtrip
from .C02 import t_pair
from .roundtrip import o_roundtrip

ASSUMPTIONS = [
    "the design is one the preparation step produces for VP3 (C08-C10); END, where present, is its last entry",
    "coordinates are within +-16000 units (1.6 m): the format keeps a displacement in 16 bits",
    "coordinates are exact real numbers (floating-point rounding is not modelled)",
    "the block product uses one concrete thread; text fields are length-prefixed (C20) and do not touch the stitches",
    "the centre the reader takes from the header is the one the colour blocks were written against: proved for a one-block design through the whole writer and reader, the loop over blocks passes the same centre to every block (tasks write-blocks, read-blocks)",
    "the end of a block named by its distance field is the end of what write_vp3_colorblock wrote: C20",
]
RULE = "write+read of structured and random designs through the real package against the prepared design; non-trivial = distinct design"
BUDGET = 30
FMTS = ['vp3']
KNOWN = []


def t_split(c, _=None):
    """VP3's own get_as_colorblocks: the blocks are consecutive runs which
    cover the design, each but the first starting at a colour change, block k
    with thread k"""
    from .C16 import _setup, _part, Tok
    from .common import load
    from pyvc.runtime import LoopSpec
    from pyvc.sym import num

    z3, d, cmd, K = _setup(c)
    W = load("Vp3Writer")
    k = c.int("k", 0, inp=True).e
    g = {"E": 0, "B": 0}
    d.p.get_thread_or_filler = lambda i: Tok(i)
    N = "Vp3Writer.get_as_colorblocks"

    class Spec(LoopSpec):
        def ghosts(self, phase, run):
            return {"E": g["E"], "blocks": g["B"]}

        def inv(self, run):
            e, n = num(g["E"]), num(run.count)
            return z3.And(e >= 0, e <= n, num(g["B"]) >= 0, (num(g["B"]) == 0) == self.none, z3.Implies(num(g["B"]) == 0, e == 0),
                          z3.Implies(num(g["B"]) > 0, z3.And(e < n, cmd(e) == K.COLOR_CHANGE)),
                          z3.Implies(z3.And(k > e, k < n), cmd(k) != K.COLOR_CHANGE),
                          z3.Implies(z3.And(num(g["B"]) == 0, k >= 0, k < n), cmd(k) != K.COLOR_CHANGE))

        none = None

        def on_entry(self, run):
            self.none = num(g["B"]) == 0
            c.prove(N + "/inv@entry", self.inv(run))

        def on_head(self, run):
            g["E"], g["B"] = c.int("E", 0), c.int("blocks", 0)
            self.none = num(g["B"]) == 0
            c.assume(self.inv(run))

        def on_back(self, run, env):
            c.x.cover("each")
            self.none = num(g["B"]) == 0
            c.prove(N + "/inv@back", self.inv(run))

    c.policy = lambda site, it, loc: Spec() if getattr(it, "seq", it) is d.list else None
    for b, t in W.get_as_colorblocks(d.p):
        c.x.cover("yield")
        lo, hi = _part(c, N, d, b)
        c.prove(N + "/starts-where-the-last-ended", num(lo) == num(g["E"]))
        c.prove(N + "/thread-number", isinstance(t, Tok) and num(t.i) == num(g["B"]))
        c.prove(N + "/later-blocks-start-with-a-colour-change", z3.Implies(num(g["B"]) > 0, cmd(lo) == K.COLOR_CHANGE))
        c.prove(N + "/no-other-colour-change", z3.Implies(z3.And(k >= num(lo), k < num(hi), z3.Or(k != num(lo), num(g["B"]) == 0)), cmd(k) != K.COLOR_CHANGE))
        g["E"], g["B"] = hi, g["B"] + 1
    c.prove(N + "/nothing-left", num(g["E"]) == num(d.n))
    c.prove(N + "/design-unchanged", d.p.stitches is d.list and not d.list.writes)
    c.x.cover("done")


def t_write_blocks(c, _=None):
    """write_design_block writes every block once, in order, against the
    centre in the header; only the first is marked first"""
    import z3
    from .common import load, eqv
    from pyvc.runtime import LoopSpec, SymSeq, OutStream
    from pyvc.sym import num, SymBool

    W = load("Vp3Writer")
    log, heads = [], []
    S = z3.Function("block_stitches", z3.IntSort(), z3.IntSort())

    class Part(object):
        def __init__(self, kind, i):
            self.kind, self.i = kind, i

    n = c.int("blocks", 0, inp=True)
    seq = SymSeq("blocks", lambda i: (Part("stitches", i), Part("thread", i)), length=n)
    keep = W.write_vp3_colorblock
    W.write_vp3_colorblock = lambda f, first, cx, cy, st, th: log.append((f, first, cx, cy, st, th))
    fields = []
    keep32, keep16 = W.write_int_32be, W.write_int_16be
    W.write_int_32be = lambda f, v: fields.append(v)
    W.write_int_16be = lambda f, v: fields.append(v)
    f = OutStream()
    B = "write_design_block"

    class Spec(LoopSpec):
        def pairs(self, run, vals):
            k = num(run.count)
            out = []
            for m, v in vals.items():
                if isinstance(m, str) and isinstance(v, (bool, SymBool)):
                    e = v.e if isinstance(v, SymBool) else z3.BoolVal(v)
                    out.append((("first", m), e == (k == 0)))
                    out.append((("later", m), e == (k != 0)))
            return out

        def on_entry(self, run):
            c.prove(B + "/nothing-before", not log)

        def on_head(self, run):
            del log[:]

        def on_back(self, run, env):
            c.x.cover("each")
            i = run.iter_index
            c.prove(B + "/one-block", len(log) == 1)
            for g, first, cx, cy, st, th in log:
                fe = first.e if isinstance(first, SymBool) else z3.BoolVal(bool(first))
                c.prove(B + "/first", fe == (num(i) == 0))
                c.prove(B + "/its-stitches", isinstance(st, Part) and st.kind == "stitches" and z3.simplify(num(st.i) == num(i)))
                c.prove(B + "/its-thread", isinstance(th, Part) and th.kind == "thread" and z3.simplify(num(th.i) == num(i)))
                c.prove(B + "/same-stream", g is f)
                for name, v, w, s in (("x", cx, fields[1], 100), ("y", cy, fields[2], -100)):
                    c.prove(B + "/centre-%s-is-the-one-in-the-header" % name, eqv(w, v * s))
                c.prove(B + "/number-of-blocks", len([v for v in fields if v is n]) == 1)

    c.policy = lambda site, it, loc: Spec() if it is seq else None
    e = [c.real(m, inp=True) for m in ("min_x", "min_y", "max_x", "max_y")]
    try:
        W.write_design_block(f, tuple(e), seq)
    finally:
        W.write_vp3_colorblock, W.write_int_32be, W.write_int_16be = keep, keep32, keep16
    c.prove(B + "/nothing-after", not log)
    c.x.cover("done")


def t_read_blocks(c, _=None):
    """the reader reads `count` blocks against one centre and puts exactly one
    colour change between two blocks, END after the last"""
    import z3
    from .common import load, eqv
    from pyvc.runtime import LoopSpec, SymRange, mkbytes
    from pyvc.sym import num

    R, P, K = load("Vp3Reader"), load("EmbPattern"), load("EmbConstant")
    log, ev, centres = [], [], []
    keep = R.vp3_read_colorblock
    R.vp3_read_colorblock = lambda f, out, x, y: (log.append((x, y)), ev.append("block"))
    o = P.EmbPattern()
    o.color_change = lambda *a: ev.append("change")
    o.end = lambda *a: ev.append("end")

    class S(object):
        __vc_ghost__ = True

        def read(self, n=None):
            if hasattr(n, "__index__") and not isinstance(n, int):
                n = n.__index__()
            return mkbytes([c.int("hdr", 0, 255) for _ in range(n)], force=True)

        def seek(self, *a):
            return 0

        def tell(self):
            return c.int("pos", lo=0)

    class Spec(LoopSpec):
        inv_ = None

        def on_entry(self, run):
            c.prove("vp3-read/nothing-before", not ev)

        def on_head(self, run):
            del ev[:], log[:]

        def on_back(self, run, env):
            c.x.cover("each")
            n = num(run.it.vc_len())
            more = c.branch(num(run.count) < n)
            c.prove("vp3-read/one-block-then-a-change-iff-another-follows", ev == (["block", "change"] if more else ["block"]))
            for a, b in log:
                centres.append((a, b))
                for v in (a, b):
                    c.prove("vp3-read/centre-not-changed-by-the-loop", not any(v is run.hvals.get(m) for m in run.names))
            c.x.cover("change" if more else "last")

    c.policy = lambda site, it, loc: Spec() if isinstance(it, SymRange) else None
    try:
        R.read(S(), o)
    finally:
        R.vp3_read_colorblock = keep
    c.prove("vp3-read/end-last", ev[-1:] == ["end"])
    c.x.cover("done")


_F = ["Vp3Writer.write_stitches_block", "Vp3Writer.write_vp3_colorblock", "Vp3Reader.vp3_read_colorblock", "Vp3Reader.signed32"]
TASKS = {
    "read_signed": {"fn": product.t_read_signed, "functions": ["ReadHelper.read_signed"], "covers": ["done"]},
    "long-form": {"fn": product.t_vp3_long, "functions": ["Vp3Writer.write_int_16be", "Vp3Reader.signed16"], "covers": ["done"]},
    "field": {"fn": t_pair, "arg": ("write_int_32be", "read_int_32be", 4), "functions": ["WriteHelper.write_int_32be", "ReadHelper.read_int_32be"], "covers": ["written"]},
    "split": {"fn": t_split, "functions": ["Vp3Writer.get_as_colorblocks"], "covers": ["each", "yield", "done"]},
    "write-blocks": {"fn": t_write_blocks, "functions": ["Vp3Writer.write_design_block"], "covers": ["each", "done"]},
    "read-blocks": {"fn": t_read_blocks, "functions": ["Vp3Reader.read"], "covers": ["each", "change", "last", "done"]},
}
for _i in (True, False):
    for _p in ("first", "later", "design"):
        TASKS["block:%s:%s" % (_p, "whole" if _i else "real")] = {
            "fn": product.t_vp3, "arg": (_i, _p), "functions": _F + (["Vp3Writer.write", "Vp3Writer.write_file", "Vp3Writer.write_design_block", "Vp3Reader.read"] if _p == "design" else []),
            "tier": "thorough" if _p == "design" and not _i else "quick", "limit": 700, "opts": {"budget_s": 600},
            "covers": ["written", "consumed", "finished"] + ["cmd-" + k for k in ("STITCH", "JUMP", "TRIM", "STOP", "COLOR_CHANGE", "SEQUIN_MODE", "SEQUIN_EJECT", "END")]}


def concrete(run):
    roundtrip.concrete(run, FMTS)
