"""C03: the DST ternary record codec is exact on -121..121 and refuses anything else."""
from .common import load, eqv

ASSUMPTIONS = []
RULE = "all 243x243 displacement pairs for STITCH and JUMP (exhaustive), other commands, out-of-range values; non-trivial = distinct (dx,dy,command)"
BUDGET = 30


def _rec(c, cmd):
    D = load("DstWriter")
    R = load("DstReader")
    x = c.int("dx", -121, 121, inp=True)
    y = c.int("dy", -121, 121, inp=True)
    b = D.encode_record(x, y, cmd)
    c.x.cover("encoded")
    c.prove("encode_record/post/three-bytes", len(b) == 3)
    c.prove("encode_record;decode_dx/post", eqv(R.decode_dx(b[0], b[1], b[2]), x))
    c.prove("encode_record;decode_dy/post", eqv(R.decode_dy(b[0], b[1], b[2]), y))


def t_range(c, cmd):
    """out of range displacements raise ValueError, in range ones do not"""
    D = load("DstWriter")
    x = c.int("dx", inp=True)
    y = c.int("dy", inp=True)
    ok = (x >= -121) & (x <= 121) & (y >= -121) & (y <= 121)
    try:
        D.encode_record(x, y, cmd)
    except ValueError:
        c.x.cover("refused")
        import z3

        c.prove("encode_record/raises-only-out-of-range", z3.Not(ok.e) if hasattr(ok, "e") else not ok)
        return
    c.x.cover("accepted")
    c.prove("encode_record/accepts-only-in-range", ok)


def t_stream(c, arg):
    """one record through the reader's stitch loop gives exactly one entry of
    the right kind at the right displacement"""
    from pyvc.runtime import ChunkStream, LogList, LoopSpec

    name, dxdy = arg
    D, R, P, K = load("DstWriter"), load("DstReader"), load("EmbPattern"), load("EmbConstant")
    cmd = getattr(K, name)
    x = c.int("dx", -121, 121, inp=True)
    y = c.int("dy", -121, 121, inp=True)
    b = D.encode_record(x, y, cmd)
    px, py = c.int("px", inp=True), c.int("py", inp=True)
    out = P.EmbPattern()
    out._previousX, out._previousY = px, py
    out.interpolate_trims = lambda *a, **k: None  # its own contract: C12
    R.dst_read_stitches(ChunkStream(list(b)), out)
    c.x.cover("read")
    s = out.stitches
    exp = {"STOP": K.COLOR_CHANGE}.get(name, cmd)
    if name == "END":
        c.prove("dst_read_stitches/post/END", len(s) == 1 and s[0][2] == K.END)
        return
    c.prove("dst_read_stitches/post/%s/one-entry-and-end" % name, len(s) == 2)
    c.prove("dst_read_stitches/post/%s/command" % name, eqv(s[0][2], exp))
    c.prove("dst_read_stitches/post/%s/end" % name, eqv(s[1][2], K.END))
    ex, ey = (px + x, py + y) if dxdy else (px, py)
    c.prove("dst_read_stitches/post/%s/x" % name, eqv(s[0][0], ex))
    c.prove("dst_read_stitches/post/%s/y" % name, eqv(s[0][1], ey))
    c.prove("dst_read_stitches/post/%s/end-position" % name, eqv(s[1][0], ex))


_F = ["DstWriter.encode_record", "DstWriter.bit", "DstReader.decode_dx", "DstReader.decode_dy", "DstReader.getbit"]
TASKS = {
    "stitch": {"fn": lambda c: _rec(c, load("EmbConstant").STITCH), "functions": _F, "covers": ["encoded"]},
    "jump": {"fn": lambda c: _rec(c, load("EmbConstant").JUMP), "functions": _F, "covers": ["encoded"]},
    "sequin": {"fn": lambda c: _rec(c, load("EmbConstant").SEQUIN_EJECT), "functions": _F, "covers": ["encoded"]},
    "range-stitch": {"fn": lambda c: t_range(c, load("EmbConstant").STITCH), "functions": _F, "covers": ["refused", "accepted"]},
    "range-jump": {"fn": lambda c: t_range(c, load("EmbConstant").JUMP), "functions": _F, "covers": ["refused", "accepted"]},
}
for _n, _d in (("STITCH", True), ("JUMP", True), ("COLOR_CHANGE", False), ("STOP", False), ("SEQUIN_MODE", False), ("END", False)):
    TASKS["read:" + _n] = {"fn": t_stream, "arg": (_n, _d), "functions": _F + ["DstReader.dst_read_stitches"], "covers": ["read"]}


# ---------------------------------------------------------------- concrete
def o_rec(case):
    from pyvc.concrete import Violation
    import io
    import pyembroidery.DstWriter as D
    import pyembroidery.DstReader as R
    from pyembroidery import EmbPattern, STITCH, JUMP, COLOR_CHANGE, STOP, END, SEQUIN_MODE

    x, y, cmd = case
    ok = -121 <= x <= 121 and -121 <= y <= 121
    try:
        b = D.encode_record(x, y, cmd)
    except ValueError:
        if ok:
            raise Violation("encode_record%r refuses a representable displacement" % (tuple(case),))
        return
    if cmd in (STITCH, JUMP):
        if not ok:
            raise Violation("encode_record%r accepts an unrepresentable displacement" % (tuple(case),))
        d = (R.decode_dx(*b), R.decode_dy(*b))
        if d != (x, y):
            raise Violation("encode_record%r decodes to %r" % (tuple(case), d))
    if len(b) != 3:
        raise Violation("record length %d" % len(b))
    out = EmbPattern()
    out.add_stitch_absolute(STITCH, 1000, -1000)
    R.dst_read_stitches(io.BytesIO(b), out, {"clipping": False})
    s = out.stitches[1:]
    if cmd == END:
        if [q[2] for q in s] != [END]:
            raise Violation("END record reads as %r" % s)
        return
    exp = {STOP: COLOR_CHANGE}.get(cmd, cmd)
    ex, ey = (1000 + x, -1000 + y) if cmd in (STITCH, JUMP) else (1000, -1000)
    if s != [[ex, ey, exp], [ex, ey, END]]:
        raise Violation("record of %r reads as %r" % (tuple(case), s))


def concrete(run):
    for h in run.hints:
        if "dx" in h:
            for cmd in (0, 1, 5, 3, 6, 4):
                run.case(o_rec, [h["dx"], h.get("dy", 0), cmd], "counterexample")
    for x in range(-130, 131):
        for cmd in (0, 1, 5, 3, 6, 4):
            run.case(o_rec, [x, 0, cmd], "axis")
            run.case(o_rec, [0, x, cmd], "axis")
            run.case(o_rec, [x, -x, cmd], "axis")
    for x in range(-121, 122):
        for y in range(-121, 122):
            if not run.more():
                return
            run.case(o_rec, [x, y, 0 if (x + y) % 2 else 1], "exhaustive")
    while run.more() and run.evals < 150000:
        run.case(o_rec, [run.rng.randrange(-100000, 100000), run.rng.randrange(-300, 300), run.rng.choice((0, 1))])
