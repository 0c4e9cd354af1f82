"""C02: integer fields written to a file read back exactly; short reads give None."""
from .common import load, eqv

ASSUMPTIONS = ["stream.read(n) returns the next min(n, remaining) bytes; stream.write appends"]
RULE = "8-bit values exhaustively, 16-bit exhaustively, 24/32-bit boundary, harvested and random values, every short length; non-trivial = distinct (helper, value)"
BUDGET = 20

PAIRS = [
    ("write_int_8", "read_int_8", 1), ("write_int_16le", "read_int_16le", 2), ("write_int_16be", "read_int_16be", 2),
    ("write_int_24le", "read_int_24le", 3), ("write_int_24be", "read_int_24be", 3),
    ("write_int_32le", "read_int_32le", 4), ("write_int_32be", "read_int_32be", 4),
]


def t_pair(c, arg):
    from pyvc.runtime import OutStream, ChunkStream

    W, R = load("WriteHelper"), load("ReadHelper")
    wn, rn, n = arg
    v = c.int("value", inp=True)  # any integer; the file keeps it modulo 2^(8n)
    out = OutStream()
    getattr(W, wn)(out, v)
    c.x.cover("written")
    c.prove("%s/post/length" % wn, len(out.chunks) == n)
    r = getattr(R, rn)(ChunkStream(out.chunks + [17]))
    c.prove("%s;%s/post/value" % (wn, rn), eqv(r, v & (2 ** (8 * n) - 1)))
    order = "be" if wn.endswith("be") else "le"
    for k in range(n):
        sh = 8 * (n - 1 - k) if order == "be" else 8 * k
        c.prove("%s/post/byte-%d" % (wn, k), eqv(out.chunks[k], (v >> sh) & 255))


def t_short(c, arg):
    from pyvc.runtime import ChunkStream

    R = load("ReadHelper")
    wn, rn, n = arg
    for k in range(n):
        bs = [c.int("b", 0, 255) for _ in range(k)]
        c.x.cover("short")
        c.prove("%s/post/short-read-is-None" % rn, getattr(R, rn)(ChunkStream(bs)) is None)


def t_signed(c):
    from pyvc.runtime import OutStream, ChunkStream

    R, W = load("ReadHelper"), load("WriteHelper")
    v = c.int("v", -128, 127, inp=True)
    o = OutStream()
    W.write_int_8(o, v)
    c.prove("write_int_8;read_sint_8/post", eqv(R.read_sint_8(ChunkStream(o.chunks)), v))
    c.prove("signed8/post", eqv(R.signed8(v & 255), v))
    w = c.int("w", -(2 ** 15), 2 ** 15 - 1, inp=True)
    c.prove("signed16/post", eqv(R.signed16(w & 0xFFFF), w))
    x = c.int("x", -(2 ** 23), 2 ** 23 - 1, inp=True)
    c.prove("signed24/post", eqv(R.signed24(x & 0xFFFFFF), x))
    k = c.int("any", inp=True)
    c.prove("signed16/post/any-int", (R.signed16(k) - k) % 65536 == 0)
    c.prove("signed24/post/any-int", (R.signed24(k) - k) % (1 << 24) == 0)
    c.x.cover("signed")


def t_arrays(c):
    from pyvc.runtime import OutStream, ChunkStream

    R, W = load("ReadHelper"), load("WriteHelper")
    vs = [c.int("a%d" % i, -128, 127, inp=True) for i in range(3)]
    o = OutStream()
    W.write_int_array_8(o, vs)
    c.x.cover("array")
    c.prove("write_int_array_8/post/length", len(o.chunks) == 3)
    back = R.read_signed(ChunkStream(o.chunks), 3)
    c.prove("read_signed/post/length", len(back) == 3)
    for a, b in zip(vs, back):
        c.prove("write_int_array_8;read_signed/post/value", eqv(a, b))


def t_array_loop(c):
    """write_int_array_8 for a sequence of any length: per element exactly the
    element's low byte is emitted (loop invariant: output = map over prefix)"""
    from pyvc.runtime import OutStream, SymSeq, LoopSpec

    W = load("WriteHelper")
    out = OutStream()

    class S(LoopSpec):
        def on_head(self, run):
            out.reset()

        def on_back(self, run, env):
            c.prove("write_int_array_8/loop/one-byte-per-element", len(out.chunks) == 1)
            c.prove("write_int_array_8/loop/byte-value", eqv(out.chunks[0], run.elem & 255))

    c.policy = lambda site, it, loc: S() if site["func"].endswith("write_int_array_8") or getattr(it, "__vc_seq__", 0) else None
    W.write_int_array_8(out, SymSeq("arr", lambda i: c.int("elem", inp=True)))
    c.x.cover("done")


_RF = ["ReadHelper." + p[1] for p in PAIRS]
TASKS = {}
for _p in PAIRS:
    TASKS["pair:" + _p[0]] = {"fn": t_pair, "arg": _p, "functions": ["WriteHelper." + _p[0], "ReadHelper." + _p[1]], "covers": ["written"]}
TASKS["short"] = {"fn": lambda c: [t_short(c, p) for p in PAIRS], "functions": _RF, "covers": ["short"]}
TASKS["signed"] = {"fn": t_signed, "functions": ["ReadHelper.signed8", "ReadHelper.signed16", "ReadHelper.signed24", "ReadHelper.read_sint_8"], "covers": ["signed"]}
TASKS["arrays"] = {"fn": t_arrays, "functions": ["WriteHelper.write_int_array_8", "ReadHelper.read_signed"], "covers": ["array"]}
TASKS["array-loop"] = {"fn": t_array_loop, "functions": ["WriteHelper.write_int_array_8"], "covers": ["done", "WriteHelper.write_int_array_8/loop-back".split(".", 1)[1]]}


# ---------------------------------------------------------------- concrete
def o_pair(case):
    import io
    from pyvc.concrete import Violation
    import pyembroidery.WriteHelper as W
    import pyembroidery.ReadHelper as R

    wn, rn, n, v = case
    b = io.BytesIO()
    getattr(W, wn)(b, v)
    d = b.getvalue()
    if len(d) != n:
        raise Violation("%s(%d) writes %d bytes" % (wn, v, len(d)))
    exp = (v & (2 ** (8 * n) - 1)).to_bytes(n, "big" if wn.endswith("be") else "little")
    if d != exp:
        raise Violation("%s(%d) writes %r, expected %r" % (wn, v, d, exp))
    r = getattr(R, rn)(io.BytesIO(d + b"\x11"))
    if r != v & (2 ** (8 * n) - 1):
        raise Violation("%s(%s(%d)) = %r" % (rn, wn, v, r))
    for k in range(n):
        r = getattr(R, rn)(io.BytesIO(d[:k]))
        if r is not None:
            raise Violation("%s of %d bytes gives %r" % (rn, k, r))


def o_signed(case):
    import io
    from pyvc.concrete import Violation
    import pyembroidery.ReadHelper as R
    import pyembroidery.WriteHelper as W

    v = case
    if -128 <= v <= 127:
        if R.signed8(v & 255) != v:
            raise Violation("signed8(%d) = %r" % (v & 255, R.signed8(v & 255)))
        if R.read_sint_8(io.BytesIO(bytes([v & 255]))) != v:
            raise Violation("read_sint_8 of %d" % v)
        b = io.BytesIO()
        W.write_int_array_8(b, [v, -v, 3])
        if R.read_signed(io.BytesIO(b.getvalue()), 3) != [v, -v if v != -128 else -128, 3]:
            raise Violation("write_int_array_8/read_signed of %d" % v)
    if -(2 ** 15) <= v < 2 ** 15 and R.signed16(v & 0xFFFF) != v:
        raise Violation("signed16(%d) = %r" % (v & 0xFFFF, R.signed16(v & 0xFFFF)))
    if -(2 ** 23) <= v < 2 ** 23 and R.signed24(v & 0xFFFFFF) != v:
        raise Violation("signed24(%d) = %r" % (v & 0xFFFFFF, R.signed24(v & 0xFFFFFF)))


def concrete(run):
    from pyvc.concrete import harvest, near

    ints, _, _ = harvest(["WriteHelper.py", "ReadHelper.py"])
    for h in run.hints:
        for p in PAIRS:
            if "value" in h:
                run.case(o_pair, list(p) + [h["value"]], "counterexample")
        for k in ("v", "w", "x", "any"):
            if k in h:
                run.case(o_signed, h[k], "counterexample")
    for v in range(256):
        run.case(o_pair, list(PAIRS[0]) + [v], "exhaustive-8")
    for v in range(65536):
        run.case(o_signed, v - 32768, "exhaustive-16")
        if v % 3 == 0 or v < 1024 or v > 64500:
            run.case(o_pair, list(PAIRS[1]) + [v], "exhaustive-16")
            run.case(o_pair, list(PAIRS[2]) + [v], "exhaustive-16")
    special = near(ints, -(2 ** 32), 2 ** 33) + [1 << k for k in range(33)] + [(1 << k) - 1 for k in range(33)] + [-(1 << k) for k in range(32)]
    for v in special:
        for p in PAIRS:
            run.case(o_pair, list(p) + [v], "boundary")
        if -(2 ** 23) <= v < 2 ** 23:
            run.case(o_signed, v, "boundary")
    while run.more() and run.evals < 250000:
        p = run.rng.choice(PAIRS)
        run.case(o_pair, list(p) + [run.rng.randrange(-(2 ** 31), 2 ** 32)])
        run.case(o_signed, run.rng.randrange(-(2 ** 23), 2 ** 23))
