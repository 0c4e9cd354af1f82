"""C18: expanding compressed data gives back the original bytes."""
ASSUMPTIONS = ["bytearray and list operations have the semantics of pyvc/runtime.py (FBytes, VList)", "positions stay below 2**53, so that the quotient of a position by 8 is exact"]
RULE = "byte strings of every length around the block sizes, uniform, random and structured; non-trivial = distinct string"
BUDGET = 20
TASKS = {}
KNOWN = []


def data(case):
    if "unit" in case:
        return (bytes.fromhex(case["unit"]) * (case["n"] // max(1, len(case["unit"]) // 2) + 1))[: case["n"]]
    if "seed" in case:
        import random

        return random.Random(case["seed"]).randbytes(case["n"])
    return bytes.fromhex(case["hex"])


def o_trip(case):
    from pyvc.concrete import Violation
    from pyembroidery import compress, expand

    d = data(case)
    for kind in (bytes, bytearray):
        c = compress(kind(d))
        e = expand(bytearray(c), len(d))
        if bytes(bytearray(e)) != d:
            k = next((i for i, (a, b) in enumerate(zip(bytes(bytearray(e)), d)) if a != b), min(len(e), len(d)))
            raise Violation("expand(compress(x), %d) differs from x at byte %d (%d bytes returned)" % (len(d), k, len(e)))
        if len(d) > 70000:
            break
    for n in case.get("ask", []):
        e = expand(bytearray(c), n)
        if len(e) > n:
            raise Violation("expand was asked for %d bytes and returned %d" % (n, len(e)))
        if bytes(bytearray(e)) != d[:n]:
            raise Violation("expand(compress(x), %d) is not the start of x" % n)


def o_any(case):
    """any input: at most the requested number of bytes"""
    from pyvc.concrete import Violation
    from pyembroidery import expand

    try:
        e = expand(bytearray.fromhex(case["hex"]), case["n"])
    except Exception:
        return
    if len(e) > case["n"]:
        raise Violation("expand was asked for %d bytes and returned %d" % (case["n"], len(e)))


def concrete(run):
    r = run.rng
    for n in list(range(0, 40)) + [127, 128, 254, 255, 256, 257, 510, 511, 512, 513, 1000, 4096]:
        for u in ("00", "ff", "61", "0102", "fe", "00ff80"):
            run.case(o_trip, {"unit": u, "n": n, "ask": [n // 2, n + 5] if n else []}, "lengths")
        run.case(o_trip, {"seed": n, "n": n}, "lengths")
    for n in (32767, 32768, 65534, 65535, 65536, 65537, 65535 + 256, 131069, 131070, 131071, 140000):
        run.case(o_trip, {"seed": n, "n": n}, "blocks", limit=60)
    while run.more() and run.evals < 20000:
        k = r.random()
        if k < 0.6:
            n = r.choice((r.randint(0, 60), r.randint(0, 800), r.randint(0, 3000)))
            run.case(o_trip, {"seed": r.randrange(1 << 30), "n": n, "ask": [r.randint(0, n + 9)]})
        elif k < 0.62:
            run.case(o_trip, {"seed": r.randrange(1 << 30), "n": r.randint(0, 200000)}, limit=60)
        else:
            b = bytes(r.randrange(256) for _ in range(r.choice((3, 10, 40, 100))))
            run.case(o_any, {"hex": b.hex(), "n": r.choice((0, 1, 5, 100, 3000))}, "any input")


# ------------------------------------------------------------------ contracts
# compress(x), x of any length n, is  packed(p) : in blocks of 65535 bytes, six
# header bytes and the bytes themselves.  The expander is proved against exactly
# this contract, block boundaries included, so that the two fit for every x.
HEAD = (0x02, 0xA0, 0x01, 0xFE)
FULL = 0xFFFF


class Packed(object):
    def __init__(self, c):
        import z3

        self.c = c
        self.n = c.int("n", lo=0, inp=True)
        c.n += 1
        self.D = z3.Function("D!%d" % c.n, z3.IntSort(), z3.IntSort())

    def data(self, k):
        """byte k of the original"""
        import z3
        from pyvc.sym import num, SymNum

        r = self.D(num(k))
        self.c.assume(z3.And(r >= 0, r < 256))
        return SymNum(r)

    def blocks(self, k):
        """number of blocks k bytes are packed in"""
        from pyvc.sym import num, wrap
        import z3

        return wrap((num(k) + (FULL - 1)) / z3.IntVal(FULL))

    def size(self, b):
        import z3
        from pyvc.sym import num, wrap

        left = num(self.n) - FULL * num(b)
        return wrap(z3.If(left < FULL, left, z3.IntVal(FULL)))

    def packed(self, p):
        import z3
        from pyvc.sym import num, wrap

        q, r = wrap(num(p) / z3.IntVal(FULL + 6)), wrap(num(p) % z3.IntVal(FULL + 6))
        s = self.size(q)
        e = num(self.data(q * FULL + r - 6))
        for i, v in enumerate((num(s) / z3.IntVal(256), num(s) % z3.IntVal(256)) + HEAD):
            e = z3.If(num(r) == i, v, e)
        return wrap(e)

    def total(self):
        return self.n + 6 * self.blocks(self.n)


def t_compress(c, _=None):
    import z3
    from .common import load
    from pyvc.runtime import FBytes, LoopSpec
    from pyvc.sym import num

    p = Packed(c)
    d = FBytes("data", p.n, lambda k: (p.data(k),))
    out = []

    def make():
        out.append(FBytes("out%d" % len(out), 0, lambda k: (0,)))
        return out[-1]

    c.bytes_factory = make
    kappa = c.int("k", lo=0, inp=True)

    class Spec(LoopSpec):
        tracked = False

        def size(self, it):
            e = FULL * num(it)
            return num(it) * 6 + z3.If(e < num(p.n), e, num(p.n))

        def on_entry(self, run):
            c.prove("compress/one-result", len(out) == 1)
            c.prove("compress/starts-empty", num(out[0].n) == 0)

        def on_head(self, run):
            from pyvc.sym import wrap

            out[0].n = wrap(self.size(run.count))
            out[0].at = lambda k: (p.packed(k),)

        def on_back(self, run, env):
            o = out[0]
            c.x.cover("each")
            c.prove("compress/length", num(o.n) == self.size(run.count))
            c.prove("compress/bytes", z3.Implies(num(kappa) < num(o.n), num(o.at(kappa)[0]) == num(p.packed(kappa))))

    spec = Spec()
    c.policy = lambda site, it, loc: spec if getattr(it, "__vc_seq__", False) else None
    r = load("EmbCompress").compress(d)
    c.prove("compress/result", r is out[0])
    c.prove("compress/total", num(r.n) == num(p.total()))
    c.prove("compress/contents", z3.Implies(num(kappa) < num(r.n), num(r.at(kappa)[0]) == num(p.packed(kappa))))
    c.x.cover("done")


def t_expand(c, _=None):
    import z3
    from .common import load
    from pyvc.runtime import FBytes, LoopSpec, VList, same
    from pyvc.sym import num, wrap

    M = load("EmbCompress")
    p = Packed(c)

    def at(k):
        """the packed byte; its place in the block folds where the path gives it"""
        k = num(k)
        r = z3.simplify(k % z3.IntVal(FULL + 6))
        if not z3.is_int_value(r):
            return (p.packed(wrap(k)),)
        q = wrap(z3.simplify(k - r) / z3.IntVal(FULL + 6))
        r = r.as_long()
        if r >= 6:
            return (p.data(q * FULL + r - 6),)
        s = num(p.size(q))
        return ((wrap(s / z3.IntVal(256)), wrap(s % z3.IntVal(256))) + HEAD)[r],

    src = FBytes("packed", p.total(), at)
    # what loading a block header leaves behind, computed by the real code
    def loaded():
        m = M.EmbCompress()
        m.input_data = bytearray((0, 1) + HEAD)
        m.block_elements = -1
        m.bit_position = 0
        m.load_block()
        return m

    ref = loaded()
    state = {}

    def alike(a, b, depth=0):
        """structural equality of what the code built"""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(alike(x, y, depth + 1) for x, y in zip(a, b))
        if hasattr(a, "__dict__") and type(a) is type(b) and depth < 4:
            return set(a.__dict__) == set(b.__dict__) and all(alike(v, b.__dict__[k], depth + 1) for k, v in a.__dict__.items())
        return type(a) is type(b) and a == b

    class Spec(LoopSpec):
        infer = False
        tracked = True

        def at(self, L):
            """(bit position, elements left in the block) when L bytes are out"""
            b = p.blocks(L)
            return wrap(8 * (num(L) + 6 * num(b))), wrap(z3.If(num(L) == 0, z3.IntVal(-1), num(p.size(b - 1)) - (num(L) - FULL * (num(b) - 1))))

        def lists(self, env):
            return [v for v in env.values() if isinstance(v, VList)]

        def havoc(self, run, name, v0):
            return v0 if isinstance(name, tuple) else NotImplemented

        def on_entry(self, run):
            m = [v for v in run.entry.values() if isinstance(v, M.EmbCompress)]
            c.prove("expand/entry", len(m) == 1)
            self.m = m[0]
            c.prove("expand/entry/state", z3.And(num(self.m.bit_position) == 0, num(self.m.block_elements) <= 0))
            out = self.lists(run.entry)
            c.prove("expand/entry/output", len(out) == 1 and len(out[0].tail()) == 0)

        def on_head(self, run):
            out = self.lists(run.cur)[0]
            if c.choose("first") or out.pre is None:
                if out.pre is not None:
                    c.assume(num(out.pre) == 0)
                    out.known = lambda k: 0
                return
            # L bytes are out, 1 <= L <= n: the blocks 0..q-1, and j bytes of block q
            q = c.int("q", lo=0, inp=True)
            if c.choose("boundary"):
                c.assume(num(q) >= 1)
                L, pos, left = q * FULL, q * (FULL + 6), 0
            else:
                j = c.int("j", lo=1, hi=FULL - 1, inp=True)
                L, pos, left = q * FULL + j, q * (FULL + 6) + 6 + j, p.size(q) - j
            c.assume(z3.And(num(L) >= 1, num(L) <= num(p.n), num(out.pre) == num(L)))
            out.known = p.data
            out.pre = L
            self.m.bit_position, self.m.block_elements = 8 * pos, left
            b, e = self.at(L)
            c.prove("expand/head", z3.And(8 * num(pos) == num(b), num(left) == num(e)))
            for k, v in ref.__dict__.items():
                if k not in ("input_data", "bit_position", "block_elements"):
                    setattr(self.m, k, v)

        def on_back(self, run, env):
            c.x.cover("each")
            out = self.lists(env)
            c.prove("expand/output", len(out) == 1)
            out = out[0]
            pre, tail = (out.pre if out.pre is not None else 0), out.tail()
            L = pre + len(tail)
            c.prove("expand/progress", len(tail) > 0)
            c.prove("expand/no-more-than-asked", num(L) <= num(p.n))
            for j, v in enumerate(tail):
                c.prove("expand/byte", num(v) == num(p.data(pre + j)))
            b, e = self.at(L)
            c.prove("expand/position", num(self.m.bit_position) == num(b))
            c.prove("expand/left-in-block", num(self.m.block_elements) == num(e))
            for k, v in ref.__dict__.items():
                if k not in ("input_data", "bit_position", "block_elements"):
                    c.prove("expand/tables", alike(getattr(self.m, k), v))

    spec = Spec()
    c.unroll_ranges = True
    c.policy = lambda site, it, loc: spec if site["kind"] == "while" and any(v is src for v in loc.values()) else None
    r = M.expand(src, p.n)
    kappa = c.int("k", lo=0, inp=True)
    if isinstance(r, list) and not isinstance(r, VList):
        c.prove("expand/result-empty", z3.And(num(p.n) == 0, len(r) == 0))
        return
    from pyvc.runtime import b_len

    c.prove("expand/length", num(b_len(r)) == num(p.n))
    c.prove("expand/contents", z3.Implies(num(kappa) < num(p.n), num(r.at(kappa)[0]) == num(p.data(kappa))))
    c.x.cover("done")


TASKS["compress"] = {"fn": t_compress, "functions": ["EmbCompress.compress"], "covers": ["each", "done"]}
TASKS["expand"] = {"fn": t_expand, "functions": ["EmbCompress.expand", "EmbCompress.EmbCompress", "EmbCompress.Huffman"], "covers": ["each", "done"]}


def t_atmost(c, _=None):
    """whatever the data, no more is returned than was asked for"""
    import z3
    from . import C13
    from pyvc.runtime import b_len, LoopSpec
    from pyvc.sym import num

    M, e = C13._compress(c)
    size = c.int("size", lo=0, inp=True)
    e.get_token = lambda: c.int("token", lo=0)
    e.get_position = lambda: c.int("position", lo=0)
    c.policy = lambda site, it, loc: LoopSpec() if it is None or getattr(it, "__vc_seq__", False) else None
    try:
        r = e.decompress(e.input_data, size)
    except IndexError:
        c.x.cover("raised")
        return
    c.prove("expand/at-most-the-size-asked-for", num(b_len(r)) <= num(size))
    c.x.cover("done")


TASKS["at-most"] = {"fn": t_atmost, "functions": ["EmbCompress.EmbCompress.decompress"], "covers": ["done"]}
