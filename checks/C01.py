"""C01: the packed command word is a lossless record of (command, thread, needle, order)."""
from .common import load, opt_int, eqv

ASSUMPTIONS = ["Python integers are unbounded mathematical integers (exact, not an approximation)"]
RULE = "all combinations of boundary/literal-harvested thread, needle, order values and every command 0..255; non-trivial = distinct quadruple"
BUDGET = 15
FILES = ["EmbFunctions.py", "EmbConstant.py"]


def t_roundtrip(c):
    F = load("EmbFunctions")
    cmd = c.int("cmd", 0, 255, inp=True)
    th = opt_int(c, "thread", 0, 254)
    ne = opt_int(c, "needle", 0, 254)
    od = opt_int(c, "order", 0, 254)
    w = F.encode_thread_change(cmd, th, ne, od)
    c.x.cover("encoded")
    r = F.decode_embroidery_command(w)
    for i, (n, v) in enumerate((("command", cmd), ("thread", th), ("needle", ne), ("order", od))):
        c.prove("encode_thread_change;decode_embroidery_command/post/%s" % n, eqv(r[i], v))
    c.prove("encode_thread_change/post/command-byte", (w & 255) == cmd)
    c.prove("encode_thread_change/post/32-bit", (w >= 0) & (w < 2 ** 32))
    c.prove("encode_thread_change/post/plain-word", eqv(w, cmd) if th is None and ne is None and od is None else True)


def t_decode(c):
    """decode is total on 32-bit words and encode(decode(w)) == w"""
    F = load("EmbFunctions")
    w = c.int("word", 0, 2 ** 32 - 1, inp=True)
    cmd, th, ne, od = F.decode_embroidery_command(w)
    c.x.cover("decoded")
    for v in (th, ne, od):
        if v is not None:
            c.prove("decode_embroidery_command/post/field-range", (v >= 0) & (v <= 254))
    c.prove("decode_embroidery_command;encode_thread_change/post/word", eqv(F.encode_thread_change(cmd, th, ne, od), w))


def t_keep(c):
    """encoding ignores everything of the given command above its low byte"""
    F = load("EmbFunctions")
    cmd = c.int("cmd", 0, 2 ** 32 - 1, inp=True)
    th = opt_int(c, "thread", 0, 254)
    w = F.encode_thread_change(cmd, th)
    r = F.decode_embroidery_command(w)
    c.x.cover("encoded")
    c.prove("encode_thread_change/post/masks-command", eqv(r[0], cmd & 255))
    c.prove("encode_thread_change/post/replaces-fields", eqv(r[1], th))
    c.prove("encode_thread_change/post/absent-needle", eqv(r[2], None))
    c.prove("encode_thread_change/post/absent-order", eqv(r[3], None))


def t_pattern(c):
    """needle_change stores the needle in the word"""
    P = load("EmbPattern")
    C = load("EmbConstant")
    p = P.EmbPattern()
    n = c.int("needle", 0, 254, inp=True)
    p.needle_change(n)
    c.x.cover("added")
    r = load("EmbFunctions").decode_embroidery_command(p.stitches[0][2])
    c.prove("EmbPattern.needle_change/post/needle", eqv(r[2], n))
    c.prove("EmbPattern.needle_change/post/command", eqv(r[0], C.NEEDLE_SET))
    c.prove("EmbPattern.needle_change/post/thread", eqv(r[1], None))


_F = ["EmbFunctions.encode_thread_change", "EmbFunctions.decode_embroidery_command"]
TASKS = {
    "codec": {"fn": t_roundtrip, "functions": _F, "covers": ["encoded"]},
    "decode": {"fn": t_decode, "functions": _F, "covers": ["decoded"]},
    "mask": {"fn": t_keep, "functions": _F, "covers": ["encoded"]},
    "needle_change": {"fn": t_pattern, "functions": ["EmbPattern.EmbPattern.needle_change"], "covers": ["added"]},
}


# ---------------------------------------------------------------- concrete
def o_codec(case):
    from pyvc.concrete import Violation
    from pyembroidery import encode_thread_change, decode_embroidery_command

    cmd, th, ne, od = case
    w = encode_thread_change(cmd, th, ne, od)
    r = decode_embroidery_command(w)
    if tuple(r) != (cmd & 255, th, ne, od):
        raise Violation("encode_thread_change%r = %r decodes to %r" % (tuple(case), w, tuple(r)))
    if not 0 <= w < 2 ** 32:
        raise Violation("word %r of %r does not fit 32 bits" % (w, case))
    if th is None and ne is None and od is None and w != cmd & 255:
        raise Violation("a bare command changes: %r -> %r" % (cmd, w))


def o_word(case):
    from pyvc.concrete import Violation
    from pyembroidery import encode_thread_change, decode_embroidery_command

    r = decode_embroidery_command(case)
    w = encode_thread_change(*r)
    if w != case:
        raise Violation("word %r decodes to %r which encodes to %r" % (case, tuple(r), w))


def o_needle(case):
    from pyvc.concrete import Violation
    from pyembroidery import EmbPattern, decode_embroidery_command, NEEDLE_SET

    p = EmbPattern()
    p.needle_change(case)
    r = decode_embroidery_command(p.stitches[0][2])
    if tuple(r) != (NEEDLE_SET, None, case, None):
        raise Violation("needle_change(%r) stores %r" % (case, tuple(r)))


def concrete(run):
    from pyvc.concrete import harvest, near

    for h in run.hints:
        if "word" in h:
            run.case(o_word, h["word"], "counterexample")
        if "cmd" in h:
            run.case(o_codec, [h["cmd"], h.get("thread"), h.get("needle"), h.get("order")], "counterexample")
        if "needle" in h:
            run.case(o_needle, h["needle"], "counterexample")
    for v in range(255):
        for k in range(3):
            q = [5, None, None, None]
            q[k + 1] = v
            run.case(o_codec, q, "single")
            q = [5, 7, 8, 9]
            q[k + 1] = v
            run.case(o_codec, q, "single")
        run.case(o_needle, v, "needle")
    for cmd in range(256):
        run.case(o_codec, [cmd, 1, 2, 3], "command")
        run.case(o_codec, [cmd, None, None, None], "command")
    for a in range(0, 255):
        for b in (None, 0, 1, 127, 128, 253, 254):
            run.case(o_codec, [5, a, b, None], "pair")
            run.case(o_codec, [5, None, a, b], "pair")
            run.case(o_codec, [9, a, None, b], "pair")
    vals = [None] + list(range(255))
    while run.more():
        q = [run.rng.randrange(0, 2 ** 32) if run.rng.random() < 0.2 else run.rng.randrange(256)]
        q += [run.rng.choice(vals) if run.rng.random() < 0.8 else None for _ in range(3)]
        run.case(o_codec, q)
        run.case(o_word, run.rng.randrange(2 ** 32))
        if run.evals > 60000:
            break
