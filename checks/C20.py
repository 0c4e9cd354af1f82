"""C20: text metadata never corrupts the stitches of a binary file."""
from . import gen as G

ASSUMPTIONS = []
RULE = "each design written with nasty texts in every field and without any text, both read back; non-trivial = distinct texts"
BUDGET = 40
TASKS = {}
KNOWN = []
STOP, COLOR_CHANGE = 3, 5
FMTS = ("dst", "pec", "pes", "vp3", "tbf", "jef", "xxx", "exp", "u01")
META = ("name", "author", "category", "keywords", "comments", "copyright")
FIELDS = ("description", "catalog_number", "details", "brand", "chart", "weight")


def o_text(case):
    from pyvc.concrete import Violation

    f = case["f"]
    p = G.build(case)
    q = G.build(dict(case, m={}, t=[t[0] for t in case["t"]]))
    st = G.settings(case)
    a, _ = G.write(f, p, dict(st))
    b, _ = G.write(f, q, dict(st))
    try:
        r1 = G.read(f, a)
    except Exception as e:
        raise Violation("%s: the file with these texts cannot be read: %r" % (f, e))
    r0 = G.read(f, b)
    s1, s0 = [list(s) for s in r1.stitches], [list(s) for s in r0.stitches]
    if f == "pes":
        # the reader takes a thread equal to the one before it, texts
        # included, for a stop: that is the thread's text, not a stitch
        for s in s1 + s0:
            if s[2] & 0xFF == STOP:
                s[2] = s[2] & ~0xFF | COLOR_CHANGE
    if s1 != s0:
        k = next((i for i, (u, v) in enumerate(zip(s1, s0)) if u != v), min(len(s1), len(s0)))
        raise Violation("%s: with these texts stitch %d reads as %r, without any as %r (%d and %d stitches)" % (f, k, s1[k:k + 1], s0[k:k + 1], len(s1), len(s0)))
    if f == "dst":
        if len(a) != len(b) and not (st.get("version") == "extended"):
            raise Violation("dst: the header is %d bytes longer" % (len(a) - len(b)))


def concrete(run):
    r = run.rng
    g = G.Gen(r, [])
    base = {"s": [[0, 0, 0], [10, 0, 0], [10, 20, 0], [10, 20, 5], [40, 20, 0], [45, 20, 0], [45, 20, 2], [90, 90, 1], [95, 90, 0], [95, 90, 4]]}
    vs = {"dst": ({}, {"version": "extended"}), "pes": ({"version": "1"}, {"version": "6"}, {"version": "1t"}, {"version": "6t"})}
    texts = ["", "a", "x" * 7, "x" * 8, "x" * 9, "x" * 16, "x" * 17, "x" * 40, "x" * 127, "x" * 128, "x" * 255, "x" * 256, "x" * 257, "x" * 600, "x" * 33000, "x" * 70000, "\u00e9" * 8, "\u00e9" * 16, "\u00e9" * 128, "\u4e2d" * 90, "\U0001f9f5" * 5, "\U0001f9f5" * 70, "\u00e9" * 40000, "a\rb", "a\nb", "TC:#000000", "a\x1ab", "\0", "a\0b", " ", "\x1a", "PD:", "ST:\r", ":", "AU:x\rTC:\r", "\r", "\x80\x02", "\xff", "\u20ac"]
    for f in FMTS:
        for st in vs.get(f, ({},)):
            for t in texts:
                run.case(o_text, dict(base, f=f, m={"name": t}, t=[[1, {}], [2, {}]], set=st), "each-text")
                run.case(o_text, dict(base, f=f, m={k: t for k in META}, t=[[1, {k: t for k in FIELDS}], [2, {k: t for k in FIELDS}]], set=st), "each-text")
                if len(t) < 300:
                    for k in META:
                        run.case(o_text, dict(base, f=f, m={k: t}, t=[[1, {}]], set=st), "each-field")
                    for k in FIELDS:
                        run.case(o_text, dict(base, f=f, m={}, t=[[1, {k: t}], [2, {}]], set=st), "each-field")
        if not run.more():
            return
    while run.more() and run.evals < 60000:
        f = r.choice(FMTS)
        c = g.basic(f, n=r.choice((1, 3, 8, 20)))
        c["f"] = f
        c["t"] = [[v, {k: G.text(r, True) for k in FIELDS if r.random() < 0.5}] for v in g.threads(r.choice((8, 12, 30)))]
        c["m"] = {k: G.text(r, True) for k in META if r.random() < 0.6}
        if f in vs:
            c["set"].update(r.choice(vs[f]))
        run.case(o_text, c)
