"""C11: saving, preparing, copying or adding never changes the originals."""
import io
import os

from . import encspec as S, gen as G

ASSUMPTIONS = []
RULE = "deep snapshot of the design before and after every writer, preparation, conversion, copy edit and addition; non-trivial = distinct design and settings"
BUDGET = 30
TASKS = {}
KNOWN = []
FIELDS = ("color", "description", "catalog_number", "details", "brand", "chart", "weight")


def snap(p):
    return (
        [tuple(s) for s in p.stitches], [type(s).__name__ for s in p.stitches], [id(t) for t in p.threadlist],
        [tuple(getattr(t, f) for f in FIELDS) for t in p.threadlist], sorted((repr(k), repr(v)) for k, v in p.extras.items()),
    )


def diff(a, b):
    for n, x, y in zip(("stitches", "kinds of stitch records", "thread objects", "thread contents", "metadata"), a, b):
        if x != y:
            for i, (u, v) in enumerate(zip(x, y)):
                if u != v:
                    return "%s changed at %d from %r to %r" % (n, i, u, v)
            return "%s changed from %d to %d entries" % (n, len(x), len(y))


def o_write(case):
    from pyvc.concrete import Violation
    from pyembroidery import EmbPattern

    f = case["f"]
    p = G.build(case)
    a = snap(p)
    st = G.settings(case)
    st0 = repr(sorted(st.items(), key=repr))
    m = G.writer(f)
    stream = io.StringIO(newline="") if getattr(m, "WRITE_FILE_IN_TEXT_MODE", False) else io.BytesIO()
    try:
        EmbPattern.write_embroidery(m, p, stream, st)
    except Exception:
        pass  # a refusal must leave the design alone too
    d = diff(a, snap(p))
    if d:
        raise Violation("writing to %s: %s" % (f, d))
    if repr(sorted(st.items(), key=repr)) != st0:
        raise Violation("writing to %s changed the settings" % f)


def o_prepare(case):
    from pyvc.concrete import Violation

    p = G.build(case)
    a = snap(p)
    q = p.get_normalized_pattern(G.settings(case))
    d = diff(a, snap(p))
    if d:
        raise Violation("preparing: %s" % d)
    for s in q.stitches:
        s[0] = 1e7
        s[2] = 99
    q.threadlist.append(None)
    q.extras["x"] = 1
    d = diff(a, snap(p))
    if d:
        raise Violation("editing the prepared design: %s" % d)
    for n in ("get_pattern_merge_jumps", "get_stable_pattern"):
        q = getattr(p, n)()
        d = diff(a, snap(p))
        if d:
            raise Violation("%s: %s" % (n, d))
    p.get_pattern_interpolate_trim(3)
    for g in (p.get_as_stitchblock, p.get_as_command_blocks, p.get_as_colorblocks, p.get_as_stitches):
        list(g())
    p.bounds(), p.count_stitch_commands(0), p.get_unique_threadlist(), p.get_singleton_threadlist()
    d = diff(a, snap(p))
    if d:
        raise Violation("measuring: %s" % d)


def edit(p, ops):
    from pyembroidery import EmbMatrix

    for op in ops:
        k = op[0]
        if k == "translate":
            p.translate(op[1], op[2])
        elif k == "transform":
            m = EmbMatrix()
            m.post_rotate(30)
            p.transform(m)
        elif k == "set" and p.stitches:
            s = p.stitches[op[1] % len(p.stitches)]
            s[0], s[1], s[2] = op[2], op[2] + 1, 2
        elif k == "add":
            p.add_stitch_relative(0, op[1], op[2])
        elif k == "del" and p.stitches:
            del p.stitches[op[1] % len(p.stitches)]
        elif k == "insert":
            p.insert(op[1], 0, 5, 5)
        elif k == "thread":
            p.add_thread(op[1])
        elif k == "delthread" and p.threadlist:
            del p.threadlist[0]
        elif k == "meta":
            p.metadata("name", op[1])
        elif k == "trims":
            p.interpolate_trims(1, None, True)
        elif k == "stopdup":
            p.interpolate_stop_as_duplicate_color()
        elif k == "dupstop":
            p.interpolate_duplicate_color_as_stop()
        elif k == "frame":
            p.interpolate_frame_eject()
        elif k == "center" and p.stitches:
            p.move_center_to_origin()
        elif k == "fix":
            p.fix_color_count()
        elif k == "clear":
            p.clear()


def o_copy(case):
    """copies by every route are equal and independent"""
    import copy as C
    from pyvc.concrete import Violation
    from pyembroidery import EmbPattern

    ways = {
        "copy()": lambda p: p.copy(), "copy.copy": C.copy, "copy.deepcopy": C.deepcopy, "EmbPattern(p)": EmbPattern,
        "p + empty": lambda p: p + EmbPattern(),
    }
    for n, way in ways.items():
        for side in (0, 1):
            p = G.build(case)
            a = snap(p)
            q = way(p)
            d = diff(a, snap(p))
            if d:
                raise Violation("%s: %s" % (n, d))
            if n != "p + empty" and not (q.stitches == p.stitches and q.threadlist == p.threadlist and q.extras == p.extras):
                raise Violation("%s is not equal to its original" % n)
            if q.stitches is p.stitches or q.threadlist is p.threadlist or q.extras is p.extras:
                raise Violation("%s shares a container with its original" % n)
            b = snap(q)
            edit((q, p)[side], case["ops"])
            d = diff((a, b)[side], snap((p, q)[side]))
            if d:
                raise Violation("%s: editing the %s shows in the other: %s" % (n, ("copy", "original")[side], d))


def o_join(case):
    from pyvc.concrete import Violation

    kw = case.get("kw", {})
    for way in ("add_pattern", "+=", "+"):
        p = G.build(case)
        q = G.build(case["other"])
        if case.get("same"):
            q.threadlist = list(p.threadlist)
        a, b = snap(p), snap(q)
        if way == "add_pattern":
            p.add_pattern(q, **kw)
            r = p
        elif way == "+=":
            r = p
            r += q
            if r is not p:
                raise Violation("+= returned another design")
        else:
            r = p + q
            d = diff(a, snap(p))
            if d:
                raise Violation("p + q changed p: %s" % d)
        d = diff(b, snap(q))
        if d:
            raise Violation("%s changed the added design: %s" % (way, d))
        edit(r, case["ops"])
        d = diff(b, snap(q))
        if d:
            raise Violation("%s: editing the sum changed the added design: %s" % (way, d))
        if way == "+":
            d = diff(a, snap(p))
            if d:
                raise Violation("p + q: editing the sum changed p: %s" % d)


def ops(r):
    al = (("translate", 3, -4), ("transform",), ("set", r.randint(0, 99), 777), ("add", 5, 6), ("del", r.randint(0, 99)), ("insert", r.randint(0, 9)), ("thread", 0x123456), ("delthread",), ("meta", "other"), ("trims",), ("stopdup",), ("dupstop",), ("frame",), ("center",), ("fix",))
    return [list(r.choice(al)) for _ in range(r.randint(1, 5))] + ([["clear"]] if r.random() < 0.1 else [])


def meta(r):
    m = {}
    for k in ("name", "author", "category", "keywords", "comments", "copyright"):
        if r.random() < 0.4:
            m[k] = r.choice(("a", "abc def", "", "x" * 40))
    return m


def concrete(run):
    r = run.rng
    g = G.Gen(r, [])
    fmts = [f for f in G.NAMES]
    base = {"s": [[0, 0, 1], [10, 10, 0], [20, 10, 0], [20, 10, 3], [30, 10, 0], [30, 10, 5], [50, 60, 0], [50, 60, 2], [400, 60, 0], [400, 60, 3], [410, 60, 0], [410, 60, 4]], "t": [0xFF0000, 0xFF0000, 0x00FF00], "m": {"name": "n"}}
    variants = [{}, {"encode": False}, {"version": "6"}, {"version": "1t"}, {"version": "6t"}, {"trims": False}, {"max_stitch": 10, "max_jump": 10}, {"translate": (5, 5)}, {"deltas": True}, {"mimic": True}, {"version": "extended"}, {"background": 0xFFFFFF}]
    for f in fmts:
        for st in variants:
            run.case(o_write, dict(base, f=f, set=st), "every-writer")
            run.case(o_write, dict(base, f=f, s=[], t=[], set=st), "every-writer")
            run.case(o_write, dict(base, f=f, s=base["s"] + [[0, 0, 3], [1, 1, 0]], t=[1], set=st), "every-writer")
    while run.more() and run.evals < 200000:
        k = r.random()
        if k < 0.45:
            f = r.choice(fmts)
            c = g.basic(f, n=r.choice((1, 3, 8, 20))) if r.random() < 0.5 else S.enc_case(r, g, n=r.choice((1, 3, 8, 20)))
            if r.random() < 0.5:
                c["set"]["encode"] = r.random() < 0.4
            if r.random() < 0.4:
                c["set"]["version"] = r.choice(("1", "6", "1t", "6t", "extended"))
            if f == "png":
                c["s"] = [[x % 200, y % 200, w] for x, y, w in c["s"]]
                for kk in ("scale", "rotate", "translate"):
                    c["set"].pop(kk, None)
            c["m"] = meta(r)
            run.case(o_write, dict(c, f=f), "write:" + f)
        elif k < 0.6:
            run.case(o_prepare, dict(S.enc_case(r, g, n=r.choice((0, 1, 3, 8, 20))), m=meta(r)), "prepare")
        elif k < 0.8:
            c = S.enc_case(r, g, n=r.choice((0, 1, 3, 8)), lim=False)
            run.case(o_copy, dict(c, m=meta(r), ops=ops(r)), "copy")
        else:
            c = S.enc_case(r, g, n=r.choice((0, 1, 3, 8)), lim=False)
            o = S.enc_case(r, g, n=r.choice((0, 1, 3, 8)), lim=False)
            c["other"] = dict(o, m=meta(r))
            c["kw"] = r.choice(({}, {}, {"dx": 5}, {"dy": 3}, {"sx": 2}, {"sy": 2}, {"sx": 2, "sy": 3}, {"rotate": 45}, {"dx": 1, "dy": 2, "sx": 2, "rotate": 9}))
            c["same"] = r.random() < 0.3
            run.case(o_join, dict(c, m=meta(r), ops=ops(r)), "join")
