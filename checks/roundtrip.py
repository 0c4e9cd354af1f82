"""Executable contract of the stitch file formats: read(write(design)) against
the design as prepared for that format."""
from . import gen as G

EPS = 1e-6


def check_dst(q, r, case):
    from pyvc.concrete import Violation

    exp, got = G.events(q), G.events(r)
    d = G.compare(exp, got, 0.5 + EPS)
    if d:
        raise Violation("DST: " + d)
    es = [s for s in q.stitches if s[2] & 0xFF == G.SEQUIN_EJECT]
    gs = [s for s in r.stitches if s[2] & 0xFF == G.SEQUIN_EJECT]
    if q.stitches and q.stitches[-1][2] & 0xFF == G.END:
        e, g = q.stitches[-1], r.stitches[-1]
        if g[2] & 0xFF != G.END or abs(e[0] - g[0]) > 0.5 + EPS or abs(e[1] - g[1]) > 0.5 + EPS:
            raise Violation("DST: the file ends at %r, the design at %r" % (g, e))
    if r.stitches and r.stitches[-1][2] & 0xFF != G.END:
        raise Violation("DST: the design read back does not end with END")


def check_simple(name, tol, repeats=False):
    def check(q, r, case):
        from pyvc.concrete import Violation

        d = G.compare(G.events(q), G.events(r), tol, repeats)
        if d:
            raise Violation("%s: %s" % (name, d))
        if not r.stitches or r.stitches[-1][2] & 0xFF != G.END:
            raise Violation("%s: the design read back does not end with END" % name)

    return check


def check_needle(name, tol):
    def check(q, r, case):
        from pyvc.concrete import Violation
        from pyembroidery import decode_embroidery_command

        br = (G.NEEDLE_SET, G.STOP)
        d = G.compare(G.events(q, br, False), G.events(r, br, False), tol)
        if d:
            raise Violation("%s: %s" % (name, d))
        nq = [decode_embroidery_command(s[2])[2] for s in q.stitches if s[2] & 0xFF == G.NEEDLE_SET]
        nr = [decode_embroidery_command(s[2])[2] for s in r.stitches if s[2] & 0xFF == G.NEEDLE_SET]
        if nq != nr and all(n is not None and 1 <= n <= 14 for n in nq):
            raise Violation("%s: the needles %r come back as %r" % (name, nq, nr))
        if not r.stitches or r.stitches[-1][2] & 0xFF != G.END:
            raise Violation("%s: the design read back does not end with END" % name)

    return check


def check_pec(name):
    def check(q, r, case):
        from pyvc.concrete import Violation

        exp = []
        opt = set()
        for s in q.stitches:
            c = s[2] & 0xFF
            if c == G.STITCH:
                exp.append(("S", s[0], s[1]))
            elif c == G.COLOR_CHANGE:
                exp.append(("C",))
            elif c == G.STOP:
                opt.add(len(exp))
                exp.append(("C",))
        d = G.compare(exp, G.events(r), 0.5 + EPS, True, opt)
        if d:
            raise Violation("%s: %s" % (name, d))

    return check


def check_vp3(q, r, case):
    from pyvc.concrete import Violation

    br = (G.COLOR_CHANGE,)
    d = G.compare(G.events(q, br), G.events(r, br), 1.5 + EPS)
    if d:
        raise Violation("VP3: " + d)


CHECK = {
    "dst": check_dst,
    "exp": check_simple("EXP", 0.5 + EPS),
    "jef": check_simple("JEF", 0.5 + EPS),
    "xxx": check_simple("XXX", 0.5 + EPS),
    "tbf": check_needle("TBF", 0.5 + EPS),
    "u01": check_needle("U01", 0.5 + EPS),
    "pec": check_pec("PEC"),
    "pes": check_pec("PES"),
    "vp3": check_vp3,
}


def admissible(q, fmt):
    """preconditions of the format: VP3 stores 16 bit displacements between
    consecutive penetrations; the coordinates of a block fit its header"""
    if fmt == "vp3":
        x = y = 0
        for s in q.stitches:
            if s[2] & 0xFF == G.STITCH:
                if abs(s[0] - x) > 32000 or abs(s[1] - y) > 32000:
                    return False
                x, y = s[0], s[1]
            elif s[2] & 0xFF == G.COLOR_CHANGE:
                x, y = s[0], s[1]
    if fmt == "tbf":
        return sum(1 for s in q.stitches if s[2] & 0xFF == G.NEEDLE_SET) <= 256
    if fmt in ("pec", "pes"):
        return sum(1 for s in q.stitches if s[2] & 0xFF in (G.COLOR_CHANGE, G.STOP)) < 250
    return True


def rt(case):
    """case: {"f": format, "s": stitches, "t": threads, "m": metadata, "set": write settings, "rset": read settings}"""
    fmt = case["f"]
    p = G.build(case)
    try:
        data, q = G.write(fmt, p, G.settings(case))
    except Exception:
        if not admissible(G.prepared(fmt, p, G.settings(case)), fmt):
            return
        raise
    if not admissible(q, fmt):
        return
    r = G.read(fmt, data, dict(case.get("rset", {})))
    CHECK[fmt](q, r, case)


def o_roundtrip(case):
    rt(case)


def special(fmt, rng, ints):
    """long designs with fractional positions, records at every displacement
    boundary, colour changes everywhere"""
    g = G.Gen(rng, ints)
    cc = G.NEEDLE_SET if fmt in ("tbf", "u01") else G.COLOR_CHANGE
    lim = min(G.LIMIT[fmt], 2047)
    M = {"set": {"encode": False}}
    # every displacement on the axes and diagonals, as stitches and as jumps
    vals = sorted(set(list(range(-min(lim, 300), min(lim, 300) + 1)) + [v for v in (-lim, 1 - lim, lim - 1, lim, -1024, -1023, 1023, 1024, -512, 512)if abs(v) <= lim]))
    for c in (G.STITCH, G.JUMP):
        for ax in ((1, 0), (0, 1), (1, 1), (1, -1)):
            s = []
            x = y = 0
            for v in vals:
                for sg in (1, -1):
                    x += sg * v * ax[0]
                    y += sg * v * ax[1]
                    s.append([x, y, c])
                    if sg == 1 and c == G.JUMP:
                        s.append([x, y, G.STITCH])
            s.append([x, y, G.STITCH])
            s.append([x, y, G.END])
            yield dict(M, s=s, t=[0xFF0000, 0xFF])
    # drift: many fractional steps
    for step in ((0.5, 0.5), (0.3, -0.7), (1.5, 2.5), (-0.49, 0.51), (-2.5, -0.5), (7.25, 0.1)):
        for n in (40, 2500):
            s = [[G.grid(i * step[0]), G.grid(i * step[1]), G.STITCH] for i in range(n)]
            if max(max(abs(a[0]), abs(a[1])) for a in s) < 25000 and (abs(step[0] * n) < 20000):
                yield dict(M, s=s + [s[-1][:2] + [G.END]], t=[1])
    # drift through jumps, trims, breaks
    x = y = 0.0
    s = []
    for i in range(1500):
        c = (G.STITCH, G.JUMP, G.STITCH, G.TRIM, G.STITCH)[i % 5]
        if c in (G.STITCH, G.JUMP):
            x += G.grid((0.5, 1.3, -0.4, 0.7, 0.25)[i % 5])
            y -= G.grid((0.25, 0.5, -0.6, 0.7, 0.3)[i % 5])
        s.append([x, y, c])
        if i % 100 == 99:
            s.append([x, y, cc | (0 if cc == G.COLOR_CHANGE else ((1 + i // 100 % 9 + 1) << 16))])
    s.append([x, y, G.END])
    yield dict(M, s=s, t=[i * 0x0F0F0F & 0xFFFFFF for i in range(20)])


def half_noise(case):
    """a prepared coordinate within rounding noise of, but not on, a half unit"""
    q = G.prepared(case["f"], G.build(case), G.settings(case))
    for s in q.stitches:
        for v in s[:2]:
            d = abs(v - int(v))
            if 0 < abs(d - 0.5) < 1e-9:
                return True
    return False


def noise_case(fmt):
    """known finding (see known_findings.json)"""
    h = 20.500000000000004
    a, cc = {"dst": (-100, G.TRIM), "xxx": (-102, G.STOP), "u01": (-102, G.FAST)}.get(fmt, (-102, G.TRIM))
    s = [[a, 0, G.STITCH], [h, 0, G.STITCH], [h, 0, cc]]
    if fmt == "dst":
        s.append([h + 0.001, 0, G.STITCH])
    return {"f": fmt, "set": {"encode": False}, "t": [1], "s": s + [[h + 0.375, 0, G.STITCH], [h + 0.375, 0, G.END]]}


NOISE = "a coordinate one ulp beyond a half unit before a command that carries no displacement: the writer counts a unit the file does not hold (shift of one unit)"


def known():
    return [{"id": NOISE, "match": lambda case, what: half_noise(case)}]


def concrete(run, fmts, more=None):
    from pyvc.concrete import harvest

    files = []
    for f in fmts:
        files += ["%sWriter.py" % G.NAMES[f], "%sReader.py" % G.NAMES[f]]
    files.append("EmbEncoder.py")
    ints, _, _ = harvest(files)
    ints = [v for v in ints if 0 <= v < 70000]
    g = G.Gen(run.rng, ints)
    for f in fmts:
        if f != "vp3":
            run.case(o_roundtrip, noise_case(f), "known-finding:" + f)
    for f in fmts:
        for c in special(f, run.rng, ints):
            vs = ("1", "6", "1t", "6t") if f == "pes" else (None,)
            for v in vs:
                c2 = dict(c, f=f, set=dict(c["set"]))
                if v:
                    c2["set"]["version"] = v
                run.case(o_roundtrip, c2, "special:" + f)
                if not run.more():
                    return
    if more is not None:
        for c in more(run, g):
            run.case(o_roundtrip, c, "special:" + c["f"])
            if not run.more():
                return
    while run.more() and run.evals < 400000:
        f = run.rng.choice(fmts)
        run.case(o_roundtrip, random_case(run.rng, g, f), "random:" + f)


def random_case(r, g, f):
    if r.random() < 0.75:
        c = g.basic(f)
    else:
        cc = G.NEEDLE_SET if f in ("tbf", "u01") else G.COLOR_CHANGE
        cm = [G.STITCH, G.JUMP, G.TRIM, G.STOP, cc, G.SLOW, G.FAST]
        w = [10, r.choice((0, 1, 5)), r.choice((0, 1)), r.choice((0, 0.3)), r.choice((0, 0.5)), 0, 0]
        if f == "u01":
            w[5:] = [1, 1]
        s = [[0, 0, G.JUMP]] + g.lowlevel(f, r.choice((1, 2, 3, 10, 60, 300)), cm, w, r.choice((0, 0.5, 1)))
        if cc == G.NEEDLE_SET:
            for e in s:
                if e[2] == cc:
                    e[2] |= r.randint(2, 10) << 16
        c = {"s": s, "t": g.threads(), "set": {"encode": False}}
    c["f"] = f
    if f == "pes":
        c["set"]["version"] = r.choice(("1", "6", "1t", "6t"))
    if f == "dst":
        if r.random() < 0.3:
            c["set"]["trim_at"] = r.choice((2, 3, 4, 5, 6, 7, 8))
        if r.random() < 0.2:
            c["set"]["version"] = "extended"
        if r.random() < 0.3:
            c["rset"] = {"trim_at": r.choice((2, 3, 4, 5, 8)), "clipping": r.random() < 0.5, "trim_distance": r.choice((None, 3.0, 50.0))}
    if f == "jef":
        if r.random() < 0.3:
            c["set"]["trims"] = r.random() < 0.7
            c["set"]["trim_at"] = r.choice((2, 3, 5, 8))
        if r.random() < 0.3:
            c["rset"] = {"trims": r.random() < 0.5, "clipping": r.random() < 0.5, "trim_distance": r.choice((None, 3.0, 50.0))}
    return c
