"""Executable contract of the preparation step (EmbEncoder), written from the
property texts: an own walk over the source design states what the prepared
design must contain."""
import math

from . import gen as G

STITCHES = (G.STITCH, G.SEW_TO, G.NEEDLE_AT)
SEWS = STITCHES + (G.SEQUIN_EJECT,)
INF = float("inf")


class Skip(Exception):
    """the design lies outside the property's quantifier"""


# ------------------------------------------------------------------ own matrix
def ident():
    return (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def then(m, n):
    """first m, then n;  point (x,y) -> (a x + c y + e, b x + d y + f)"""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (A * a + C * b, B * a + D * b, A * c + C * d, B * c + D * d, A * e + C * f + E, B * e + D * f + F)


def app(m, x, y):
    a, b, c, d, e, f = m
    return a * x + c * y + e, b * x + d * y + f


def rot(deg):
    t = deg * math.pi / 180.0
    return (math.cos(t), math.sin(t), -math.sin(t), math.cos(t), 0.0, 0.0)


def about(m, px, py):
    return then(then((1, 0, 0, 1, -px, -py), m), (1, 0, 0, 1, px, py))


def inv(m):
    a, b, c, d, e, f = m
    D = a * d - b * c
    if abs(D) < 1e-9:
        raise Skip()
    return (d / D, -b / D, -c / D, a / D, (c * f - d * e) / D, (b * e - a * f) / D)


def start_matrix(st):
    m = ident()
    t = st.get("translate")
    if t is not None:
        m = then((1, 0, 0, 1, t[0], t[1]), m)
    s = st.get("scale")
    if s is not None:
        sx, sy = s if isinstance(s, (list, tuple)) else (s, s)
        m = then((sx, 0, 0, sy, 0, 0), m)
    r = st.get("rotate")
    if r is not None:
        m = then(rot(r), m)
    return m


def contingency(v, on, off):
    return on if v is True else off if v is False else v


def tokens(case):
    """-> what must be penetrated: list of tokens
    ("P", x, y)                     exactly one penetration there
    ("G", x0, y0, x1, y1, limit)    any steps on the way (sewn split)
    ("T", x, y, bx, by)             at most one tie of four stitches ending at x,y
    ("A", x, y)                     at most one penetration there"""
    st = case.get("set", {})
    m = start_matrix(st)
    rnd = st.get("round", False)
    ton = contingency(st.get("tie_on", G.TIEON_NO), G.TIEON_3, G.TIEON_NO)
    toff = contingency(st.get("tie_off", G.TIEOFF_NO), G.TIEOFF_3, G.TIEOFF_NO)
    long_ = st.get("long_stitch_contingency", G.LONG_JUMP)
    seq = st.get("sequin_contingency", G.SEQ_JUMP if st.get("strip_sequins", True) else G.SEQ_UTILIZE)
    ms = st.get("max_stitch", INF)
    out = []
    s = case["s"]
    nx = ny = 0
    known = True  # the needle is where the last penetration or jump left it

    def point(i):
        x, y = app(m, s[i][0], s[i][1])
        if rnd:
            for v in (x, y):
                if 0 < abs(abs(v - int(v)) - 0.5) < 1e-6:
                    raise Skip()  # within computing noise of a tie
            if m != ident() and (x * 2 == int(x * 2) or y * 2 == int(y * 2)):
                if abs(x - int(x)) == 0.5 or abs(y - int(y)) == 0.5:
                    raise Skip()
            return (round(x), round(y))
        return (x, y)

    def tie(on, i, j):
        if on and 0 <= j < len(s) or (on and j == -1 and s):
            b = app(m, s[j][0], s[j][1])
            out.append(("T", b[0], b[1]))

    for i, (sx, sy, word) in enumerate(s):
        c = word & 0xFF
        if c in STITCHES:
            x, y = point(i)
            if c == G.SEW_TO or c == G.STITCH and long_ == G.LONG_SEW:
                out.append(("G", x, y, ms))
            out.append(("P", x, y))
            tie(ton == G.TIEON_3, i, i + 1)
            nx, ny, known = x, y, True
        elif c == G.SEQUIN_EJECT:
            x, y = point(i)
            out.append(("A", x, y))
            tie(ton == G.TIEON_3, i, i + 1)
            if seq != G.SEQ_REMOVE:
                out.append(("G", x, y, ms))
            if seq == G.SEQ_STITCH:
                out.append(("P", x, y))
            nx, ny, known = x, y, seq != G.SEQ_REMOVE
        elif c in (G.TIE_ON,):
            tie(ton == G.TIEON_3, i, i + 1)
        elif c in (G.TIE_OFF, G.TRIM, G.SEQUENCE_BREAK, G.COLOR_BREAK, G.COLOR_CHANGE, G.NEEDLE_SET, G.FRAME_EJECT):
            tie(toff == G.TIEOFF_3, i, i - 1)
            if c == G.FRAME_EJECT:
                known = False
        elif c == G.JUMP:
            known = False
        elif c == G.END:
            break
        elif c in (G.TIEON_3, G.TIEON_NO):
            ton = c
        elif c in (G.TIEOFF_3, G.TIEOFF_NO):
            toff = c
        elif c == G.MAX_STITCH:
            ms = sx
        elif c in (G.LONG_NONE, G.LONG_JUMP, G.LONG_SEW):
            long_ = c
        elif c in (G.SEQ_UTILIZE, G.SEQ_JUMP, G.SEQ_STITCH, G.SEQ_REMOVE):
            seq = c
        elif c == G.M_TRANSLATE:
            m = then((1, 0, 0, 1, sx, sy), m)
        elif c == G.M_SCALE_O:
            m = then((sx, 0, 0, sy, 0, 0), m)
        elif c == G.M_ROTATE_O:
            m = then(rot(sx), m)
        elif c in (G.M_SCALE, G.M_ROTATE):
            if not known:
                raise Skip()
            q = app(inv(m), nx, ny)
            m = then(about((sx, 0, 0, sy, 0, 0) if c == G.M_SCALE else rot(sx), q[0], q[1]), m)
        elif c == G.M_RESET:
            m = ident()
    return out


def eps(*v):
    return 1e-6 * (1 + max(abs(a) for a in v))


def same(e, x, y):
    t = eps(e[1], e[2])
    return abs(e[1] - x) <= t and abs(e[2] - y) <= t


def between(v, a, b):
    t = eps(a, b)
    return min(a, b) - t <= v <= max(a, b) + t


def match(toks, prep):
    """prep: list of (x, y, command, x before, y before) of the prepared design, only
    its penetrations.  None or a message"""
    # NFA over (token index, sub state); a rounding tie of 1e-12 may differ by one unit
    n = len(toks)

    def clo(states):
        out = set()
        work = list(states)
        while work:
            st = work.pop()
            if st in out:
                continue
            out.add(st)
            i, k = st
            if i < n and k == 0 and toks[i][0] in "GTA":
                work.append((i + 1, 0))
        return out

    states = clo({(0, 0)})
    for j, (x, y, px, py) in enumerate(prep):
        new = set()
        for (i, k) in states:
            if i >= n:
                continue
            t = toks[i]
            if t[0] == "P":
                if same(t, x, y):
                    new.add((i + 1, 0))
            elif t[0] == "A":
                if same(t, x, y):
                    new.add((i + 1, 0))
            elif t[0] == "G":
                # a step along the straight line to the target, strictly before it
                d = max(abs(t[1] - px), abs(t[2] - py))
                r = max(abs(t[1] - x), abs(t[2] - y))
                cross = abs((t[1] - px) * (y - py) - (t[2] - py) * (x - px))
                if d > t[3] * (1 - 1e-9) - 1e-9 and r < d and cross <= 1e-6 * (1 + d) * (1 + d) and between(x, px, t[1]) and between(y, py, t[2]):
                    new.add((i, 0))
                elif d > t[3] * (1 - 1e-9) and d <= 2 * t[3] and r < d and between(x, px, t[1]) and between(y, py, t[2]) and cross <= 1e-6 * (1 + d) * (1 + d):
                    new.add((i, 0))
                elif r <= t[3] * (1 + 1e-9) + 1e-9 and r < d and cross <= 1e-6 * (1 + d) * (1 + d) and between(x, px, t[1]) and between(y, py, t[2]):
                    # the last steps of the split lie within the limit
                    new.add((i, 0))
            elif t[0] == "T":
                if k == 0:
                    # first tie stitch leaves the lock point (px,py) towards t
                    if between(x, px, t[1]) and between(y, py, t[2]):
                        new.add((i, (1, px, py)))
                elif k[0] < 3:
                    if between(x, k[1], t[1]) and between(y, k[2], t[2]):
                        new.add((i, (k[0] + 1,) + k[1:]))
                else:
                    if abs(x - k[1]) <= eps(x) and abs(y - k[2]) <= eps(y):
                        new.add((i + 1, 0))
        if not new:
            want = [toks[i] for i, k in sorted(states, key=repr) if i < n][:4]
            return "penetration %d of the prepared design, at (%s, %s), is not one the source asks for there (expected %r)" % (j, x, y, want)
        states = clo(new)
    if (n, 0) not in states:
        i = max(i for i, k in states)
        return "the prepared design lacks the penetration %r" % (toks[i:i + 1],)
    return None


def prepare(case):
    p = G.build(case)
    st = G.settings(case)
    return p.get_normalized_pattern(st), p


def o_keep(case):
    """C09"""
    from pyvc.concrete import Violation

    try:
        toks = tokens(case)
    except Skip:
        return
    q, p = prepare(case)
    cs = [s[2] & 0xFF for s in q.stitches]
    bad = [c for c in cs if c not in G.BASIC]
    if bad:
        raise Violation("the prepared design holds the command %#x, which no machine knows" % bad[0])
    if cs.count(G.END) != 1 or cs[-1] != G.END:
        raise Violation("END occurs %d times in the prepared design, last entry is %r" % (cs.count(G.END), q.stitches[-1:]))
    pen = []
    px = py = 0
    for s in q.stitches:
        if s[2] & 0xFF == G.STITCH:
            pen.append((s[0], s[1], px, py))
        px, py = s[0], s[1]
    d = match(toks, pen)
    if d:
        raise Violation(d)
    if case.get("set", {}).get("round"):
        # integer source points stay exact
        pass


# ------------------------------------------------------------------------ C08
def o_limit(case):
    from pyvc.concrete import Violation

    st = case["set"]
    ms, mj = st.get("max_stitch", INF), st.get("max_jump", INF)
    limits = {"s": [ms], "j": [mj]}
    lead = True
    for x, y, w in case["s"]:
        c = w & 0xFF
        if c in (G.LONG_NONE,):
            return
        if c == G.MAX_STITCH:
            limits["s"] = [x] if lead else limits["s"] + [x]
        elif c == G.MAX_JUMP:
            limits["j"] = [x] if lead else limits["j"] + [x]
        else:
            lead = False
    if st.get("long_stitch_contingency") == G.LONG_NONE:
        return
    L = max(limits["s"] + limits["j"])
    q, p = prepare(case)
    px = py = 0
    lead = True  # no stitch yet in this run
    # ties asked for while the thread is cut start a run of their own
    loose = any(w & 0xFF == G.TIE_ON or w & 0xFF == G.TIE_OFF for x, y, w in case["s"]) or len(limits["s"]) > 1 or len(limits["j"]) > 1
    for i, s in enumerate(q.stitches):
        x, y = s[0], s[1]
        c = s[2] & 0xFF
        lim = L
        if c in (G.STITCH, G.SEQUIN_EJECT) and not loose:
            lim = limits["j"][0] if lead else limits["s"][0]
        t = lim * (1 + 1e-9) + eps(x, y, px, py) * 1e-3
        if abs(x - px) > t or abs(y - py) > t:
            raise Violation("entry %d of the prepared design %r is (%s, %s) away from the one before; the limit is %s" % (i, s, x - px, y - py, lim))
        px, py = x, y
        if c in (G.STITCH, G.SEQUIN_EJECT):
            lead = False
        elif c in (G.TRIM, G.STOP, G.COLOR_CHANGE, G.NEEDLE_SET):
            lead = True


def o_line(case):
    """plain moves: each is split along the straight line and ends at its point"""
    from pyvc.concrete import Violation

    st = case["set"]
    m = start_matrix(st)
    q, p = prepare(case)
    ms, mj = st.get("max_stitch", INF), st.get("max_jump", INF)
    body = [s for s in q.stitches if s[2] & 0xFF in (G.STITCH, G.JUMP)]
    k = 0
    px = py = 0
    sewn = False
    jumping = False
    for i, (sx, sy, c) in enumerate(case["s"]):
        x, y = app(m, sx, sy)
        if st.get("round"):
            x, y = round(x), round(y)
        kind = G.JUMP if c == G.JUMP else G.STITCH
        lim = mj if c == G.JUMP or not sewn else ms
        split = c == G.SEW_TO or c == G.STITCH and st.get("long_stitch_contingency") == G.LONG_SEW
        gap = G.STITCH if split and sewn else G.JUMP
        d = max(abs(x - px), abs(y - py))
        gaps = []
        full = st.get("full_jump") and not sewn and c != G.JUMP
        while k < len(body) and not (body[k][2] == kind and same((0, x, y), body[k][0], body[k][1]) and (kind != gap or len(gaps) + 1 >= math.ceil(d / lim - 1e-9))):
            gaps.append(body[k])
            k += 1
        if k == len(body):
            raise Violation("source entry %d, at (%s, %s), is not reached in the prepared design" % (i, x, y))
        k += 1
        qx, qy = px, py
        if full and gaps and same((0, x, y), gaps[-1][0], gaps[-1][1]) and gaps[-1][2] == G.JUMP:
            gaps = gaps[:-1]
        for g in gaps:
            if g[2] != gap:
                raise Violation("entry %r splits a move to (%s, %s) that is split into %s" % (g, x, y, "stitches" if gap == G.STITCH else "jumps"))
            cross = abs((x - px) * (g[1] - py) - (y - py) * (g[0] - px))
            if cross > 1e-6 * (1 + d) * (1 + d) or not between(g[0], qx, x) or not between(g[1], qy, y):
                raise Violation("step %r is not on the line from (%s, %s) to (%s, %s)" % (g, px, py, x, y))
            if max(abs(g[0] - qx), abs(g[1] - qy)) > lim * (1 + 1e-9) + 1e-9:
                raise Violation("step %r from (%s, %s) exceeds the limit %s" % (g, qx, qy, lim))
            qx, qy = g[0], g[1]
        if max(abs(x - qx), abs(y - qy)) > lim * (1 + 1e-9) + 1e-9 * (1 + abs(x) + abs(y)):
            raise Violation("the last step to (%s, %s) from (%s, %s) exceeds the limit %s" % (x, y, qx, qy, lim))
        px, py = x, y
        if c != G.JUMP:
            sewn = True
    if k != len(body):
        raise Violation("the prepared design has more moves than the source: %r" % (body[k],))


# ------------------------------------------------------------------------ C10
def plan(case):
    """the source's colour plan: {block: [command, thread, needle]}"""
    from pyembroidery import decode_embroidery_command

    ch = {0: [None, None, None]}
    look = 0
    cur = 0
    for x, y, w in case["s"]:
        c, th, nd, od = decode_embroidery_command(w)
        if c in SEWS and cur == 0:
            cur = 1
        if c == G.SET_CHANGE_SEQUENCE:
            if od is None:
                k = look
                look += 1
            else:
                k = od
            e = ch.setdefault(k, [None, None, None])
        elif c in (G.COLOR_CHANGE, G.NEEDLE_SET, G.COLOR_BREAK):
            k = cur
            e = ch.setdefault(k, [None, None, None])
            if k >= look:
                look = k + 1
            if not (c == G.COLOR_BREAK and cur == 0):
                cur += 1
        else:
            continue
        if th is not None:
            e[1] = th
        if nd is not None:
            e[2] = nd
    return ch


def o_threads(case):
    from pyvc.concrete import Violation
    from pyembroidery import EmbThread, decode_embroidery_command

    st = case["set"]
    q, p = prepare(case)  # never fails
    tcc = st.get("thread_change_command", G.COLOR_CHANGE)
    count = st.get("needle_count", 5)
    if count <= 1 and tcc == G.NEEDLE_SET:
        tcc = G.STOP
    ch = plan(case)
    assigned = []
    ti = ni = 0
    for k in sorted(ch):
        e = ch[k]
        if e[1] is None:
            th = ti
            ti += 1
        else:
            th = e[1]
        if e[2] is None:
            nd = ni % count + 1
            ni += 1
        else:
            nd = e[2]
        assigned.append((k, th, nd, e[2] is not None))
    assigned = {k: (th, nd, ex) for k, th, nd, ex in assigned}
    if tcc == G.NEEDLE_SET:
        started = False
        k = 0
        if q.threadlist != p.threadlist:
            raise Violation("the needle format's thread list differs from the source's")
        for s in q.stitches:
            c, th, nd, od = decode_embroidery_command(s[2])
            if c == G.COLOR_CHANGE:
                raise Violation("a colour change in a design prepared for needles")
            if c == G.NEEDLE_SET:
                started = True
                a = assigned.get(k)
                if a is None:
                    raise Violation("needle change %d is none of the source's" % k)
                if nd != a[1]:
                    raise Violation("needle change %d names needle %r, the source's block %d is assigned needle %r" % (k, nd, k, a[1]))
                if not a[2] and not 1 <= nd <= count:
                    raise Violation("needle change %d names needle %r of %d" % (k, nd, count))
                if th != a[0] and a[0] < 255:
                    raise Violation("needle change %d carries thread %r, not %r" % (k, th, a[0]))
                k += 1
            elif c == G.STITCH and not started:
                raise Violation("the design is sewn before any needle is chosen")
    else:
        sewn = any(s[2] & 0xFF in (G.STITCH, G.SEQUIN_EJECT) for s in q.stitches)
        own = tcc
        n = sum(1 for s in q.stitches if s[2] & 0xFF == own)
        if own == G.STOP:
            n = sum(1 for s in q.stitches if s[2] & 0xFF == own and s[2] >> 8)
        if own == G.COLOR_CHANGE:
            if sewn and len(q.threadlist) != n + 1:
                raise Violation("%d threads for %d colour changes" % (len(q.threadlist), n))
            if not sewn and len(q.threadlist) not in (0, n + 1):
                raise Violation("%d threads for %d colour changes" % (len(q.threadlist), n))
            if n > 0 and len(q.threadlist) != n + 1:
                raise Violation("%d threads for %d colour changes" % (len(q.threadlist), n))
        for k, t in enumerate(q.threadlist):
            if not isinstance(t, EmbThread):
                raise Violation("thread %d of the prepared design is %r" % (k, t))
            a = assigned.get(k)
            if a is None:
                raise Violation("thread %d belongs to no block of the source" % k)
            if a[0] < len(p.threadlist) and not (t is p.threadlist[a[0]] or t == p.threadlist[a[0]]):
                raise Violation("block %d is given thread %r, the source assigns it thread %d: %r" % (k, t.hex_color(), a[0], p.threadlist[a[0]].hex_color()))
        # every change of the prepared design has a stitch position in source order
    # blocks: each source stitch lies in the block the source places it in
    blocks(case, q, tcc)


def blocks(case, q, tcc):
    """number of source stitches per block"""
    from pyvc.concrete import Violation

    if any(s[2] & 0xFF not in (G.STITCH, G.COLOR_CHANGE, G.NEEDLE_SET, G.COLOR_BREAK, G.TRIM, G.SET_CHANGE_SEQUENCE) for s in case["s"]):
        return
    if case["set"].get("tie_on") or case["set"].get("tie_off") or case["set"].get("long_stitch_contingency"):
        return
    want = [0]
    sewn = False
    for i, s in enumerate(case["s"]):
        c = s[2] & 0xFF
        if c == G.STITCH:
            want[-1] += 1
            sewn = True
        elif c in (G.COLOR_CHANGE, G.NEEDLE_SET) or c == G.COLOR_BREAK:
            if want[-1]:
                want.append(0)
    got = [0]
    for s in q.stitches:
        c = s[2] & 0xFF
        if c == G.STITCH:
            got[-1] += 1
        elif c == tcc:
            if got[-1]:
                got.append(0)
    a = [v for v in want if v]
    b = [v for v in got if v]
    if a != b:
        raise Violation("the source sews blocks of %r stitches, the prepared design %r" % (a, b))


# ------------------------------------------------------------------ generators
def enc_settings(r, lim=True, cont=True):
    st = {}
    if lim:
        v = r.choice((1, 3, 10, 12.7, 127, 121, 50, 2047))
        st["max_stitch"] = v
        st["max_jump"] = v if r.random() < 0.75 else r.choice((1, 5, 30, 127, 200))
    elif r.random() < 0.3:
        st["max_stitch"] = st["max_jump"] = r.choice((10, 127))
    for k, pr, ch in (
        ("full_jump", 0.3, (True,)), ("round", 0.4, (True,)), ("tie_on", 0.35, (True, G.TIEON_3, False)), ("tie_off", 0.35, (True, G.TIEOFF_3, False)),
        ("explicit_trim", 0.3, (True, False)), ("writes_speeds", 0.3, (False, True)),
        ("sequin_contingency", 0.5, (G.SEQ_UTILIZE, G.SEQ_JUMP, G.SEQ_STITCH, G.SEQ_REMOVE)), ("strip_sequins", 0.1, (True, False)),
        ("translate", 0.15, ([3, -7], [0.5, 100])), ("scale", 0.15, (2, 0.5, [1, -1], [3, 0.25], -1)), ("rotate", 0.15, (90, 33, -45, 180)),
        ("long_stitch_contingency", 0.3, (G.LONG_JUMP, G.LONG_SEW) + ((G.LONG_NONE,) if not lim else ())),
        ("thread_change_command", 0.4, (G.COLOR_CHANGE, G.NEEDLE_SET, G.STOP)), ("needle_count", 0.3, (1, 2, 3, 5, 14)),
    ):
        if r.random() < pr:
            st[k] = r.choice(ch)
    return st


def enc_case(r, g, n=None, lim=True, opts=True, mats=True):
    if n is None:
        n = r.choice((0, 1, 2, 3, 5, 8, 13, 21, 40, 80))
    base = [G.STITCH] * 6 + [G.SEW_TO, G.NEEDLE_AT, G.JUMP, G.TRIM, G.STITCH_BREAK, G.SEQUENCE_BREAK, G.COLOR_BREAK, G.COLOR_CHANGE, G.NEEDLE_SET, G.STOP, G.FRAME_EJECT, G.TIE_ON, G.TIE_OFF, G.SEQUIN_EJECT, G.SEQUIN_MODE, G.SLOW, G.FAST, G.SET_CHANGE_SEQUENCE]
    k = r.random()
    if k < 0.3:
        base = [G.STITCH] * 4 + r.sample(base, 3)
    elif k < 0.45:
        base = [G.STITCH] * 2 + [G.SEQUIN_EJECT] * 2 + [G.SEQUIN_MODE, G.TRIM, G.JUMP, G.COLOR_CHANGE]
    if opts:
        base = base + [G.TIEON_3, G.TIEOFF_3, G.TIEON_NO, G.TIEOFF_NO, G.EXPL_TRIM, G.IMPL_TRIM, G.LONG_JUMP, G.LONG_SEW, G.SEQ_UTILIZE, G.SEQ_JUMP, G.SEQ_STITCH, G.SEQ_REMOVE][:: r.choice((1, 3, 100))]
    if r.random() < 0.15:
        base = base + [G.END]
    frac = r.random() < 0.5
    scale = r.choice((5, 40, 127, 400))
    out = []
    x = y = 0
    sewn = False
    for _ in range(n):
        c = r.choice(base)
        if c in SEWS or c in (G.JUMP, G.FRAME_EJECT):
            kk = r.random()
            if kk < 0.1:
                pass
            else:
                x += r.choice((g.delta(scale), r.randint(-scale, scale), 0))
                y += r.choice((g.delta(scale), r.randint(-scale, scale), 0))
                if frac and r.random() < 0.5:
                    x += G.grid(r.random())
                    y += r.choice((0.5, 0.25, G.grid(r.random())))
            if abs(x) > 9000:
                x %= 531
            if abs(y) > 9000:
                y %= 533
            sewn = sewn or c in SEWS
        if c in (G.TIE_ON, G.TIE_OFF) and not sewn:
            continue
        w = c
        if c in (G.COLOR_CHANGE, G.NEEDLE_SET, G.COLOR_BREAK, G.SET_CHANGE_SEQUENCE) and r.random() < 0.4:
            from pyembroidery import encode_thread_change

            w = encode_thread_change(c, r.choice((None, 0, 1, 2, 5)), r.choice((None, 1, 2, 3, 5, 9)), r.choice((None, 0, 1, 2, 3)) if c == G.SET_CHANGE_SEQUENCE else None)
        elif r.random() < 0.02 and c in (G.STITCH, G.JUMP, G.TRIM, G.STOP, G.COLOR_BREAK, G.SEQUENCE_BREAK):
            w = c | (r.randint(1, 9) << 8)
        out.append([x, y, w])
        if mats and c in STITCHES and r.random() < 0.05:
            mc = r.choice((G.M_TRANSLATE, G.M_SCALE_O, G.M_ROTATE_O, G.M_RESET, G.M_SCALE, G.M_ROTATE))
            out.append({G.M_TRANSLATE: [r.randint(-9, 9), 4, mc], G.M_SCALE_O: [2, 0.5, mc], G.M_SCALE: [0.5, 2, mc], G.M_RESET: [0, 0, mc]}.get(mc, [r.choice((90, 30, -77)), 0, mc]))
    return {"s": out, "t": g.threads(), "set": enc_settings(r, lim)}
