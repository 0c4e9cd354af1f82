"""Concrete designs and observations for the bounded oracles (real package).

Designs are JSON-able dicts {"s": [[x, y, cmd], ...], "t": [color or [color,
fields]], "m": {...}, "set": {...}}.
"""
import io

# command numbers of the documented command language (EmbConstant)
STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, SEQUIN_MODE, SEQUIN_EJECT = 0, 1, 2, 3, 4, 5, 6, 7
NEEDLE_SET, SLOW, FAST, SET_CHANGE_SEQUENCE = 9, 11, 12, 16
SEW_TO, NEEDLE_AT = 0xB0, 0xB1
M_TRANSLATE, M_SCALE_O, M_ROTATE_O, M_RESET, M_SCALE, M_ROTATE = 0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5
TIEON_3, TIEOFF_3, TIEON_NO, TIEOFF_NO, MAX_STITCH, MAX_JUMP, EXPL_TRIM, IMPL_TRIM = 0xD1, 0xD2, 0xD3, 0xD4, 0xD5, 0xD6, 0xD7, 0xD8
STITCH_BREAK, SEQUENCE_BREAK, COLOR_BREAK, TIE_ON, TIE_OFF, FRAME_EJECT = 0xE0, 0xE1, 0xE2, 0xE4, 0xE5, 0xE9
LONG_NONE, LONG_JUMP, LONG_SEW = 0xF0, 0xF1, 0xF2
SEQ_UTILIZE, SEQ_JUMP, SEQ_STITCH, SEQ_REMOVE = 0xF5, 0xF6, 0xF7, 0xF8

BASIC = {STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, SEQUIN_MODE, SEQUIN_EJECT, NEEDLE_SET, SLOW, FAST}
ALL = sorted(
    BASIC
    | {SET_CHANGE_SEQUENCE, SEW_TO, NEEDLE_AT, M_TRANSLATE, M_SCALE_O, M_ROTATE_O, M_RESET, M_SCALE, M_ROTATE}
    | {TIEON_3, TIEOFF_3, TIEON_NO, TIEOFF_NO, MAX_STITCH, MAX_JUMP, EXPL_TRIM, IMPL_TRIM}
    | {STITCH_BREAK, SEQUENCE_BREAK, COLOR_BREAK, TIE_ON, TIE_OFF, FRAME_EJECT, LONG_NONE, LONG_JUMP, LONG_SEW}
    | {SEQ_UTILIZE, SEQ_JUMP, SEQ_STITCH, SEQ_REMOVE}
)

NAMES = {
    "dst": "Dst", "exp": "Exp", "jef": "Jef", "xxx": "Xxx", "tbf": "Tbf", "u01": "U01", "pec": "Pec", "pes": "Pes",
    "vp3": "Vp3", "csv": "Csv", "json": "Json", "gcode": "Gcode", "svg": "Svg", "txt": "Txt", "png": "Png", "pmv": "Pmv",
    "col": "Col", "edr": "Edr", "inf": "Inf",
}
LIMIT = {"dst": 121, "exp": 127, "jef": 127, "xxx": 124, "tbf": 127, "u01": 127, "pec": 2047, "pes": 2047, "vp3": 3200}


def writer(fmt):
    import importlib

    return importlib.import_module("pyembroidery.%sWriter" % NAMES[fmt])


def reader(fmt):
    import importlib

    return importlib.import_module("pyembroidery.%sReader" % NAMES[fmt])


def via_file(fmt, pattern, sett=None, rset=None):
    """write(name) then read(name), through a real file in a scratch folder"""
    import os
    import tempfile
    from pyembroidery import EmbPattern

    with tempfile.TemporaryDirectory(prefix="pyvc-file-") as d:
        name = os.path.join(d, "t." + fmt)
        pattern.write(name, **(sett or {}))
        with open(name, "rb") as f:
            data = f.read()
        out = EmbPattern()
        out.read(name, **(rset or {}))
    return data, out


def text(r, nul=False):
    """a nasty text"""
    al = "aZ09 _-:;,.\"'\\/|#$@*<>&%\t\n\r\u00e9\u00df\u4e2d\u65e5\U0001f9f5\x1a\x7f\x01" + ("\0" if nul else "")
    k = r.random()
    if k < 0.1:
        return r.choice(("", " ", "TC:", "a\r", "\n", "\x1a", "Unknown", "unnamed", "None", "ST:  9999\r", "a,b", 'say "hi"', "#ff0000", "end\x00" if nul else "end"))
    if k < 0.4:
        return "".join(r.choice(al) for _ in range(r.randint(1, 12)))
    if k < 0.6:
        n = r.choice((7, 8, 9, 15, 16, 17, 20, 40, 64, 80, 126, 127, 128, 254, 255, 256, 257, 300, 520, 1000))
        return r.choice("aZ\u00e9\u4e2d\U0001f9f5") * n
    if k < 0.75:
        n = r.choice((8, 16, 63, 100, 127, 128, 255, 256, 400))
        return "".join(r.choice(al) for _ in range(n))
    if k < 0.79:
        return r.choice("ab\u00e9\u4e2d") * r.choice((5000, 30000, 32768, 40000, 70000))
    if k < 0.9:
        return "".join(r.choice(al[:14]) for _ in range(r.randint(1, 60)))
    return "plain"


def thread(t):
    from pyembroidery import EmbThread

    if isinstance(t, int):
        return EmbThread(t)
    e = EmbThread()
    e.color = t[0]
    for k, v in t[1].items():
        setattr(e, k, v)
    return e


def build(case):
    from pyembroidery import EmbPattern

    p = EmbPattern()
    p.stitches = [list(s) for s in case["s"]]
    p.threadlist = [thread(t) for t in case.get("t", [])]
    p.extras.update(case.get("m", {}))
    return p


def settings(case):
    return dict(case.get("set", {}))


class Shim(object):
    """A writer module that also records the prepared design it is given."""

    def __init__(self, mod):
        self.__dict__["_m"] = mod
        self.__dict__["prepared"] = None

    def __getattr__(self, n):
        return getattr(self._m, n)

    def write(self, pattern, f, settings=None):
        from pyembroidery import EmbPattern

        q = EmbPattern()
        q.stitches = [list(s) for s in pattern.stitches]
        q.threadlist = list(pattern.threadlist)
        q.extras.update(pattern.extras)
        self.__dict__["prepared"] = q
        return self._m.write(pattern, f, settings)


def write(fmt, pattern, sett=None):
    """-> (bytes or str, prepared design)"""
    from pyembroidery import EmbPattern

    m = writer(fmt)
    s = Shim(m)
    f = io.StringIO(newline="") if getattr(m, "WRITE_FILE_IN_TEXT_MODE", False) else io.BytesIO()
    EmbPattern.write_embroidery(s, pattern, f, sett)
    return f.getvalue(), s.prepared


def prepared(fmt, pattern, sett=None):
    """the design as the library prepares it for this format"""
    import types
    from pyembroidery import EmbPattern

    s = Shim(writer(fmt))
    s.__dict__["write"] = types.MethodType(lambda self, p, f, st=None: self.__dict__.__setitem__("prepared", p), s)
    EmbPattern.write_embroidery(s, pattern, io.BytesIO(), sett)
    return s.prepared


def read(fmt, data, sett=None):
    from pyembroidery import EmbPattern

    m = reader(fmt)
    if isinstance(data, bytes) and getattr(m, "READ_FILE_IN_TEXT_MODE", False):
        data = data.decode("utf8")
    f = io.StringIO(data, newline="") if isinstance(data, str) else io.BytesIO(data)
    out = EmbPattern()
    m.read(f, out, sett if sett is not None else {})
    return out


# ---------------------------------------------------------------- generators
def grid(v):
    """coordinates on a 1/1024 grid: sums and differences are exact"""
    return round(v * 1024) / 1024.0


class Gen(object):
    def __init__(self, rng, ints=()):
        self.rng = rng
        self.ints = [v for v in ints if isinstance(v, int)]

    def delta(self, lim):
        r = self.rng
        k = r.random()
        if k < 0.25:
            return r.randint(-5, 5)
        if k < 0.45:
            return r.randint(-int(lim), int(lim))
        if k < 0.65:
            return r.choice((-1, 1)) * (int(lim) + r.choice((-3, -2, -1, 0, 0, 0, 1, 2)))
        if k < 0.72 and self.ints:
            v = r.choice(self.ints) + r.choice((-1, 0, 1))
            if abs(v) <= 40 * lim:
                return r.choice((-1, 1)) * v
        if k < 0.80:
            return r.choice((-1, 1)) * (int(lim) * r.randint(2, 4) + r.randint(-2, 2))
        if k < 0.9:
            return r.choice((-1, 1)) * r.choice((62, 63, 64, 65, 120, 121, 122, 123, 124, 125, 126, 127, 128, 255, 256))
        if k < 0.95:
            return 0
        return r.randint(-12 * int(lim), 12 * int(lim))

    def coords(self, lim, frac):
        r = self.rng
        v = self.delta(lim)
        if frac and r.random() < 0.6:
            v = v + r.choice((0.5, -0.5, 0.25, 0.75, 0.125, grid(r.random())))
        return v

    def threads(self, n=None, text=False):
        r = self.rng
        if n is None:
            n = r.randint(0, 6)
        out = []
        for _ in range(n):
            c = r.choice((0, 0xFFFFFF, r.randrange(1 << 24), r.randrange(1 << 24), 0xFF0000, 0x0000FF))
            if out and r.random() < 0.2:
                c = out[-1] if isinstance(out[-1], int) else out[-1][0]
            out.append(c)
        return out

    def steps(self, n, lim, cmds, weights=None, frac=False, relative=True, words=False):
        r = self.rng
        x = y = 0
        if r.random() < 0.5:
            x, y = r.randint(-300, 300), r.randint(-300, 300)
        out = []
        for _ in range(n):
            c = r.choices(cmds, weights)[0] if weights else r.choice(cmds)
            if c in (STITCH, JUMP, SEW_TO, NEEDLE_AT, SEQUIN_EJECT, FRAME_EJECT):
                k = r.random()
                if k < 0.08:
                    pass
                elif k < 0.55:
                    x, y = x + self.coords(lim, frac), y + self.coords(lim, frac)
                elif k < 0.7:
                    x = x + self.coords(lim, frac)
                elif k < 0.85:
                    y = y + self.coords(lim, frac)
                else:
                    x, y = x + r.randint(-30, 30), y + r.randint(-30, 30)
            if abs(x) > 25000:
                x = x % 977
            if abs(y) > 25000:
                y = y % 977
            out.append([x, y, c])
        return out

    def basic(self, fmt, n=None, frac=True, speeds=False, stops=True, meta=True, needle=False, trailing=True):
        """a design of stitches, jumps, trims and colour changes"""
        r = self.rng
        lim = LIMIT.get(fmt, 127)
        if n is None:
            n = r.choice((0, 1, 2, 3, 5, 8, 13, 30, 60, 120))
        cmds = [STITCH, JUMP, TRIM, COLOR_CHANGE, STOP, END, COLOR_BREAK, SEQUENCE_BREAK, STITCH_BREAK, SEW_TO, NEEDLE_AT, SLOW, FAST, SEQUIN_EJECT, FRAME_EJECT]
        w = [r.choice((10, 20, 40)), r.choice((1, 5, 15)), r.choice((0, 2, 5)), r.choice((0, 1, 2)), r.choice((0, 0, 1)), r.choice((0, 0, 0.2)), r.choice((0, 1)), r.choice((0, 1)), r.choice((0, 1)), r.choice((0, 2)), r.choice((0, 2)), r.choice((0, 1)), r.choice((0, 1)), r.choice((0, 0, 2)), r.choice((0, 0, 1))]
        if not stops:
            w[4] = w[14] = 0
        s = self.steps(n, lim, cmds, w, frac and r.random() < 0.6)
        st = {}
        if r.random() < 0.25:
            st["tie_on"] = True
        if r.random() < 0.25:
            st["tie_off"] = True
        if r.random() < 0.1:
            st["explicit_trim"] = r.random() < 0.5
        if r.random() < 0.1:
            st["long_stitch_contingency"] = r.choice((LONG_JUMP, LONG_SEW))
        if r.random() < 0.1:
            st["translate"] = [r.randint(-50, 50), r.randint(-50, 50)]
        if r.random() < 0.1:
            st["scale"] = r.choice((2, 0.5, 1.3, 0.77))
        if r.random() < 0.1:
            st["rotate"] = r.choice((90, 33, 180, 45))
        return {"s": s, "t": self.threads(), "set": st}

    def lowlevel(self, fmt, n, cmds=(STITCH, JUMP), w=None, frac=0.0):
        """an already prepared design (written with encode off): every move
        within the format's limit, other commands at the needle position"""
        r = self.rng
        lim = min(LIMIT[fmt], 2047)
        out = []
        x = y = 0
        for _ in range(n):
            c = r.choices(cmds, w)[0] if w else r.choice(cmds)
            if c in (STITCH, JUMP):
                f = frac and r.random() < frac
                m = lim - 1 if (frac) else lim
                k = r.random()
                if k < 0.3:
                    dx, dy = r.randint(-m, m), r.randint(-m, m)
                elif k < 0.5:
                    dx, dy = r.choice((-m, m, 0, 1, -1, m - 1, 1 - m)), r.choice((-m, m, 0, 1, -1, m - 1, 1 - m))
                elif k < 0.6 and self.ints:
                    dx = r.choice(self.ints)
                    dy = r.choice(self.ints)
                    dx, dy = dx * r.choice((-1, 1)), dy * r.choice((-1, 1))
                    if abs(dx) > m or abs(dy) > m:
                        dx, dy = 1, -1
                else:
                    dx, dy = r.randint(-20, 20), r.randint(-20, 20)
                if f:
                    dx += grid(r.choice((0.5, -0.5, 0.3, -0.3, 0.49, r.random() - 0.5)))
                    dy += grid(r.choice((0.5, -0.5, 0.3, -0.3, 0.49, r.random() - 0.5)))
                    dx = max(-m, min(m, dx))
                    dy = max(-m, min(m, dy))
                if abs(x + dx) > 29000:
                    dx = -dx
                if abs(y + dy) > 29000:
                    dy = -dy
                x += dx
                y += dy
            out.append([x, y, c])
        out.append([x, y, END])
        return out


# ---------------------------------------------------------------- observation
def events(pattern, breaks=(COLOR_CHANGE, STOP), merge=True, extra=()):
    """penetrations ("S", x, y, x before, y before) and colour breaks, in order"""
    out = []
    px = py = 0
    for s in pattern.stitches:
        c = s[2] & 0xFF
        if c == STITCH:
            out.append(("S", s[0], s[1], px, py))
        elif c in breaks:
            out.append(("C",) if merge else ("C", c))
        elif c in extra:
            out.append(("X", c))
        px, py = s[0], s[1]
    return out


def compare(exp, got, tol, repeats=False, optional=()):
    """exp/got: event lists.  Returns None or a description of the difference.
    repeats: additional penetrations at the needle's current position are let
    pass.  optional: indices of exp that may be missing."""
    def close(states):
        out = set(states)
        work = list(states)
        while work:
            j = work.pop()
            if j in optional and j + 1 not in out:
                out.add(j + 1)
                work.append(j + 1)
        return out

    if not repeats and not optional:
        return _compare(exp, got, tol)
    states = close({0})
    for i, g in enumerate(got):
        new = set()
        for j in states:
            e = exp[j] if j < len(exp) else None
            if g[0] == "S":
                if e is not None and e[0] == "S" and abs(e[1] - g[1]) <= tol and abs(e[2] - g[2]) <= tol:
                    new.add(j + 1)
                if repeats and g[1] == g[3] and g[2] == g[4]:
                    new.add(j)
            elif e == g:
                new.add(j + 1)
        if not new:
            j = max(states)
            return "entry %d of the file is %r, expected %r" % (i, g, exp[j] if j < len(exp) else "nothing more")
        states = close(new)
    if len(exp) not in states:
        j = max(states)
        return "the file lacks entry %d of the design: %r" % (j, exp[j])
    return None


def _compare(exp, got, tol):
    for i, g in enumerate(got):
        e = exp[i] if i < len(exp) else None
        if e is None or e[0] != g[0]:
            return "entry %d of the file is %r, expected %r" % (i, g, e or "nothing more")
        if g[0] == "S":
            if abs(e[1] - g[1]) > tol or abs(e[2] - g[2]) > tol:
                return "penetration at entry %d of the file is at (%s, %s), expected (%s, %s)" % (i, g[1], g[2], e[1], e[2])
        elif e != g:
            return "entry %d of the file is %r, expected %r" % (i, g, e)
    if len(exp) != len(got):
        return "the file lacks entry %d of the design: %r" % (len(got), exp[len(got)])
    return None
