"""C13: reading any binary file terminates."""
import io

from . import gen as G

ASSUMPTIONS = [
    "a file is a finite byte string: read(n) returns the next min(n, rest) bytes and advances by as many; seek/tell as for a regular file",
    "string methods, dict/list operations and utf8 decoding end; counts read from the file bound the for loops",
    "methods of EmbPattern called by a reader end: straight-line code (C14) or the passes of C15",
]
RULE = "every binary reader on empty, truncated, mutated, repeated and random byte strings, each under a time limit; non-trivial = distinct bytes"
BUDGET = 45
TASKS = {}
KNOWN = []
TEXT = {"Csv", "Json", "Gcode", "Edr", "Col", "Inf"}


def readers():
    import os

    from pyvc.concrete import REPO

    return sorted(f[:-9] for f in os.listdir(os.path.join(REPO, "pyembroidery")) if f.endswith("Reader.py") and f[:-9] not in ("Csv", "Json", "Gcode"))


def data(case):
    if "hex" in case:
        b = bytes.fromhex(case["hex"])
    else:
        b = bytes.fromhex(case["unit"]) * case["times"]
    return b


def budget(b):
    """a finishing reader does at most this many calls: size and the counts a
    32 bit field of the file may hold are read at most once per byte"""
    return 200000 + 400 * len(b)


class Stream(io.BytesIO):
    """counts reads past the end: a reader that goes on for ever must go on reading"""
    empty = 0
    ops = 0
    cap = 0

    def read(self, n=-1):
        self.ops += 1
        d = io.BytesIO.read(self, n)
        if len(d) == 0 and n != 0:
            self.empty += 1
            if self.empty > self.cap:
                raise Endless("%d reads beyond the end of a file of %d bytes" % (self.empty, len(self.getvalue())))
        return d


class Endless(BaseException):
    pass


def o_read(case):
    from pyvc.concrete import Violation, CaseTimeout
    import importlib
    from pyembroidery import EmbPattern

    m = importlib.import_module("pyembroidery.%sReader" % case["r"])
    b = data(case)
    f = Stream(b)
    f.cap = 70000 + 50 * len(b)
    p = EmbPattern()
    try:
        m.read(f, p, dict(case.get("set", {})))
    except Endless as e:
        raise Violation("%sReader: %s" % (case["r"], e))
    except (CaseTimeout, Violation):
        raise
    except Exception:
        return
    if not isinstance(p.stitches, list):
        raise Violation("no pattern returned")


def samples(r, g):
    out = {}
    for f in ("dst", "exp", "jef", "xxx", "tbf", "u01", "pec", "pes", "vp3", "pmv", "edr", "col", "inf"):
        out[G.NAMES[f]] = []
        for n in (1, 6, 25):
            c = g.basic(f, n=n)
            c["t"] = g.threads(4)
            try:
                d, _ = G.write(f, G.build(c), {})
                if isinstance(d, str):
                    d = d.encode("utf8")
                out[G.NAMES[f]].append(d)
            except Exception:
                pass
    return out


def concrete(run):
    from pyvc.concrete import harvest

    r = run.rng
    g = G.Gen(r, [])
    rs = readers()
    sm = samples(r, g)
    lim = 12
    for n in rs:
        for c in ({"hex": ""}, {"hex": "00"}, {"hex": "ff" * 3}):
            run.case(o_read, dict(c, r=n), "tiny", limit=lim)
        for unit in ("00", "ff", "80", "01", "7f", "fe", "8001", "000000", "ffffffff", "00000080", "20", "0a", "1a", "87", "f3"):
            for times in (40, 700, 3000):
                run.case(o_read, {"r": n, "unit": unit, "times": times}, "uniform", limit=lim)
        if not run.more():
            return
    for n, ds in sm.items():
        if n not in rs:
            continue
        d = min(ds, key=len)
        step = max(1, len(d) // 150)
        for k in range(0, len(d), step):
            run.case(o_read, {"r": n, "hex": d[:k].hex()}, "truncated", limit=lim)
    while run.more() and run.evals < 200000:
        n = r.choice(rs)
        k = r.random()
        if k < 0.55:
            own = [d for d in sm.get(n, [])] or [d for v in sm.values() for d in v]
            d = bytearray(r.choice(own))
            for _ in range(r.choice((1, 2, 4, 16))):
                if d:
                    j = r.randrange(len(d)) if r.random() < 0.5 else r.randrange(min(len(d), 600))
                    d[j] = r.choice((0, 255, 128, 127, 1, r.randrange(256)))
            if r.random() < 0.6:
                d = d[: r.randrange(len(d) + 1)]
            if r.random() < 0.2:
                d += bytes(r.randrange(256) for _ in range(r.randrange(40)))
        elif k < 0.8:
            d = bytes(r.randrange(256) for _ in range(r.choice((1, 5, 50, 300, 1500))))
        else:
            al = [r.randrange(256) for _ in range(r.randint(1, 4))] + [0, 128, 255]
            d = bytes(r.choice(al) for _ in range(r.choice((50, 600, 1500))))
        run.case(o_read, {"r": n, "hex": bytes(d).hex()}, "random:" + n, limit=lim)


# ---------------------------------------------------------------- termination
# For every reader the whole `read` runs on a file about which nothing is known
# (any size, any bytes).  Every loop is cut: its locals, the heap it changes
# and the file position are replaced by arbitrary values, one arbitrary
# iteration of the real body runs, and for a `while` loop the back edge carries
# the obligation that one fixed measure, non-negative at the head, has gone
# down.  A `for` loop runs over a range or a sequence: it ends when its body
# does (the length is a count read from the file, or that of the data).
def _term(c, f, tag, extra=None):
    import z3
    from pyvc.runtime import LoopSpec, VList
    from pyvc.sym import num, SymNum, Opaque

    def own(fn):
        """an error of the specification itself is no exception of the reader"""
        import functools
        from pyvc.core import Unsupported

        @functools.wraps(fn)
        def g(*a):
            try:
                return fn(*a)
            except Exception as e:
                import traceback
                raise Unsupported("specification: " + traceback.format_exc()[-400:])
        return g

    def was(run):
        return {p: run.getloc(p, run.entry) for p in run.locs if p[-1] not in (("len",), ("vague",))}

    def not_below(spec, name, kind, v):
        w = spec.was.get(name)
        if kind == "int" and isinstance(w, (int, SymNum)) and num(w).is_int():
            return [(("not-below-entry", str(name)), num(v) >= num(w))]
        return []

    class Any(LoopSpec):
        infer = f is None
        rich = False
        tracked = False

        def candidates(self, run, name, kind, v):
            return not_below(self, name, kind, v)

        @own
        def on_entry(self, run):
            self.was = was(run)
            self.at = f and f.pos
            self.mono = ("mono", run.key)

        @own
        def on_head(self, run):
            c.x.cover("loop")
            if f is not None:
                f.pos = c.int("pos", lo=0)
                if self.mono not in c.x.houdini:
                    c.assume(num(f.pos) >= num(self.at))

        @own
        def on_back(self, run, env):
            c.x.cover("for")
            if f is not None and self.mono not in c.x.houdini and c._check(num(f.pos) < num(self.at)) != z3.unsat:
                c.x.houdini[self.mono] = set()
                c.x.dirty = True

    class Term(LoopSpec):
        rich = False
        tracked = False

        @own
        def on_entry(self, run):
            self.was = was(run)

        def candidates(self, run, name, kind, v):
            return not_below(self, name, kind, v)

        def measures(self, run, env):
            out = {}
            if f is not None:
                out[("file",)] = num(f.size) - num(f.pos)
            ints = [n for n in run.names if isinstance(env.get(n), (int, SymNum)) and not isinstance(env.get(n), bool) and num(env[n]).is_int()]
            bounds = {}
            for m, v in env.items():
                if m in run.names:
                    continue
                if isinstance(v, (int, SymNum)) and not isinstance(v, bool) and num(v).is_int():
                    bounds[m] = num(v)
                elif isinstance(v, VList):
                    bounds["len " + m] = num(v.vc_total())
                elif isinstance(v, Opaque):
                    pass
                elif hasattr(v, "vc_len"):
                    bounds["len " + m] = num(v.vc_len())
                elif isinstance(v, (list, bytes, bytearray)) and getattr(v, "pre", None) is None:
                    bounds["len " + m] = z3.IntVal(len(v))
            for n in ints:
                out[("down", n)] = num(env[n])
                for m, b in bounds.items():
                    out[("up", n, m)] = b - num(env[n])
            if extra:
                out.update(extra(env))
            return out

        @own
        def on_head(self, run):
            c.x.cover("loop")
            if f is not None:
                f.pos = c.int("pos", lo=0)
            self.head = self.measures(run, run.cur)

        @own
        def on_back(self, run, env):
            c.x.cover("while")
            dropped = c.x.houdini.setdefault(("rank", run.key), set())
            now = self.measures(run, env)
            left = []
            for k, h in self.head.items():
                if k in dropped:
                    continue
                if k in now and c._check(z3.Not(z3.And(h >= 0, now[k] < h))) == z3.unsat:
                    left.append(k)
                else:
                    dropped.add(k)
                    c.x.dirty = True
            name = "%s/%s/decreases" % (tag, run.site["short"])
            if left:
                c.prove(name, z3.And(self.head[left[0]] >= 0, now[left[0]] < self.head[left[0]]))
            else:
                c.prove(name, z3.And(list(self.head.values())[0] >= 0, now[list(self.head)[0]] < self.head[list(self.head)[0]]) if self.head else False)

    def policy(site, it, loc):
        if site["kind"] == "while":
            return Term()
        if hasattr(it, "vc_len") or getattr(it, "__vc_seq__", False) or getattr(it, "pre", None) is not None:
            return Any()
        return None

    return policy


SIZES = {"8": 1, "16": 2, "24": 3, "32": 4}
# callees that get a task of their own, and are left out of their callers
OWN = {"Vp3Reader": ["vp3_read_colorblock", "vp3_read_thread"]}


def t_reader(c, name, entry=None):
    """callees by contract: read_int_* (proved in C02: the next n bytes give a
    value of that width, fewer than n left gives None and the end of the file),
    signed8/16/24 (straight-line; an integer, or TypeError for None), expand
    (tasks expand:*), get_thread_set (a finite list); every operation on the
    pattern ends (tasks pattern:*).  A callee in OWN ends anywhere in the file,
    returning anything or raising."""
    import dis
    import re
    import sys
    import z3
    from .common import load
    from pyvc.runtime import InStream, OpaqueBytes
    from pyvc.sym import Opaque, num, wrap

    m = load(name + "Reader")
    f = InStream()
    if entry:
        f.pos = c.int("pos", lo=0)
    c.policy = _term(c, f, name)
    c.loose = True

    def field(bits):
        n = SIZES[bits]

        def get(s):
            if s is not f:
                raise TypeError("another stream")
            if c.branch(num(f.pos) + n <= num(f.size)):
                f.pos = f.pos + n
                return c.int("field", 0, 256 ** n - 1)
            f.pos = wrap(z3.If(num(f.pos) > num(f.size), num(f.pos), num(f.size)))
            return None

        return get

    def signed(v, *a):
        if v is None:
            raise TypeError("no value")
        return c.int("signed")

    def left_out(*a, **k):
        f.pos = c.int("pos", lo=0)
        if c.choose("callee raises"):
            raise ValueError("callee")
        return Opaque("result")

    stub = {"expand": lambda data, size=None: OpaqueBytes(c.int("expanded", lo=0)), "get_thread_set": lambda *a: Opaque("threads")}
    for k in ("signed8", "signed16", "signed24", "signed32"):
        stub[k] = signed
    keep = []
    own = OWN.get(name + "Reader", ())
    for mod in list(sys.modules.values()):
        mn = getattr(mod, "__name__", "")
        if mn.startswith("pyembroidery.") and mn.endswith("Reader"):
            for k, v in list(vars(mod).items()):
                r = re.match(r"read_int_(8|16|24|32)(le|be)?$", k)
                if r or k in stub:
                    keep.append((mod, k, v))
                    setattr(mod, k, field(r.group(1)) if r else stub[k])
    for k in own:
        if k != entry and callable(getattr(m, k, None)):
            keep.append((m, k, getattr(m, k)))
            setattr(m, k, left_out)
    try:
        if entry is None:
            read = getattr(m, "read", None)
            if read is not None:
                used = any(i.opname.startswith("LOAD_FAST") and i.argval == "settings" for i in dis.get_instructions(read))
                read(f, Opaque("out"), Opaque("settings") if used and c.choose("settings") else None)
        elif hasattr(m, entry):
            fn = getattr(m, entry)
            fn(*[f if a in ("f", "stream") else Opaque(a) for a in fn.__code__.co_varnames[: fn.__code__.co_argcount]])
        c.x.cover("returned")
    except Exception:
        c.x.cover("raised")
    finally:
        for mod, k, v in reversed(keep):
            setattr(mod, k, v)
    c.prove(name + "/ends", True)
    c.x.cover("done")


# The expander (HUS and VIP): a measure per loop, callees by contract.
def _compress(c):
    """EmbCompress over arbitrary data.  get_bits: 0 <= value < 2**length for
    length >= 0 (its last statement masks it; task expand:get_bits)."""
    from .common import load
    from pyvc.runtime import OpaqueBytes

    M = load("EmbCompress")
    e = M.EmbCompress()
    e.input_data = OpaqueBytes(c.int("data", lo=0))
    e.bit_position = c.int("bit_position", lo=0, inp=True)
    e.block_elements = c.int("block_elements", lo=-1, inp=True)
    c.loose = True
    c.policy = _term(c, None, "expand")

    def get_bits(start, length):
        if isinstance(length, int) and 0 <= length <= 32:
            return c.int("bits", 0, 2 ** length - 1)
        return c.int("bits", lo=0)

    e.get_bits = get_bits
    return M, e


class Codes(object):
    """Huffman by contract: lookup gives some value and a length >= 0, as the
    code lengths it was given are (obligation where it is built)"""
    __vc_ghost__ = True

    def __init__(self, lengths=None, value=0):
        self.lengths, self.value = lengths, value

    def build_table(self):
        pass

    def lookup(self, k):
        from pyvc import core

        c = core.CTX
        return c.int("value", lo=0), c.int("length", lo=0)


def _lengths(c):
    """[0] * count as an array, of which an arbitrary entry is followed"""
    import z3
    from pyvc.runtime import SymArr
    from pyvc.sym import num, wrap

    made = []

    def mk(v, n):
        a = SymArr("lengths", n, lambda x: num(x), lambda e: wrap(e), arr=z3.K(z3.IntSort(), num(v)))
        made.append(a)
        return a

    c.array_factory = mk
    return made


def t_expand(c, what):
    import z3
    from pyvc.runtime import VList
    from pyvc.sym import num, wrap

    M, e = _compress(c)
    p0, b0 = num(e.bit_position), num(e.block_elements)
    N = "expand/" + what
    keep = M.Huffman
    stored = []
    try:
        if what == "read_variable_length":
            r = e.read_variable_length()
            c.prove(N + "/not-negative", num(r) >= 0)
            c.prove(N + "/reads-at-least-3-bits", num(e.bit_position) >= p0 + 3)
        elif what in ("load_character_length_huffman", "load_distance_huffman", "load_character_huffman"):
            M.Huffman = Codes
            e.read_variable_length = lambda: (setattr(e, "bit_position", wrap(num(e.bit_position) + c.int("n", lo=3).e)), c.int("len", lo=0))[1]
            from pyvc.runtime import SymArr
            from pyvc.sym import SymNum

            class Lengths(object):
                __vc_ghost__ = True

                def __init__(self, n):
                    self.n = n

                def vc_len(self):
                    return self.n

                def __setitem__(self, i, v):
                    c.x.cover("stored")
                    if c.choose("out of range"):
                        raise IndexError("list assignment index out of range")
                    c.prove(N + "/code-length-not-negative", num(v) >= 0)

            c.array_factory = lambda v, n: Lengths(n)
            c.array_min = 1
            try:
                r = getattr(e, what)(*([Codes()] if what == "load_character_huffman" else []))
                c.x.cover("built")
            except IndexError:
                c.x.cover("raised")
                return
            c.prove(N + "/never-back", num(e.bit_position) >= p0 + 5)
        elif what == "load_block":
            def adv(k):
                def g(*a):
                    e.bit_position = wrap(num(e.bit_position) + c.int("n", lo=k).e)
                    return Codes()
                return g
            e.load_character_length_huffman, e.load_character_huffman, e.load_distance_huffman = adv(5), adv(5), adv(5)
            e.load_block()
            c.prove(N + "/advances", num(e.bit_position) >= p0 + 16)
            c.prove(N + "/elements", num(e.block_elements) >= 0)
        elif what == "get_token":
            e.character_huffman = Codes()

            def block():
                e.bit_position = wrap(num(e.bit_position) + c.int("n", lo=16).e)
                e.block_elements = c.int("elements", 0, 65535)

            e.load_block = block
            e.get_token()
            p1, b1 = num(e.bit_position), num(e.block_elements)
            c.prove(N + "/progress", z3.Or(p1 >= p0 + 16, z3.And(p1 >= p0, b0 > 0, b1 == b0 - 1)))
            c.prove(N + "/elements", b1 >= -1)
        elif what == "get_position":
            e.distance_huffman = Codes()
            e.slide = lambda n: (c.prove(N + "/never-back", num(n) >= 0), None)[1]
            e.distance_huffman.lookup = lambda k: (c.int("value", 0, 16) if c.choose("small") else 0, c.int("length", lo=0))
            r = e.get_position()
            c.prove(N + "/not-negative", num(r) >= 0)
        elif what == "decompress":
            def token():
                p, b = num(e.bit_position), num(e.block_elements)
                e.bit_position, e.block_elements = c.int("bit_position", lo=0), c.int("block_elements", lo=-1)
                p1, b1 = num(e.bit_position), num(e.block_elements)
                c.assume(z3.Or(p1 >= p + 16, z3.And(p1 >= p, b > 0, b1 == b - 1)))
                return c.int("token", lo=0)

            def position():
                p = num(e.bit_position)
                e.bit_position = c.int("bit_position", lo=0)
                c.assume(num(e.bit_position) >= p)
                return c.int("position", lo=0)

            e.get_token, e.get_position = token, position
            total = num(e.input_data.n) * 8
            pol = c.policy

            def policy(site, it, loc):
                s = pol(site, it, loc)
                if site["kind"] == "while":
                    head, back = s.on_head, s.on_back

                    def on_head(run):
                        c.x.cover("loop")
                        s.at = (num(e.bit_position), num(e.block_elements))

                    def on_back(run, env):
                        c.x.cover("while")
                        (p, b), p1, b1 = s.at, num(e.bit_position), num(e.block_elements)
                        c.prove(N + "/decreases", z3.And(p < total, z3.Or(p1 > p, z3.And(p1 == p, b > 0, b1 < b))))
                    s.on_head, s.on_back = on_head, on_back
                return s

            c.policy = policy
            e.input_data_ = e.input_data
            try:
                e.decompress(e.input_data, c.int("size") if c.choose("size known") else None)
                c.x.cover("returned")
            except IndexError:
                c.x.cover("raised")
        c.x.cover("done")
    finally:
        M.Huffman = keep


def t_entry(c, arg):
    t_reader(c, *arg)


def _names():
    import os
    root = os.environ.get("PYVC_REPO", "/repo")
    return sorted(f[:-9] for f in os.listdir(os.path.join(root, "pyembroidery")) if f.endswith("Reader.py") and f[:-9] not in ("Csv", "Json"))


for _n in _names():
    TASKS["read:" + _n] = {"fn": t_reader, "arg": _n, "functions": [_n + "Reader.read"], "covers": ["done"], "limit": 600, "opts": {"budget_s": 500, "max_paths": 100000}}

for _m, _fs in OWN.items():
    for _f in _fs:
        TASKS["read:%s:%s" % (_m[:-6], _f)] = {"fn": t_entry, "arg": (_m[:-6], _f), "functions": ["%s.%s" % (_m, _f)], "covers": ["done"], "limit": 600, "opts": {"budget_s": 500, "max_paths": 100000}}

for _f, _cv in (("read_variable_length", ["done"]), ("load_character_length_huffman", ["built", "raised", "stored", "while"]), ("load_character_huffman", ["built", "raised", "stored", "while"]),
                ("load_distance_huffman", ["built", "stored"]), ("load_block", ["done"]), ("get_token", ["done"]), ("get_position", ["done"]), ("decompress", ["done", "while", "loop"])):
    TASKS["expand:" + _f] = {"fn": t_expand, "arg": _f, "functions": ["EmbCompress.EmbCompress." + _f], "covers": _cv}
