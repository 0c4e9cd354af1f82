"""Product programs for write/read round trips (C04..C07).

The real writer runs over a design of arbitrary length.  At the back edge of
its emission loop the bytes written in that iteration are given to the real
reader, which is resumed at the head of its own stitch loop; the reader must
consume exactly those bytes and come back to its loop head (or finish, which
is only allowed for the END entry).  The joint loop invariant relates the
writer's position variables, the reader's position and the previous entry of
the design; it is inferred from templates and proved at entry and at both
back edges.  Nothing names the loop variables of the code."""
try:
    import z3
except ImportError:  # the concrete oracle runs without the verifier
    z3 = None

from .common import load, eqv


class Done(BaseException):
    """the reader is back at its loop head with every byte consumed"""


class Stream(object):
    """What the reader reads: unknown header until its stitch loop is entered,
    then exactly the bytes of one writer iteration."""

    __vc_ghost__ = True

    def __init__(self, c, prod):
        self.c, self.prod = c, prod
        self.items, self.p = None, 0
        self.eof = False

    def load(self, items, eof):
        self.items, self.p, self.eof = list(items), 0, eof

    def left(self):
        return len(self.items) - self.p

    def read(self, n=None):
        from pyvc.runtime import mkbytes, OpaqueBytes
        from pyvc.core import Unsupported

        if hasattr(n, "__index__") and not isinstance(n, int):
            n = n.__index__()
        if self.items is None:
            if n is None:
                return OpaqueBytes(self.c.int("hdr", lo=0))
            if n > 64:
                return HeaderTable(self.prod)
            return mkbytes([self.c.int("hdr", 0, 255) for _ in range(n)], force=True)
        if n is None:
            n = self.left()
        if n < 0:
            raise Unsupported("read of a negative length")
        if n > self.left() and not self.eof:
            self.prod.over()
        r = self.items[self.p : self.p + n]
        self.p += len(r)
        for x in r:
            if isinstance(x, tuple):
                raise Unsupported("text inside a stitch record")
        return mkbytes(r)

    def seek(self, pos, whence=0):
        from pyvc.core import Unsupported

        if self.items is None:
            return 0
        if whence == 1 and isinstance(pos, int):
            self.p += pos
            if self.p > len(self.items) and not self.eof:
                self.prod.over()
            return 0
        if self.eof:
            return 0
        raise Unsupported("seek inside the stitch block")

    def tell(self):
        return self.c.int("rpos", lo=0)


class HeaderTable(object):
    """a long table read from the header; what an entry holds is a contract of
    the format (Product.table)"""

    __vc_ghost__ = True
    __vc_seq__ = True
    name = "header table"

    def __init__(self, prod):
        self.prod = prod

    def vc_len(self):
        return self.prod.c.int("tablelen", lo=0)

    def __iter__(self):
        from pyvc.core import Unsupported

        raise Unsupported("iteration over a header table")

    def __getitem__(self, i):
        return self.prod.table(i)


class Product(object):
    probe = None
    reach = None

    def __init__(self, c, name, write, read, commands, element, effect, entry=(0, 0), setup=None, ghosts=None, last_end=True, out_setup=None, track=True):
        self.c, self.name = c, name
        self.write, self.read = write, read
        self.commands, self.element, self.effect = commands, element, effect
        self.entry = entry
        self.setup = setup
        self.out_setup = out_setup
        self.extra = ghosts or {}
        self.last_end = last_end
        self.phase = None
        self.g = None
        self.cur = None
        x = c.x
        if not hasattr(x, "emitters"):
            x.emitters, x.readers = set(), set()
        if getattr(x, "bodies_of", None) is not x.work:
            x.bodies, x.bodies_of = {}, x.work
        self.x = x
        self.stack = []
        self.K = load("EmbConstant")

    # ---- ghosts
    def g_entry(self):
        g = {"RX": 0, "RY": 0, "PX": self.entry[0], "PY": self.entry[1], "fin": 0}
        for k, (v0, fresh) in self.extra.items():
            g[k] = v0
        return g

    def g_fresh(self):
        c = self.c
        mk = c.int if self.intmode else c.real
        g = {"RX": c.int("RX", inp=True), "RY": c.int("RY", inp=True), "PX": mk("PX", inp=True), "PY": mk("PY", inp=True), "fin": c.int("fin", 0, 1)}
        for k, (v0, fresh) in self.extra.items():
            g[k] = fresh(c)
        return g

    def over(self):
        self.c.prove("%s/reader-stays-inside-the-record" % self.name, False)
        from pyvc.core import PathEnd

        raise PathEnd()

    # ---- sequence
    def make(self, i):
        """entry i of the design: the current entry, the previous one, or an
        entry about which nothing is known"""
        from pyvc.sym import num

        c = self.c
        r = self.run
        mk = c.int if self.intmode else c.real
        if r is not None and self.inloop and r.iter_index is not None:
            e, k = z3.simplify(num(i)), num(r.iter_index)
            if e.eq(z3.simplify(k)):
                if self.elem is None:
                    self.choose(r, r.iter_index)
                return list(self.elem)
            if e.eq(z3.simplify(k - 1)) and c.branch(k >= 1):
                return [self.g["PX"], self.g["PY"], c.int("oword", 0)]
        return [mk("ox"), mk("oy"), c.int("oword", 0)]

    def wspec(self):
        from pyvc.runtime import LoopSpec

        prod = self
        c = self.c

        class W(LoopSpec):
            def __init__(self):
                self.roots = ()

            def ghosts(self, phase, run):
                return prod.g_entry() if phase == "entry" else (prod.g if phase == "head" else prod.gb)

            def on_entry(self, run):
                prod.before(run)

            def on_head(self, run):
                prod.once(run)
                prod.f.reset()
                prod.f.events = []
                prod.g = prod.g_fresh()
                prod.run = run
                prod.elem = None
                prod.inloop = True

            def pairs(self, run, vals):
                out = []
                g = prod.gnow
                n = num(prod.seq.vc_len())
                k = num(run.count)
                out.append((("fin", "never"), num(g["fin"]) == 0))
                out.append((("fin", "at-end"), (num(g["fin"]) == 1) == (k == n)))
                for a, b in (("RX", "PX"), ("RY", "PY")):
                    p, q = num(g[a]), num(g[b])
                    if p.sort() != q.sort():
                        p, q = toreal(p), toreal(q)
                    out.append((("near", a), z3.And(2 * p - 2 * q <= 1, 2 * q - 2 * p <= 1)))
                    out.append((("same", a), p == q))
                out.append((("count", "below-length"), k < n))
                from pyvc.sym import SymBool

                bs = [(str(m), v.e if isinstance(v, SymBool) else z3.BoolVal(v)) for m, v in vals.items() if isinstance(v, (bool, SymBool))]
                for i in range(len(bs)):
                    for j in range(i):
                        out.append((("nand", bs[i][0], bs[j][0]), z3.Not(z3.And(bs[i][1], bs[j][1]))))
                out += prod.more_pairs(g, vals)
                return out

            def on_elem(self, run, idx, e):
                if prod.elem is None:
                    prod.choose(run, idx)

            def pre_back(self, run, env):
                prod.consume(False)

        from pyvc.sym import num, toreal

        w = W()

        def gset(phase, run, orig=w.ghosts):
            prod.gnow = orig(phase, run)
            return prod.gnow

        w.ghosts = gset
        return w

    def more_pairs(self, g, vals):
        return []

    def on_element(self, run, idx):
        pass

    def once(self, run):
        """a loop and what follows it is verified once for all ways to reach
        it: no path condition is kept, and ways that leave the same values in
        the live variables the loop does not change are not repeated"""
        from pyvc.runtime import signature
        from pyvc.core import PathEnd

        c = self.c
        live = run.site["live"]
        seen = {}
        sig = repr([(n, signature(v, 0, seen)) for n, v in sorted(run.cur.items()) if n not in run.names and (live is None or n in live)] + [signature(run.hvals.get(n), 0, seen) for n in run.names])
        at = self.x.bodies.setdefault((run.key, sig), tuple(c.decisions))
        if at != tuple(c.decisions):
            raise PathEnd()
        keep = [num(self.seq.vc_len()) >= 1]
        if run.count is not None:
            keep += [num(run.count) >= 0, num(run.count) <= num(run.it.vc_len())]
        c.forget(keep + self.facts())

    def once_reader(self, run):
        """the same for the ways the reader gets to its loop, after one way
        through the writer's body"""
        from pyvc.runtime import signature
        from pyvc.core import PathEnd

        c = self.c
        live = run.site["live"]
        at, facts, n = self.start
        seen = {"known": n}
        sig = repr([at] + [(k, signature(v, 0, seen)) for k, v in sorted(run.cur.items()) if k not in run.names and (live is None or k in live)] + [signature(run.hvals.get(k), 0, seen) for k in run.names])
        if self.x.bodies.setdefault((run.key, sig), tuple(c.decisions)) != tuple(c.decisions):
            raise PathEnd()
        c.forget(facts)

    def facts(self):
        """preconditions, which hold wherever the code is"""
        return []

    # ---- policy
    def policy(self, site, it, loc):
        from pyvc.runtime import LoopSpec, SymSeq, SymEnum, SymRange
        from pyvc.sym import num

        prod = self
        key = (site["short"], site["kind"], site["ord"])
        if self.phase == "write":
            base = it.seq if isinstance(it, SymEnum) else it
            isrange = isinstance(it, SymRange) and it.step == 1 and isinstance(it.lo, int) and it.lo == 0 and z3.simplify(num(it.hi)).eq(z3.simplify(num(self.seq.vc_len())))
            if base is self.seq or isrange:
                if key in self.x.emitters:
                    return self.wspec()

                class Probe(LoopSpec):
                    tracked = prod.probe is None

                    def ghosts(self, phase, run):
                        return prod.probe.ghosts(phase, run) if prod.probe else {}

                    def on_entry(self, run):
                        if prod.probe:
                            prod.probe.entry(run)

                    def on_head(self, run):
                        prod.once(run)
                        self.n0 = prod.f.count
                        if prod.probe:
                            prod.probe.head(run)

                    def on_elem(self, run, idx, e):
                        if prod.probe:
                            prod.probe.elem(run, idx, e)

                    def pre_back(self, run, env):
                        if prod.probe:
                            prod.probe.back(run)

                    def on_back(self, run, env):
                        if prod.f.count != self.n0:
                            prod.x.emitters.add(run.key)
                            prod.x.dirty = True

                return Probe()
            if getattr(it, "__vc_seq__", False):

                class Header(LoopSpec):
                    def on_head(self, run):
                        if not prod.inloop:
                            prod.once(run)

                return Header()
            return None
        if self.phase == "read":
            if key in self.x.readers:
                return self.rspec()
            if site["kind"] == "while" and prod.stream.items is None:

                class H(LoopSpec):
                    frame = False

                    def on_head(self, run):
                        prod.stack.append(run.key)

                return H()
            return None
        return None

    def unread(self, run, env):
        return self.stream.left()

    def at_reader_loop(self, o):
        for a, b in (("_previousX", 0), ("_previousY", 0)):
            self.c.prove("%s/reader-starts-at-origin" % self.name, eqv(getattr(o, a), b))
        self.c.prove("%s/reader-starts-empty" % self.name, not self.events)

    def before(self, run):
        """at the writer's emission loop"""

    def choose(self, run, idx):
        c, K = self.c, self.K
        n = self.seq.vc_len()
        from pyvc.sym import num

        cmds = list(self.commands)
        if self.last_end:
            if c.branch(num(idx) == num(n) - 1):
                if self.last_end is True:
                    cmds = ["END"]
            elif "END" in cmds:
                cmds.remove("END")
        for k in cmds[:-1]:
            if c.choose("is_" + k):
                self.cmd = k
                break
        else:
            self.cmd = cmds[-1]
        x, y, w = self.element(self, self.cmd, self.g)
        self.elem = (x, y, w)
        self.c.x.cover("cmd-" + self.cmd)

    # ---- reader
    def rspec(self):
        from pyvc.runtime import LoopSpec
        from pyvc.core import PathEnd

        prod = self
        c = self.c

        class R(LoopSpec):
            unroll = True
            frame = False

            def ghosts(self, phase, run):
                if phase == "entry":
                    return prod.g_entry()
                return prod.g if phase == "head" else prod.gb

            def on_entry(self, run):
                o = prod.out
                prod.at_reader_loop(o)

            def on_head(self, run):
                prod.once_reader(run)
                prod.out._previousX, prod.out._previousY = prod.g["RX"], prod.g["RY"]
                prod.out_before = {k: v for k, v in prod.out.__dict__.items() if not k.startswith("_previous")}
                prod.stream.load(prod.items, prod.eof)
                self.first = True

            def on_tick(self, run, env):
                s = prod.stream
                if s.eof or s.items is None or prod.unread(run, env) > 0:
                    return
                if run._learn_kinds("back", env):
                    c.x.dirty = True
                    raise PathEnd()
                prod.after(False)
                run._check("back", run._values(env), prod.gb)
                raise Done()

        return R()

    def consume(self, eof):
        """run the reader on the bytes of this iteration"""
        c = self.c
        from pyvc.core import PathEnd

        self.items, self.eof = self.f.in_order(), eof
        self.start = (tuple(c.decisions), list(c.solver.assertions()), c.n)
        self.stream = self.new_stream()
        self.events = []
        self.out = self.new_out()
        self.phase = "read"
        try:
            if c.branch(self._fin(self.g)):
                # the reader finished in an earlier iteration
                self.gb = dict(self.g, PX=self.elem[0] if self.elem else self.g["PX"], PY=self.elem[1] if self.elem else self.g["PY"])
                return
            try:
                self.read(self.stream, self.out)
            except Done:
                return
            if self.stream.items is None:
                # the stitch loop is not known yet (first exploration)
                if not c.x.dirty:
                    c.prove("%s/reader-has-a-stitch-loop" % self.name, False)
                raise PathEnd()
            self.after(True)
        finally:
            self.phase = "write"

    def _fin(self, g):
        from pyvc.sym import num

        return num(g["fin"]) == 1

    def new_stream(self):
        return Stream(self.c, self)

    def new_out(self):
        from pyvc.runtime import LogList

        prod = self
        P = load("EmbPattern")
        o = P.EmbPattern()
        o.__dict__["__vc_ghost__"] = True

        def app(v):
            prod.events.append(list(v))
            if prod.stream.items is None and prod.stack:
                prod.x.readers.add(prod.stack[-1])
                prod.x.dirty = True
                from pyvc.core import PathEnd

                raise PathEnd()

        o.stitches = LogList("out", on_append=app)
        o.interpolate_trims = lambda *a, **k: None  # contract: C15
        o.interpolate_duplicate_color_as_stop = lambda *a, **k: None  # contract: C15
        if self.out_setup is not None:
            self.out_setup(self, o)
        return o

    def after(self, finished):
        """the reader has consumed the record: check what it did"""
        c = self.c
        o = self.out
        now = {k: v for k, v in o.__dict__.items() if not k.startswith("_previous")}
        if set(now) != set(self.out_before) or any(now[k] is not self.out_before[k] for k in now):
            from pyvc.core import Unsupported

            raise Unsupported("the reader changes other parts of the pattern in its stitch loop")
        g = dict(self.g)
        g["RX"], g["RY"] = o._previousX, o._previousY
        if self.elem is not None:
            g["PX"], g["PY"] = self.elem[0], self.elem[1]
        g["fin"] = 1 if finished else 0
        self.gb = g
        self.step_ghosts(g)
        self.x.cover("consumed")
        self.effect(self, finished, g)

    def step_ghosts(self, g):
        pass

    # ---- run
    def go(self, pattern_setup=None, intmode=True):
        from pyvc.runtime import OutStream, SymSeq

        c = self.c
        self.intmode = intmode
        self.run, self.elem, self.cmd = None, None, None
        self.inloop = False
        prod = self

        class Out(OutStream):
            count = 0

            def write(self, b):
                Out.count += 1
                self.count = Out.count
                OutStream.write(self, b)

            def seek(self, pos, whence=0):
                if len(self.events) % 2 == 0:
                    self.end = self.tell()
                else:
                    from pyvc.core import Unsupported
                    from pyvc.sym import num

                    if not (whence == 2 and isinstance(pos, int) and pos == 0 or whence == 0 and z3.simplify(num(pos) - num(self.end)).eq(z3.IntVal(0))):
                        raise Unsupported("seek to an unknown place in the output")
                OutStream.seek(self, pos, whence)

            def tell(self):
                if self.events:
                    if len(self.events) % 2 == 0:
                        n = len(self.chunks) - self.events[-1][3]
                        return self.end + n
                    return c.int("tell", lo=0)
                return OutStream.tell(self)

            def in_order(self):
                """bytes at the end of the file, without those patched in earlier"""
                out, p, skip = [], 0, False
                for _, _, _, k in self.events:
                    if not skip:
                        out += self.chunks[p:k]
                    p, skip = k, not skip
                if not skip:
                    out += self.chunks[p:]
                return out

        self.f = Out()
        n = c.int("len_stitches", lo=1)

        def get(i):
            from pyvc.core import Unsupported

            if isinstance(i, slice):
                raise Unsupported("slice of the design")
            return prod.make(i)

        self.seq = SymSeq("stitches", self.make, getitem=get, length=n)
        P = load("EmbPattern")
        p = P.EmbPattern()
        p.stitches = self.seq
        # contracts of the measuring functions: C14
        mk = c.int if intmode else c.real

        def bounds():
            b = (mk("bx0"), mk("by0"), mk("bx1"), mk("by1"))
            if self.reach is not None:
                for v in b:
                    c.assume(v <= self.reach)
                    c.assume(v >= -self.reach)
            return b

        p.bounds = p.extents = p.extends = bounds
        p.fix_color_count = lambda: None
        for nm in ("count_stitches", "count_color_changes", "count_needle_sets", "count_threads", "count_stitch_commands"):
            setattr(p, nm, lambda *a: c.int("count", lo=0))
        if pattern_setup is not None:
            pattern_setup(p)
        self.pattern = p
        c.policy = self.policy
        self.phase = "write"
        self.write(p, self.f)
        if not self.inloop:
            if not c.x.dirty:
                c.prove("%s/writer-has-an-emission-loop" % self.name, False)
            return
        c.x.cover("written")
        # after the loop: what is left is the end of the file
        r = self.run
        from pyvc.sym import num

        if self.elem is None:
            # the loop ran out of entries; the reader may have finished before
            if c.branch(num(self.g["fin"]) == 1):
                c.x.cover("finished")
                return
        self.consume(True)
        c.x.cover("finished")


# ---------------------------------------------------------------- elements
def element(limit, real_limit=None, jump=None, high=("COLOR_CHANGE", "NEEDLE_SET"), needle=None):
    def make(prod, cmd, g):
        c, K = prod.c, prod.K
        code = getattr(K, cmd)
        mk = c.int if prod.intmode else c.real
        m = limit if prod.intmode else (real_limit if real_limit is not None else limit - 1)
        if cmd == "JUMP" and jump is not None:
            m = jump if prod.intmode else jump - 1
        if cmd in ("STITCH", "JUMP", "SEQUIN_EJECT"):
            x, y = mk("x", inp=True), mk("y", inp=True)
            for v, p in ((x, g["PX"]), (y, g["PY"])):
                d = v - p
                c.assume((d <= m))
                c.assume((d >= -m))
        else:
            x, y = g["PX"], g["PY"]
        w = code
        if cmd in high:
            if needle is not None and cmd == "NEEDLE_SET":
                prod.needle = c.int("needle", needle[0], needle[1], inp=True)
                w = code + ((prod.needle + 1) * 65536)
                w.tz = 0
            else:
                w = code + c.int("high", 0, 2 ** 24 - 1) * 256
        return x, y, w

    return make


def low(ev):
    w = ev[2]
    return w & 0xFF


def standard(prod, finished, g, count=("COLOR_CHANGE", "STOP"), zero=False, speeds=False, needle=False):
    """the effect every format must have, by command"""
    from pyvc.sym import num, toreal

    c, K, cmd = prod.c, prod.K, prod.cmd if prod.elem is not None else "nothing"
    ev = prod.events
    P = "%s/%s" % (prod.name, cmd)
    ST = K.STITCH
    ops = []
    for e in ev:
        w = e[2]
        k = w if isinstance(w, int) else None
        if k is None:
            k = c.unique_value(z3.simplify(num(w) % 256))
        ops.append(None if k is None else k & 0xFF)
    c.prove(P + "/commands-recognised", None not in ops)

    def near(a, b, name):
        a, b = num(a), num(b)
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        c.prove(P + name, z3.And(2 * a - 2 * b <= 1, 2 * b - 2 * a <= 1))

    if finished:
        ends = [e for e, o in zip(ev, ops) if o == K.END]
        c.prove(P + "/only-the-end-ends", cmd in ("END", "nothing"))
        c.prove(P + "/one-end", len(ends) == 1 and ops[-1] == K.END)
        c.prove(P + "/nothing-else-at-the-end", len(ev) == 1)
        c.prove(P + "/end-position-x", eqv(ev[-1][0], prod.g["RX"]))
        c.prove(P + "/end-position-y", eqv(ev[-1][1], prod.g["RY"]))
        return
    c.prove(P + "/no-end", K.END not in ops)
    st = [e for e, o in zip(ev, ops) if o == ST]
    X, Y = g["RX"], g["RY"]
    if zero:
        # stitches at the current position may precede
        while len(st) > (1 if cmd == "STITCH" else 0):
            e = st.pop(0)
            c.prove(P + "/repeated-penetration-in-place", z3.And(eqv(e[0], prod.g["RX"]), eqv(e[1], prod.g["RY"])))
    if cmd == "STITCH":
        c.prove(P + "/one-penetration", len(st) == 1)
        if st:
            c.prove(P + "/penetration-is-last", ev[-1] is st[-1])
            near(st[-1][0], prod.elem[0], "/penetration-x-within-half-a-unit")
            near(st[-1][1], prod.elem[1], "/penetration-y-within-half-a-unit")
            c.prove(P + "/position-x", eqv(st[-1][0], X))
            c.prove(P + "/position-y", eqv(st[-1][1], Y))
        c.prove(P + "/no-other-entry", len([o for o in ops if o != ST and not (speeds and o in (K.FAST, K.SLOW))]) == 0)
    else:
        c.prove(P + "/no-penetration", len(st) == 0)
        near(X, prod.elem[0], "/position-x-within-half-a-unit")
        near(Y, prod.elem[1], "/position-y-within-half-a-unit")
    chg = [o for o in ops if o in (K.COLOR_CHANGE, K.STOP, K.NEEDLE_SET)]
    c.prove(P + "/changes", len(chg) == (1 if cmd in count else 0))


FORMATS = {}


def dst_record_contract(c):
    """callers see encode_record/decode_dx/decode_dy through their contract
    (proved by the tasks `record:*`): in range, the three bytes decode to
    exactly (dx, dy) and the last byte carries the record class"""
    W, R, K = load("DstWriter"), load("DstReader"), load("EmbConstant")
    from pyvc.runtime import SymBytes
    from pyvc.sym import num, SymNum

    if not hasattr(W, "__vc_real__"):
        W.__vc_real__ = W.encode_record
        R.__vc_real__ = (R.decode_dx, R.decode_dy)
    cls = {K.STITCH: 0x03, K.JUMP: 0x83, K.SEQUIN_EJECT: 0x83}
    table = {}

    def enc(x, y, flags):
        if isinstance(flags, SymNum):
            v = c.unique_value(flags.e)
            flags = flags if v is None else v
        if not isinstance(flags, int) or flags not in cls or not (isinstance(x, SymNum) or isinstance(y, SymNum)):
            return W.__vc_real__(x, y, flags)
        ok = z3.And(num(x) >= -121, num(x) <= 121, num(y) >= -121, num(y) <= 121)
        if not c.branch(ok):
            raise ValueError("The dx or dy value given to the writer exceeds maximum allowed.")
        b = [c.int("rec%d" % i, 0, 255) for i in range(3)]
        c.assume((b[2] & 0b11000011) == cls[flags])
        c.keep.append(b)
        table[tuple(v.e.get_id() for v in b)] = (x, y)
        return SymBytes(b)

    def dec(k):
        def f(b0, b1, b2):
            v = table.get(tuple(b.e.get_id() if isinstance(b, SymNum) else None for b in (b0, b1, b2)))
            return R.__vc_real__[k](b0, b1, b2) if v is None else v[k]

        return f

    W.encode_record, R.decode_dx, R.decode_dy = enc, dec(0), dec(1)


def t_record(c, name):
    """the contract assumed above"""
    W, R, K = load("DstWriter"), load("DstReader"), load("EmbConstant")
    x = c.int("dx", -121, 121, inp=True)
    y = c.int("dy", -121, 121, inp=True)
    b = W.encode_record(x, y, getattr(K, name))
    c.x.cover("encoded")
    P = "encode_record(%s)/post" % name
    c.prove(P + "/three-bytes", len(b) == 3)
    c.prove(P + "/class", eqv(b[2] & 0b11000011, 0x03 if name == "STITCH" else 0x83))
    c.prove(P + "/decode_dx", eqv(R.decode_dx(b[0], b[1], b[2]), x))
    c.prove(P + "/decode_dy", eqv(R.decode_dy(b[0], b[1], b[2]), y))


def t_dst(c, arg):
    intmode, trim_at, sequins = arg
    W, R, K = load("DstWriter"), load("DstReader"), load("EmbConstant")
    dst_record_contract(c)

    def eff(prod, fin, g):
        standard(prod, fin, g)

    class D(Product):
        def step_ghosts(self, g):
            if self.cmd == "SEQUIN_MODE" and self.elem is not None:
                g["seq"] = not_(g["seq"])

    cmds = ["STITCH", "JUMP", "COLOR_CHANGE", "STOP", "TRIM", "END", "SLOW", "FAST"]
    gh = {}
    if sequins:
        cmds += ["SEQUIN_MODE", "SEQUIN_EJECT"]
        gh = {"seq": (False, lambda c: c.bool("seq"))}
    st = {"trim_at": trim_at} if trim_at is not None else None
    d = D(c, "dst", lambda p, f: W.write(p, f, st), lambda s, o: R.dst_read_stitches(s, o, st), cmds, element(121), eff, ghosts=gh)
    d.go(intmode=intmode)


def not_(b):
    from pyvc.sym import SymBool, wrap

    return wrap(z3.Not(b.e)) if isinstance(b, SymBool) else not b


def t_exp(c, intmode):
    W, R = load("ExpWriter"), load("ExpReader")

    def eff(prod, fin, g):
        standard(prod, fin, g)

    d = Product(c, "exp", lambda p, f: W.write(p, f), lambda s, o: R.read(s, o), ["STITCH", "JUMP", "COLOR_CHANGE", "STOP", "TRIM", "END"], element(127), eff)
    d.go(intmode=intmode)


def t_xxx(c, intmode):
    W, R = load("XxxWriter"), load("XxxReader")

    def eff(prod, fin, g):
        standard(prod, fin, g)

    d = Product(c, "xxx", lambda p, f: W.write(p, f), lambda s, o: R.read(s, o), ["STITCH", "JUMP", "COLOR_CHANGE", "STOP", "TRIM", "END"], element(124), eff)
    d.go(intmode=intmode)


class JefThreads(list):
    """the colour list of a JEF header: any entry may be None (a stop)"""

    __vc_ghost__ = True

    def __init__(self, c):
        list.__init__(self)
        self.c = c

    def __getitem__(self, i):
        return None if self.c.choose("stop-colour") else "thread"

    def __delitem__(self, i):
        pass

    def __setitem__(self, i, v):
        pass

    def vc_len(self):
        return self.c.int("colours", lo=0)


def t_jef(c, arg):
    intmode, settings = arg
    W, R, K = load("JefWriter"), load("JefReader"), load("EmbConstant")

    def eff(prod, fin, g):
        standard(prod, fin, g)

    def osetup(prod, o):
        o.threadlist = JefThreads(c)

    def psetup(p):
        p.threadlist = []

    d = Product(c, "jef", lambda p, f: W.write(p, f, dict(settings, date="20200101000000")), lambda s, o: R.read_jef_stitches(s, o), ["STITCH", "JUMP", "COLOR_CHANGE", "STOP", "TRIM", "END"], element(127), eff, out_setup=osetup)
    p_thread = load("EmbThread").EmbThread

    def setup(p):
        p.get_thread_or_filler = lambda i: p_thread()

    # contract of the palette search: C17
    keep = p_thread.find_nearest_color_index
    if not hasattr(W, "__vc_real__"):
        W.__vc_real__ = W.get_thread_set
    p_thread.find_nearest_color_index = lambda self, values: c.int("palette-index", lo=0)
    W.get_thread_set = lambda: JefThreads(c)
    try:
        d.go(setup, intmode=intmode)
    finally:
        p_thread.find_nearest_color_index = keep
        W.get_thread_set = W.__vc_real__


def needle_effect(prod, fin, g, limit):
    """the needle change read back names the needle written"""
    if fin or prod.elem is None or prod.cmd != "NEEDLE_SET":
        return
    F, K, c = load("EmbFunctions"), prod.K, prod.c
    n = 0
    for e in prod.events:
        cmd, th, ne, od = F.decode_embroidery_command(e[2])
        if prod.c.branch(num(cmd) == K.NEEDLE_SET):
            n += 1
            same = eqv(ne, prod.needle)
            c.prove("%s/NEEDLE_SET/needle" % prod.name, z3.Implies(num(prod.needle) < limit, same))
    c.prove("%s/NEEDLE_SET/one" % prod.name, n == 1)


def num(v):
    from pyvc.sym import num as f

    return f(v)


def t_u01(c, intmode):
    W, R = load("U01Writer"), load("U01Reader")

    def eff(prod, fin, g):
        standard(prod, fin, g, count=("NEEDLE_SET", "STOP"), speeds=True)
        needle_effect(prod, fin, g, 15)

    d = Product(c, "u01", lambda p, f: W.write(p, f), lambda s, o: R.read(s, o), ["STITCH", "JUMP", "NEEDLE_SET", "STOP", "TRIM", "END", "SLOW", "FAST"], element(127, needle=(1, 254)), eff)
    d.go(intmode=intmode)


class NeedleTable(object):
    """contract of the TBF header loop: entry k of the table is the needle of
    the k-th needle change (k: any)"""

    def __init__(self, c, prod):
        from pyvc.runtime import SymArr
        from pyvc.sym import wrap

        self.c, self.prod = c, prod
        self.N = z3.Function("needle_of_change", z3.IntSort(), z3.IntSort())
        self.k = c.int("k", 0, 255, inp=True)
        self.arr = None
        self.code = prod.K.NEEDLE_SET

        def factory(v, n):
            self.arr = SymArr("thread_order", n, lambda v: num(v), lambda e: wrap(e), z3.K(z3.IntSort(), num(v)))
            return self.arr

        c.array_factory = factory
        c.array_min = 100
        self.final = None

    def inv(self):
        return z3.Implies(num(self.k) < num(self.ns), z3.Select(self.arr.a, num(self.k)) == self.N(num(self.k)))

    def ghosts(self, phase, run):
        return {} if self.arr is None else {"changes": self.ns}

    def entry(self, run):
        self.ns = 0
        if self.arr is not None:
            self.c.prove("tbf/needle-table@entry", self.inv())

    def head(self, run):
        if self.arr is None:
            return
        c = self.c
        self.ns = c.int("changes", lo=0)
        self.arr.a = c.fresh("thread_order", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        c.assume(self.inv())

    def elem(self, run, idx, e):
        c = self.c
        w = num(e[2])
        n = num(self.ns)
        is_set = w % 256 == self.code
        # the design prepared for TBF names a needle in every needle change
        c.assume(z3.Implies(is_set, z3.And(self.N(n) >= 1, self.N(n) <= 254, (w / 65536) % 256 == self.N(n) + 1, w < 2 ** 32)))
        # more changes than the table has room for are refused (IndexError)
        c.assume(z3.Implies(is_set, n < 256))
        self.is_set = is_set

    def back(self, run):
        if self.arr is None:
            return
        from pyvc.sym import wrap

        self.ns = wrap(num(self.ns) + z3.If(self.is_set, 1, 0))
        self.c.prove("tbf/needle-table@back", self.inv())
        self.c.x.cover("table")


def t_tbf(c, intmode):
    W, R = load("TbfWriter"), load("TbfReader")

    def eff(prod, fin, g):
        standard(prod, fin, g, count=("NEEDLE_SET", "STOP"))
        needle_effect(prod, fin, g, 255)

    class D(Product):
        def step_ghosts(self, g):
            if self.elem is not None and self.cmd == "NEEDLE_SET":
                g["changes"] = g["changes"] + 1

        def table(self, i):
            # contract of the header (tbf/needle-table): entry k is the needle
            # of the k-th change
            if self.stream.items is None:
                return self.c.int("order", 0, 255)
            self.c.prove("tbf/NEEDLE_SET/reads-its-own-table-entry", eqv(i, self.g["changes"]))
            return self.needle

    d = D(c, "tbf", lambda p, f: W.write(p, f), lambda s, o: R.read(s, o), ["STITCH", "JUMP", "NEEDLE_SET", "STOP", "TRIM", "END"], element(127, needle=(1, 254)), eff, ghosts={"changes": (0, lambda c: c.int("changes", lo=0))})
    d.probe = NeedleTable(c, d)
    d.go(intmode=intmode)


def t_pec(c, intmode):
    W, R = load("PecWriter"), load("PecReader")

    def eff(prod, fin, g):
        standard(prod, fin, g, count=("COLOR_CHANGE",), zero=True)

    def setup(p):
        # drawn from the blocks of the design; not read back
        p.threadlist = []
        p.get_as_stitchblock = p.get_as_colorblocks = lambda: []

    d = Product(c, "pec", lambda p, f: W.write_pec(p, f, []), lambda s, o: R.read_pec_stitches(s, o), ["STITCH", "JUMP", "COLOR_CHANGE", "STOP", "TRIM", "END"], element(2047), eff)
    d.go(setup, intmode=intmode)


class Signed(object):
    """contract of read_signed (proved by the task read_signed): entry k is
    the signed value of byte k.  Bytes are named relative to the reader's place
    RB in the stitch block; the block is longer than what has been written so
    far (exactly as long when everything has been written)."""

    __vc_ghost__ = True
    __vc_seq__ = True
    name = "stitch bytes"

    def __init__(self, prod):
        self.prod = prod
        self.L = prod.c.int("block_bytes", lo=0)
        self.bounded = False

    def vc_len(self):
        self.items()
        return self.L

    def __iter__(self):
        from pyvc.core import Unsupported

        raise Unsupported("iteration over the stitch bytes")

    def items(self):
        s = self.prod.stream
        if s.items is None:
            return None
        if not self.bounded:
            self.bounded = True
            c = self.prod.c
            e = num(self.prod.g["RB"]) + len(s.items)
            c.assume(num(self.L) == e if s.eof else num(self.L) > e)
        return s.items

    def __getitem__(self, i):
        from pyvc.core import Unsupported
        from pyvc.sym import ite

        items = self.items()
        if items is None:
            return self.prod.c.int("sbyte", -128, 127)
        k = self.prod.c.unique_value(num(i) - num(self.prod.g["RB"]))
        if k is None:
            raise Unsupported("the place read in the stitch block is not determined")
        if not 0 <= k < len(items):
            if not self.prod.stream.eof:
                self.prod.over()
            raise IndexError("list index out of range")
        return self.prod.signed(items[k])


def t_read_signed(c, _=None):
    """read_signed: entry k of the result is byte k, as a signed number"""
    from pyvc.runtime import LoopSpec, mkbytes

    H = load("ReadHelper")
    for n in (0, 1, 2, 5):
        items = [c.int("b", 0, 255, inp=True) for _ in range(n)]

        class S(object):
            def read(self, k):
                c.prove("read_signed/asks-for-n", eqv(k, n))
                return mkbytes(items, force=True)

        r = H.read_signed(S(), n)
        c.prove("read_signed/length", len(r) == n)
        for a, b in zip(r, items):
            c.prove("read_signed/value", z3.And(num(a) >= -128, num(a) <= 127, (num(a) - num(b)) % 256 == 0))
    c.x.cover("done")


def wrap16(v):
    from pyvc.sym import wrap

    return wrap((num(v) + 32768) % 65536 - 32768)


def signed_byte(c, b):
    from pyvc.sym import wrap

    if isinstance(b, int):
        return b - 256 if b > 127 else b
    return wrap(z3.If(num(b) > 127, num(b) - 256, num(b)))


def t_vp3_long(c, _=None):
    """the contract of the long form: two bytes, read back as signed numbers,
    are the displacement modulo 2**16"""
    from pyvc.runtime import OutStream

    W, R = load("Vp3Writer"), load("Vp3Reader")
    v = c.int("displacement", -40000, 40000, inp=True)
    f = OutStream()
    W.write_int_16be(f, v)
    c.prove("vp3-long/two-bytes", len(f.chunks) == 2)
    c.prove("vp3-long/value", eqv(R.signed16(*[signed_byte(c, b) for b in f.chunks]), wrap16(v)))
    c.x.cover("done")


class Vp3(Product):
    """one colour block; the reader's place in it (RB) is a ghost"""

    reach = 16000
    whole = False

    started = None

    def contracts(self, W, R):
        """write_int_16be and signed16 by contract (vp3-long)"""
        from pyvc.runtime import mkbytes
        from pyvc.sym import SymNum

        c, words, halves = self.c, {}, {}
        self.halves = halves
        ow, orr = W.write_int_16be, R.signed16

        def wr(stream, value):
            if not isinstance(value, SymNum):
                return ow(stream, value)
            if not value.is_int():
                raise TypeError("unsupported operand type(s) for &: 'float' and 'int'")
            b = [c.int("field", 0, 255) for _ in range(2)]
            s = [c.int("sfield", -128, 127) for _ in range(2)]
            c.keep.append((b, s))
            for x, y in zip(b, s):
                halves[x.e.get_id()] = y
            words[tuple(x.e.get_id() for x in s)] = value
            stream.write(mkbytes(b, force=True))

        def rd(b0, b1):
            v = words.get(tuple(x.e.get_id() if isinstance(x, SymNum) else None for x in (b0, b1)))
            if v is None:
                return orr(b0, b1)
            if c.branch(z3.And(num(v) >= -32768, num(v) <= 32767)):
                return v
            return wrap16(v)

        W.write_int_16be, R.signed16 = wr, rd

        def undo():
            W.write_int_16be, R.signed16 = ow, orr

        return undo

    def signed(self, b):
        h = None if isinstance(b, int) else self.halves.get(b.e.get_id())
        return signed_byte(self.c, b) if h is None else h

    def g_fresh(self):
        g = Product.g_fresh(self)
        g["RX"], g["RY"] = self.c.real("RX", inp=True), self.c.real("RY", inp=True)
        return g

    def g_entry(self):
        g = Product.g_entry(self)
        if self.started is not None:
            g["RX"], g["RY"] = self.started
        if self.phase == "read":
            g["RX"], g["RY"] = self.out._previousX, self.out._previousY
        return g

    def before(self, run):
        """hand the header of the block to the reader, up to its stitch loop"""
        if not self.x.readers:
            self.started = (0, 0)
            return
        self.stream = Stream(self.c, self)
        self.head_items = self.f.in_order()
        self.stream.load(self.head_items, False)
        self.header = True
        self.events = []
        self.out = self.new_out()
        self.phase = "read"
        try:
            self.read(self.stream, self.out)
        except Done:
            self.c.prove(self.name + "/header-read-exactly", self.stream.left() == 0)
            self.started = (self.out._previousX, self.out._previousY)
            self.effect_start()
        finally:
            self.phase, self.header = "write", False
        if self.started is None:
            self.c.prove(self.name + "/reader-reaches-its-stitch-loop", False)

    header = False

    def facts(self):
        return list(self.pre)

    def at_reader_loop(self, o):
        # what precedes the loop was checked by `before`
        del self.events[:]

    def new_stream(self):
        s = Stream(self.c, self)
        if self.head_items is not None:
            s.load([b if isinstance(b, int) else self.c.int("hdr", 0, 255) for b in self.head_items], False)
        return s

    head_items = None
    pre = ()

    def effect_start(self):
        ops = [e[2] for e in self.events]
        self.c.prove(self.name + "/only-a-move-before-the-stitches", all(isinstance(o, int) and o == self.K.JUMP for o in ops))

    def policy(self, site, it, loc):
        key = (site["short"], site["kind"], site["ord"])
        if self.phase == "read" and self.header and key in self.x.readers:
            raise Done()
        return Product.policy(self, site, it, loc)

    def step_ghosts(self, g):
        g["RB"] = self.g["RB"] + len(self.items)

    def unread(self, run, env):
        """how much the reader has left of this record: some variable of its
        loop is its place"""
        from pyvc.runtime import kind_of

        best = 0
        for n, v in run._values(env).items():
            if kind_of(v) == "int":
                k = self.c.unique_value(num(v) - num(self.g["RB"]))
                if k is not None:
                    best = max(best, k)
        return len(self.items) - best

    def make(self, i):
        v = Product.make(self, i)
        for e in v[:2]:
            self.c.assume(e <= 16000)
            self.c.assume(e >= -16000)
        return v

    def more_pairs(self, g, vals):
        out = []
        from pyvc.runtime import kind_of
        from pyvc.sym import toreal

        for m, v in vals.items():
            if isinstance(m, str) and kind_of(v) in ("int", "real"):
                e = toreal(num(v))
                for a in ("RX", "RY"):
                    p = toreal(num(g[a]))
                    out.append((("half", str(m), a), z3.And(2 * e - 2 * p <= 1, 2 * p - 2 * e <= 1)))
                    out.append((("neg-half", str(m), a), z3.And(2 * e + 2 * p <= 1, 2 * p + 2 * e >= -1)))
                out.append((("reachable", str(m)), z3.And(e <= 16001, e >= -16001)))
        return out


def vp3_effect(prod, fin, g):
    from pyvc.sym import toreal

    c, K, cmd, ev = prod.c, prod.K, prod.cmd if prod.elem is not None else "nothing", prod.events
    P = "vp3/" + cmd
    ops = [e[2] if isinstance(e[2], int) else None for e in ev]
    c.prove(P + "/commands-recognised", None not in ops)
    st = [e for e, o in zip(ev, ops) if o == K.STITCH]
    c.prove(P + "/penetrations", len(st) == (1 if cmd == "STITCH" else 0))
    if fin and prod.whole:
        c.prove(P + "/end", ops[-1:] == [K.END])
        ops = ops[:-1]
    c.prove(P + "/only-stitches-and-trims", all(o in (K.STITCH, K.TRIM) for o in ops))
    if st and cmd == "STITCH":
        for i, a in ((0, "x"), (1, "y")):
            p, q = toreal(num(st[0][i])), toreal(num(prod.elem[i]))
            c.prove("%s/penetration-%s-within-a-unit-and-a-half" % (P, a), z3.And(2 * p - 2 * q <= 3, 2 * q - 2 * p <= 3))
    # no drift: the reader's offset from the block's start stays what it was
    if fin:
        c.prove(P + "/stops-only-at-the-end-of-the-block", prod.eof)


def field_contract(c, W, R, write, read, size):
    """callers see an integer field through the contract of its writer and
    reader (the pair tasks of C02): `size` bytes, read back modulo 256**size"""
    from pyvc.runtime import mkbytes
    from pyvc.sym import wrap, SymNum

    table = {}
    ow, orr = getattr(W, write), getattr(R, read)
    m = 256**size

    def wr(stream, value):
        if not isinstance(value, SymNum):
            return ow(stream, value)
        if not value.is_int():
            raise TypeError("unsupported operand type(s) for &: 'float' and 'int'")
        b = [c.int("field", 0, 255) for _ in range(size)]
        c.keep.append(b)
        table[tuple(v.e.get_id() for v in b)] = value
        stream.write(mkbytes(b, force=True))

    class One(object):
        def __init__(self, b):
            self.b = b

        def read(self, n):
            return self.b

    def rd(stream):
        b = stream.read(size)
        it = getattr(b, "items", None)
        v = table.get(tuple(x.e.get_id() if isinstance(x, SymNum) else None for x in it)) if it is not None and len(it) == size else None
        if v is None:
            return orr(One(b))
        e = num(v)
        if c.branch(z3.And(e > -m, e < m)):
            return wrap(z3.If(e < 0, e + m, e))
        return wrap(e % m)

    setattr(W, write, wr)
    setattr(R, read, rd)

    def undo():
        setattr(W, write, ow)
        setattr(R, read, orr)

    return undo


def t_vp3(c, arg):
    intmode, first = arg
    W, R, K = load("Vp3Writer"), load("Vp3Reader"), load("EmbConstant")
    T = load("EmbThread").EmbThread
    mk = c.int if intmode else c.real

    def elem(prod, cmd, g):
        code = getattr(K, cmd)
        x, y = mk("x", inp=True), mk("y", inp=True)
        for v in (x, y):
            c.assume(v <= 16000)
            c.assume(v >= -16000)
        return x, y, code

    th = T()
    th.color = c.int("color", 0, 0xFFFFFF)
    th.description, th.catalog_number, th.brand = "Rouge", "1234", "Brand"
    keep = getattr(R, "__vc_real__", R.read_signed)
    R.__vc_real__ = keep
    d = Vp3(c, "vp3", None, None, ["STITCH", "JUMP", "TRIM", "STOP", "COLOR_CHANGE", "SEQUIN_MODE", "SEQUIN_EJECT", "END"], elem, vp3_effect,
            ghosts={"RB": (0, lambda c: c.int("RB", lo=0))}, last_end="may")
    R.read_signed = lambda stream, n: Signed(d)
    center = [c.int(n, -16000, 16000, inp=True) for n in ("center_x", "center_y")]
    d.pre = [z3.And(num(v) >= -16000, num(v) <= 16000) for v in center]
    if first == "design":

        def write(p, f):
            W.get_as_colorblocks = lambda pattern: iter([(p.stitches, th)])
            W.write(p, f)

        d.write, d.read, d.whole = write, lambda s, o: R.read(s, o), True
    else:
        d.write = lambda p, f: W.write_vp3_colorblock(f, first == "first", center[0], center[1], p.stitches, th)

        def read(s, o):
            o._previousX, o._previousY = c.real("lastX", inp=True), c.real("lastY", inp=True)
            R.vp3_read_colorblock(s, o, center[0], center[1])

        d.read = read
    keepb = getattr(W, "__vc_real__", W.get_as_colorblocks)
    W.__vc_real__ = keepb
    undo = field_contract(c, W, R, "write_int_32be", "read_int_32be", 4)
    undo2 = d.contracts(W, R)
    try:
        d.go(intmode=intmode)
    finally:
        undo()
        undo2()
        R.read_signed = keep
        W.get_as_colorblocks = keepb
