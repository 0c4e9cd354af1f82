"""Run-time support called from the instrumented modules (name __vc__)."""
import builtins
import math
import re
import types
import z3

from . import core
from .core import Unsupported, PathEnd, MergeAbort, Obligation
from .sym import SymNum, SymBool, Opaque, wrap, num, pair, ite, to_int, round_, mod as sym_mod, is_sym, toreal

UNBOUND = Opaque("unbound")
PH = re.compile("\ue000(\\d+)\ue001")


def _c():
    return core.CTX


def site_info(sid):
    from .instrument import SITES

    return SITES[sid]


# ---------------------------------------------------------------- containers
class SymBytes(object):
    """bytes / bytearray with symbolic elements (each proved in 0..255)."""

    __vc_ghost__ = True

    def __init__(self, items, mutable=False):
        self.items = builtins.list(items)
        self.mutable = mutable

    def __len__(self):
        return builtins.len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.items[i], self.mutable)
        return self.items[i]

    def __setitem__(self, i, v):
        self.items[i] = v

    def append(self, v):
        check_byte(v)
        self.items.append(v)

    def extend(self, v):
        for x in v:
            check_byte(x)
            self.items.append(x)

    def __add__(self, o):
        return SymBytes(self.items + builtins.list(o), self.mutable)

    def __radd__(self, o):
        return SymBytes(builtins.list(o) + self.items, self.mutable)

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, builtins.bytes, builtins.bytearray)):
            return False
        if builtins.len(self) != builtins.len(o):
            return False
        cs = []
        for a, b in zip(self.items, o):
            p = pair(a, b)
            cs.append(p[0] == p[1])
        return wrap(z3.And(cs)) if cs else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, builtins.bool) else wrap(z3.Not(r.e))

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def decode(self, *a):
        return _c().placeholder(Opaque("decoded"), "s")

    def strip(self, *a):
        return self

    def startswith(self, p):
        return self[: builtins.len(p)] == p

    def __repr__(self):
        return "SymBytes(%r)" % (self.items,)


def check_byte(v):
    if isinstance(v, (SymNum, SymBool)):
        e = num(v)
        if e.sort() != z3.IntSort():
            raise TypeError("'float' object cannot be interpreted as an integer")
        ok = z3.And(e >= 0, e <= 255)
        if not _c().valid(ok):
            if not _c().branch(ok):
                raise ValueError("byte must be in range(0, 256)")
    elif isinstance(v, Opaque):
        pass


class SymSeq(object):
    """A list of symbolic length whose elements are arbitrary (subject to the
    precondition assumed by `make`)."""

    __vc_ghost__ = True
    __vc_seq__ = True

    def __init__(self, name, make, nonempty=None, getitem=None, length=None):
        self.name = name
        self.make = make
        self._len = length
        self._getitem = getitem

    def vc_len(self):
        if self._len is None:
            self._len = _c().int("len_" + self.name, lo=0)
        return self._len

    def elem(self, idx):
        return self.make(idx)

    def index(self):
        i = _c().int("idx_" + self.name, lo=0)
        n = self.vc_len()
        _c().assume(i.e < num(n))
        return i

    def __iter__(self):
        raise Unsupported("uncontrolled iteration over symbolic sequence " + self.name)

    def __getitem__(self, i):
        if self._getitem is not None:
            return self._getitem(i)
        if isinstance(i, slice):
            raise Unsupported("slice of symbolic sequence " + self.name)
        n = num(self.vc_len())
        if isinstance(i, (builtins.int, SymNum)):
            e = num(i)
            if not _c().branch(z3.And(e < n, e >= -n)):
                raise IndexError("list index out of range")
            return self.make(i)
        raise Unsupported("index of symbolic sequence")

    def __radd__(self, o):
        if not isinstance(o, builtins.list):
            return NotImplemented
        head, n = builtins.list(o), builtins.len(o)

        def make(i):
            e = num(i)
            for k in builtins.range(n):
                if _c().branch(e == k):
                    return head[k]
            return self.make(i - n)

        return SymSeq(self.name + "+", make, length=self.vc_len() + n)

    def __bool__(self):
        return builtins.bool(wrap(num(self.vc_len()) > 0))

    def __len__(self):
        raise Unsupported("concrete len of symbolic sequence")


class SymEnum(object):
    __vc_ghost__ = True
    __vc_seq__ = True

    def __init__(self, seq, start):
        self.seq = seq
        self.start = start
        self.name = "enum_" + seq.name

    def vc_len(self):
        return self.seq.vc_len()

    def index(self):
        return self.seq.index()

    def elem(self, idx):
        return (idx + self.start, self.seq.elem(idx))

    def __iter__(self):
        raise Unsupported("uncontrolled iteration")


class SymRange(object):
    __vc_ghost__ = True
    __vc_seq__ = True

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self.name = "range"
        if not isinstance(step, builtins.int) or step == 0:
            raise Unsupported("symbolic range step")

    def vc_len(self):
        lo, hi = num(self.lo), num(self.hi)
        s = abs(self.step)
        d = (hi - lo) if self.step > 0 else (lo - hi)
        return wrap(z3.If(d > 0, (d + (s - 1)) / z3.IntVal(s), z3.IntVal(0)))

    def index(self):
        i = _c().int("ridx", lo=0)
        _c().assume(i.e < num(self.vc_len()))
        return i

    def elem(self, idx):
        return self.lo + idx * self.step

    def __iter__(self):
        # small or decided ranges are unrolled by forking on the bounds
        i = self.lo
        k = 0
        while True:
            c = (i < self.hi) if self.step > 0 else (i > self.hi)
            if not builtins.bool(c):
                return
            yield i
            i = i + self.step
            k += 1
            if k > 3000:
                raise Unsupported("unbounded unrolling of a symbolic range")


class LogList(list):
    """An append-only list with an unknown prefix: `prefix` arbitrary items
    were there before; `on_append(item)` is the contract monitor."""

    __vc_ghost__ = True

    def __init__(self, name, on_append=None, prefix_len=None, last=None):
        list.__init__(self)
        self.name = name
        self.on_append = on_append
        self.prefix = prefix_len
        self.last = last
        self.total = 0

    def vc_len(self):
        if self.prefix is None:
            self.prefix = _c().int("len_" + self.name, lo=0)
        return wrap(num(self.prefix) + builtins.len(self.__raw__()))

    def __raw__(self):
        return [list.__getitem__(self, i) for i in builtins.range(list.__len__(self))]

    def append(self, v):
        self.total += 1
        list.append(self, v)
        if self.on_append is not None:
            self.on_append(v)

    def extend(self, vs):
        if getattr(vs, "__vc_seq__", False):
            raise Unsupported("extend by a symbolic sequence")
        for v in vs:
            self.append(v)

    def __iadd__(self, vs):
        self.extend(vs)
        return self

    def insert(self, i, v):
        raise Unsupported("insert into log list " + self.name)

    def __setitem__(self, i, v):
        if isinstance(i, builtins.int) and i < 0 and -i <= list.__len__(self):
            list.__setitem__(self, i, v)
            return
        raise Unsupported("update of log list " + self.name)

    def __delitem__(self, i):
        raise Unsupported("deletion from log list " + self.name)

    def __getitem__(self, i):
        if isinstance(i, builtins.int) and i < 0 and -i <= list.__len__(self):
            return list.__getitem__(self, i)
        if i == -1 and self.last is not None:
            return self.last()
        raise Unsupported("read of log list " + self.name)

    def __iter__(self):
        raise Unsupported("iteration over log list " + self.name)

    def __bool__(self):
        return builtins.bool(self.vc_len() > 0)


class VList(builtins.list):
    """A list created by the code under verification.  Outside cut loops it is
    an ordinary list.  When a cut loop appends to it, its contents before the
    current iteration become an unknown prefix of `pre` elements, and only the
    elements added since are known; any read of the prefix is refused."""

    pre = None
    known = None  # element k of the prefix, when a loop contract says what it holds

    def vc_open(self, n):
        builtins.list.clear(self)
        self.pre = n
        self.known = None

    def contents(self, k):
        """element k (0 <= k < total)"""
        tail = self.tail()
        n = num(self.pre)

        def at(j):
            if j == builtins.len(tail):
                return self.known(k)
            return pick(num(k) == n + j, lambda: (tail[j],), lambda: (at(j + 1),))[0]

        return at(0)

    def _known_item(self, i):
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                raise Unsupported("slice with a step")
            f = FList("list", self.vc_total(), lambda k: (self.contents(k),), 1, False, lambda t: t[0])
            lo, hi = f._bounds(i)
            whole = f.at
            return FList("slice", hi - lo, lambda k: whole(k + lo), 1, False, lambda t: t[0])
        e, n = num(i), num(self.vc_total())
        if not _c().branch(z3.And(e < n, e >= -n)):
            raise IndexError("list index out of range")
        return self.contents(wrap(e) if _c().branch(e >= 0) else wrap(e + n))

    def vc_total(self):
        k = builtins.list.__len__(self)
        return k if self.pre is None else wrap(num(self.pre) + k)

    def tail(self):
        return [builtins.list.__getitem__(self, i) for i in builtins.range(builtins.list.__len__(self))]

    def __getitem__(self, i):
        if self.pre is not None and not (isinstance(i, builtins.int) and -builtins.list.__len__(self) <= i < 0):
            if self.known is not None:
                return self._known_item(i)
            if _c().loose:
                if isinstance(i, slice):
                    r = VList()
                    n = _c().int("slicelen", lo=0)
                    r.vc_open(n)
                    _c().assume(num(n) <= num(self.vc_total()))
                    if i.start is None and i.step is None and num(i.stop) is not None and num(i.stop).is_int():
                        _c().assume(z3.Implies(num(i.stop) >= 0, num(n) <= num(i.stop)))
                    return r
                if _c().choose("out of range"):
                    raise IndexError("list index out of range")
                return Opaque("item")
            raise Unsupported("read of the unknown part of a list")
        return builtins.list.__getitem__(self, i)

    def __setitem__(self, i, v):
        if self.pre is not None and not (isinstance(i, builtins.int) and -builtins.list.__len__(self) <= i < 0):
            raise Unsupported("update of the unknown part of a list")
        builtins.list.__setitem__(self, i, v)

    def __bool__(self):
        if self.pre is None:
            return builtins.list.__len__(self) > 0
        return builtins.bool(self.vc_total() > 0)

    def extend(self, vs):
        if _c() is not None and _c().loose and (getattr(vs, "__vc_seq__", False) or isinstance(vs, Opaque) or getattr(vs, "pre", None) is not None):
            self.vc_open(_c().int("extended", lo=0))
            return
        if getattr(vs, "__vc_seq__", False):
            raise Unsupported("extend by a symbolic sequence")
        builtins.list.extend(self, vs)

    def __iadd__(self, vs):
        self.extend(vs)
        return self


def _guarded(name):
    f = getattr(builtins.list, name)

    def g(self, *a, **k):
        if self.pre is not None:
            if _c().loose and name in ("insert", "pop", "remove"):
                if name != "insert" and _c().choose("missing"):
                    raise (IndexError if name == "pop" else ValueError)(name)
                n = _c().int("newlen", lo=0)
                self.vc_open(n)
                return Opaque("item") if name == "pop" else None
            raise Unsupported("%s of a list with an unknown part" % name)
        return f(self, *a, **k)

    g.__name__ = name
    return g


for _n in ("__iter__", "__len__", "__delitem__", "__contains__", "__eq__", "__ne__", "__add__", "__mul__", "__reversed__", "insert", "pop", "remove", "index", "sort", "reverse", "copy", "count", "clear"):
    setattr(VList, _n, _guarded(_n))
VList.__hash__ = None


def newlist():
    return VList()


class VDict(dict):
    """A dict created by the code under verification; an ordinary one, except
    when a check asks for over-approximation (Ctx.loose): once written under a
    symbolic key or in a cut loop nothing is known about it any more."""

    vague = False

    def vc_vague(self):
        dict.clear(self)
        self.vague = True

    def _vague(self, *ks):
        if self.vague:
            return True
        for k in ks:
            if isinstance(k, (SymNum, SymBool, Opaque)):
                c = _c()
                if c is None or not c.loose:
                    raise Unsupported("dict key is symbolic")
                return True
        return False

    def __getitem__(self, k):
        if self._vague(k):
            if _c().choose("missing key"):
                raise KeyError(k)
            return Opaque("value")
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        if self._vague(k):
            return d if _c().choose("missing key") else Opaque("value")
        return dict.get(self, k, d)

    def __contains__(self, k):
        if self._vague(k):
            return _c().choose("has key")
        return dict.__contains__(self, k)

    def __setitem__(self, k, v):
        if self._vague(k):
            self.vc_vague()
            return
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        if self._vague(k):
            self.vc_vague()
            return
        dict.__delitem__(self, k)

    def __bool__(self):
        if self.vague:
            return _c().choose("nonempty dict")
        return dict.__len__(self) > 0


def _dguarded(name):
    f = getattr(dict, name)

    def g(self, *a, **k):
        if self.vague:
            if name in ("items", "keys", "values"):
                return Opaque(name)
            raise Unsupported("%s of a dict about which nothing is known" % name)
        return f(self, *a, **k)

    g.__name__ = name
    return g


for _n in ("__iter__", "__len__", "__eq__", "__ne__", "items", "keys", "values", "pop", "popitem", "setdefault", "update", "clear", "copy"):
    setattr(VDict, _n, _dguarded(_n))
VDict.__hash__ = None


def newdict():
    if core.CTX is not None and core.CTX.dict_factory is not None:
        return core.CTX.dict_factory()
    return VDict()


class SymArr(object):
    """A list of symbolic length whose contents are a z3 array; `enc`/`dec`
    translate elements; `none` counts (as ghost) the entries that are not None."""

    __vc_ghost__ = True
    __vc_seq__ = True

    def __init__(self, name, n, enc, dec, arr=None, present=None):
        I = z3.IntSort()
        self.name, self.n, self.enc, self.dec = name, n, enc, dec
        self.a = arr if arr is not None else z3.Const("arr_" + name, z3.ArraySort(I, I))
        self.present = present
        if core.CTX is not None:
            core.CTX.tracked.append(self)

    def vc_state(self):
        return (id(self.a), id(self.n))

    def vc_len(self):
        return self.n

    def index(self):
        raise Unsupported("index")

    def elem(self, i):
        return self.dec(z3.Select(self.a, num(i)))

    def _at(self, i):
        if isinstance(i, (builtins.int, SymNum)) and not isinstance(i, builtins.bool):
            e, n = num(i), num(self.n)
            if e.sort() != z3.IntSort():
                raise TypeError("list indices must be integers")
            if not _c().branch(z3.And(e < n, e >= -n)):
                raise IndexError("list index out of range")
            return e if _c().branch(e >= 0) else e + n
        if i is None:
            raise TypeError("list indices must be integers or slices, not NoneType")
        raise Unsupported("index of symbolic array")

    def __getitem__(self, i):
        return self.dec(z3.Select(self.a, self._at(i)))

    def __setitem__(self, i, v):
        e = self._at(i)
        x = self.enc(v)
        if self.present is not None:
            old = z3.Select(self.a, e)
            self.present = self.present + z3.If(x != -1, 1, 0) - z3.If(old != -1, 1, 0)
        self.a = z3.Store(self.a, e, x)

    def __iter__(self):
        raise Unsupported("uncontrolled iteration over symbolic array " + self.name)

    def __len__(self):
        raise Unsupported("concrete len of symbolic array")


class FList(object):
    """A list of symbolic length given by a function from index to element
    components; every list operation is modelled exactly (functional update)."""

    __vc_ghost__ = True
    __vc_seq__ = True

    def __init__(self, name, n, at, width=3, alias=False, wrap_elem=None):
        self.name, self.n, self.at, self.width = name, n, at, width
        self.alias = alias
        self.struct = 0
        self.writes = 0
        self.wrap_elem = wrap_elem
        self.log = []  # edits: ("put"|"insert"|"delete"|"append", where, what, contents before)
        if core.CTX is not None:
            core.CTX.tracked.append(self)

    def vc_state(self):
        return (id(self.at), id(self.n))

    def vc_len(self):
        return self.n

    def __len__(self):
        raise Unsupported("concrete len of " + self.name)

    def __iter__(self):
        raise Unsupported("uncontrolled iteration over " + self.name)

    def index(self):
        raise Unsupported("index")

    def elem(self, i):
        if self.wrap_elem is not None:
            return self.wrap_elem(self.at(i))
        return Ref(self, i)

    def __bool__(self):
        return builtins.bool(wrap(num(self.n) > 0))

    def _at(self, i):
        e, n = num(i), num(self.n)
        if e is None or e.sort() != z3.IntSort():
            raise TypeError("list indices must be integers or slices")
        if not _c().branch(z3.And(e < n, e >= -n)):
            raise IndexError("list index out of range")
        return wrap(e) if _c().branch(e >= 0) else wrap(e + n)

    def _bounds(self, s):
        if s.step is not None and s.step != 1:
            raise Unsupported("slice with a step")
        n = num(self.n)

        def clamp(v, d):
            if v is None:
                return d
            e = num(v)
            e = z3.If(e < 0, e + n, e)
            return z3.If(e < 0, z3.IntVal(0), z3.If(e > n, n, e))

        lo, hi = clamp(s.start, z3.IntVal(0)), clamp(s.stop, n)
        return wrap(z3.simplify(lo)), wrap(z3.simplify(z3.If(hi < lo, lo, hi)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = self._bounds(i)
            at = self.at
            r = FList(self.name, hi - lo, lambda k: at(k + lo), self.width, True, self.wrap_elem)
            r.part = (self, lo, hi)
            return r
        return self.elem(self._at(i))

    def put(self, i, v):
        at = self.at
        self.log.append(("put", i, vals(v), at))
        self.at = lambda k: pick(num(k) == num(i), lambda: vals(v), lambda: at(k))
        self.writes += 1

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        self.put(self._at(i), v)

    def insert(self, i, v):
        n = num(self.n)
        e = num(i)
        e = z3.If(e < 0, z3.If(e + n < 0, z3.IntVal(0), e + n), z3.If(e > n, n, e))
        at = self.at
        self.log.append(("insert", wrap(z3.simplify(e)), vals(v), at))
        self.at = lambda k: pick(num(k) < e, lambda: at(k), lambda: pick(num(k) == e, lambda: vals(v), lambda: at(k - 1)))
        self.n = self.n + 1
        self.struct += 1

    def append(self, v):
        n, at = self.n, self.at
        self.log.append(("append", n, vals(v), at))
        self.at = lambda k: pick(num(k) == num(n), lambda: vals(v), lambda: at(k))
        self.n = n + 1

    def extend(self, o):
        if isinstance(o, FList):
            n, at, oat = self.n, self.at, o.at
            self.at = lambda k: pick(num(k) < num(n), lambda: at(k), lambda: oat(k - n))
            self.n = n + o.n
        else:
            for v in o:
                self.append(v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = self[:]
        r.extend(o)
        return r

    def __delitem__(self, i):
        at = self.at
        if isinstance(i, slice):
            lo, hi = self._bounds(i)
        else:
            lo = self._at(i)
            hi = lo + 1
        self.log.append(("delete", lo, hi, at))
        self.at = lambda k: pick(num(k) < num(lo), lambda: at(k), lambda: at(k + (hi - lo)))
        self.n = self.n - (hi - lo)
        self.struct += 1

    def pop(self, *a):
        i = a[0] if a else -1
        r = vals(self[i])
        del self[i]
        return builtins.list(r)

    def vc_map(self, fn):
        at, mk = self.at, self.wrap_elem
        return FList(self.name + "'", self.n, lambda k: vals(fn(mk(at(k)) if mk is not None else builtins.list(at(k)))), self.width, False, mk)


class FBytes(FList):
    """a bytearray of symbolic length"""

    def __init__(self, name, n, at):
        FList.__init__(self, name, n, at, 1, False, lambda t: t[0])

    def append(self, v):
        check_byte(v)
        FList.append(self, v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = self._bounds(i)
            at = self.at
            r = FBytes(self.name, wrap(z3.simplify(num(hi - lo))), lambda k: at(k + lo))
            root, base, _ = self.part or (self, 0, None)
            r.part = (root, lo + base, hi + base)
            r.finder, r.decoder = self.finder, self.decoder
            return r
        return self.elem(self._at(i))

    part = finder = decoder = None

    def decode(self, *a):
        if self.decoder is None:
            raise Unsupported("decode of " + self.name)
        return self.decoder(self, *a)

    def find(self, b, *a):
        if self.finder is None or a:
            raise Unsupported("find in " + self.name)
        return self.finder(self, b[0] if isinstance(b, (builtins.bytes, builtins.bytearray)) and builtins.len(b) == 1 else b)

    def index(self, b, *a):
        r = self.find(b, *a)
        if builtins.bool(r == -1):
            raise ValueError("subsection not found")
        return r


def vals(v):
    if isinstance(v, Ref):
        return v.read()
    if isinstance(v, (builtins.list, builtins.tuple)):
        return builtins.tuple(v)
    return (v,)


def pick(cond, a, b):
    """element-wise conditional of two tuples of components"""
    cond = z3.simplify(cond) if isinstance(cond, z3.ExprRef) else z3.BoolVal(cond)
    if z3.is_true(cond):
        return a()
    if z3.is_false(cond):
        return b()
    x, y = a(), b()
    if builtins.len(x) == builtins.len(y):
        out = []
        for u, v in zip(x, y):
            r = u if same(u, v) else ite(cond, u, v)
            if r is None and not (u is None and v is None):
                break
            out.append(r)
        else:
            return builtins.tuple(out)
    return x if _c().branch(cond) else y


class Ref(object):
    """element i of an FList (a mutable list of its components)"""

    __vc_ghost__ = True
    __vc_list__ = True

    def __init__(self, lst, i):
        self.l, self.i = lst, i
        self.s, self.w = lst.struct, lst.writes
        self.v = vals(lst.at(i))

    def read(self):
        if self.w != self.l.writes:
            if self.s != self.l.struct:
                raise Unsupported("element reference outlives changes of its list")
            self.w = self.l.writes
            self.v = vals(self.l.at(self.i))
        return self.v

    def __getitem__(self, k):
        r = self.read()[k]
        return builtins.list(r) if isinstance(k, slice) else r

    def __setitem__(self, k, x):
        if self.s != self.l.struct:
            raise Unsupported("write through an element reference that outlives changes of its list")
        if self.l.alias:
            raise Unsupported("write through a slice")
        v = builtins.list(self.read())
        v[k] = x
        self.l.put(self.i, builtins.tuple(v))
        self.v = builtins.tuple(v)
        self.w = self.l.writes

    def __len__(self):
        return builtins.len(self.v)

    def __iter__(self):
        return iter(self.read())

    def __eq__(self, o):
        a, b = self.read(), vals(o)
        if builtins.len(a) != builtins.len(b):
            return False
        return all(x == y for x, y in zip(a, b))

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


def listcomp(fn, it, conds=()):
    if isinstance(it, Opaque) and _c() is not None and _c().loose:
        e = Opaque("elem")
        if all(cnd(e) for cnd in conds):
            fn(e)
        r = VList()
        r.vc_open(_c().int("comprehension", lo=0))
        return r
    if getattr(it, "__vc_seq__", False):
        f = getattr(it, "vc_map", None)
        if f is None or conds:
            raise Unsupported("comprehension over a symbolic sequence")
        return f(fn)
    out = VList()
    for x in it:
        if all(cnd(x) for cnd in conds):
            out.append(fn(x))
    return out


def list_times(lst, n):
    """[v] * n for a symbolic n"""
    c = _c()
    mk = getattr(c, "array_factory", None)
    if mk is None or builtins.len(lst) != 1:
        raise Unsupported("list times a symbolic number")
    return mk(lst[0], n)


def list_mul(a, b):
    """[v] * n; a check may ask (array_factory, array_min) for long ones to be
    modelled as arrays"""
    c = _c()
    if c is not None:
        least = getattr(c, "array_min", None)
        for l, n in ((a, b), (b, a)):
            if isinstance(l, builtins.list) and builtins.len(l) == 1 and isinstance(n, builtins.int) and least is not None and n >= least:
                return c.array_factory(l[0], n)
    return a * b


def b_set(*a):
    if a and getattr(a[0], "__vc_seq__", False):
        f = getattr(a[0], "vc_set", None)
        if f is None:
            raise Unsupported("set of a symbolic sequence")
        return f()
    return builtins.set(*a)


# ---------------------------------------------------------------- streams
class OutStream(object):
    __vc_ghost__ = True

    def __init__(self):
        self.chunks = []  # current iteration's items (ints/SymNum) or ('opaque', x)
        self.base = 0
        self.patched = False
        self.all_known = True
        self.events = []

    def write(self, b):
        if isinstance(b, str):
            self.chunks.append(("text", b))
            return
        if isinstance(b, (builtins.bytes, builtins.bytearray)):
            if b"\xee\x80\x80" in b:
                self.chunks.append(("text", b))
                self.all_known = False
                return
            self.chunks.extend(builtins.list(b))
        elif isinstance(b, SymBytes):
            self.chunks.extend(b.items)
        elif isinstance(b, Opaque):
            self.chunks.append(("opaque", b))
        else:
            raise TypeError("a bytes-like object is required, not %r" % type(b).__name__)

    def tell(self):
        n = 0
        for c in self.chunks:
            if isinstance(c, builtins.tuple):
                v = _c().int("tell", lo=0)
                return v
            n += 1
        return self.base + n

    def seek(self, pos, whence=0):
        self.events.append(("seek", pos, whence, builtins.len(self.chunks)))
        self.patched = True

    def flush(self):
        pass

    def close(self):
        pass

    def reset(self):
        self.chunks = []
        self.base = _c().int("outpos", lo=0)


class ChunkStream(object):
    """Delivers exactly `items`; reading past them is a short read (only at
    the end) and is reported to `over`."""

    __vc_ghost__ = True

    def __init__(self, items, over=None, base=0):
        self.items = builtins.list(items)
        self.p = 0
        self.over = over
        self.base = base

    def read(self, n=None):
        if n is None:
            n = builtins.len(self.items) - self.p
        if isinstance(n, (SymNum, SymBool)):
            n = n.__index__()
        if isinstance(n, Opaque):
            raise Unsupported("read of unknown length")
        if self.p + n > builtins.len(self.items) and self.over is not None:
            self.over(self, n)
        r = self.items[self.p : self.p + n]
        self.p += builtins.len(r)
        return mkbytes(r)

    def left(self):
        return builtins.len(self.items) - self.p

    def tell(self):
        return self.base + self.p

    def seek(self, pos, whence=0):
        if whence == 1 and isinstance(pos, builtins.int):
            self.p += pos
            if self.p > builtins.len(self.items) and self.over is not None:
                self.over(self, 0)
            return
        if whence == 0 and isinstance(pos, builtins.int) and isinstance(self.base, builtins.int):
            self.p = pos - self.base
            return
        raise Unsupported("seek in chunk stream")


class InStream(object):
    """A file about whose contents nothing is known: size>=0 arbitrary,
    position tracked, every byte read is an arbitrary value 0..255."""

    __vc_ghost__ = True

    def __init__(self):
        self.size = _c().int("filesize", lo=0)
        self.pos = 0

    def read(self, n=None):
        c = _c()
        if n is None:
            k = wrap(z3.If(num(self.size) > num(self.pos), num(self.size) - num(self.pos), z3.IntVal(0)))
            self.pos = self.pos + k
            return OpaqueBytes(k)
        if isinstance(n, Opaque):
            n = c.int("n")
        if n is None:
            raise TypeError("read of None")
        if not isinstance(n, builtins.int) or n < 0 or n > 64:
            e = num(n)
            rem = z3.If(num(self.size) > num(self.pos), num(self.size) - num(self.pos), z3.IntVal(0))
            k = wrap(z3.If(z3.Or(e < 0, e > rem), rem, e))
            self.pos = self.pos + k
            return OpaqueBytes(k)
        full = c.branch(num(self.pos) + n <= num(self.size))
        if full:
            self.pos = self.pos + n
            return mkbytes([c.int("byte", 0, 255) for _ in builtins.range(n)], force=True)
        # short read: every short length
        k = 0
        while k < n - 1 and c.branch(num(self.pos) + k + 1 <= num(self.size)):
            k += 1
        self.pos = self.pos + k
        return mkbytes([c.int("byte", 0, 255) for _ in builtins.range(k)], force=True)

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        if isinstance(pos, Opaque):
            pos = _c().int("seekpos")
        if pos is None:
            raise TypeError("seek None")
        if whence == 0:
            new = pos
            if not _c().branch(num(new) >= 0):
                raise ValueError("negative seek value")
        elif whence == 1:
            new = self.pos + pos
            new = wrap(z3.If(num(new) < 0, z3.IntVal(0), num(new)))
        else:
            new = self.size + pos
            new = wrap(z3.If(num(new) < 0, z3.IntVal(0), num(new)))
        self.pos = new
        return new

    def close(self):
        pass


class OpaqueBytes(object):
    __vc_ghost__ = True
    __vc_seq__ = True
    name = "bytes"

    def __init__(self, n):
        self.n = n

    def vc_len(self):
        return self.n

    def index(self):
        i = _c().int("bidx", lo=0)
        _c().assume(i.e < num(self.n))
        return i

    def elem(self, idx):
        return _c().int("byte", 0, 255)

    def __iter__(self):
        raise Unsupported("iteration over bytes of unknown length")

    def __getitem__(self, i):
        if isinstance(i, slice):
            k = _c().int("slicelen", lo=0)
            _c().assume(k.e <= num(self.n))
            return OpaqueBytes(k)
        e = num(i)
        if e is None:
            raise Unsupported("index")
        n = num(self.n)
        if not _c().branch(z3.And(e < n, e >= -n)):
            raise IndexError("index out of range")
        return _c().int("byte", 0, 255)

    def __setitem__(self, i, v):
        pass

    def decode(self, *a):
        if _c().choose("undecodable"):
            raise UnicodeDecodeError("utf8", b"", 0, 1, "symbolic")
        return OpaqueStr(_c().int("strlen", lo=0))

    def __eq__(self, o):
        return Opaque("byteseq")

    def __ne__(self, o):
        return Opaque("byteseq")

    def __hash__(self):
        return 11

    def __add__(self, o):
        return OpaqueBytes(self.n + b_len(o))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque("bytes." + n)

    def __bool__(self):
        return builtins.bool(self.n > 0)


class OpaqueStr(Opaque):
    __vc_ghost__ = True

    def __init__(self, n):
        Opaque.__init__(self, "str")
        self.n = n

    def vc_len(self):
        return self.n


def mkbytes(items, force=False):
    items = builtins.list(items)
    if not force and not any(isinstance(x, (SymNum, SymBool, Opaque)) for x in items):
        return builtins.bytes(builtins.bytearray(items))
    return SymBytes(items)


# ---------------------------------------------------------------- builtins
def b_int(*a, **k):
    if not a:
        return builtins.int(*a, **k)
    x = a[0]
    if builtins.len(a) == 2 and a[1] == 16 and isinstance(x, str) and core.CTX is not None and "\ue000" in x:
        us = units(x)
        if all(u[0] is not None if isinstance(u, builtins.tuple) else u in "0123456789abcdefABCDEF" for u in us):
            r = 0
            for u in us:
                r = r * 16 + (u[0] if isinstance(u, builtins.tuple) else builtins.int(u, 16))
            return wrap(z3.simplify(num(r)))
        raise Unsupported("int() of a text with base 16")
    if isinstance(x, (SymNum, SymBool)):
        return to_int(x)
    if isinstance(x, Opaque):
        if _c().choose("int() of unknown raises"):
            raise ValueError("invalid literal for int()")
        return _c().int("opaque_int")
    if isinstance(x, str) and core.CTX is not None:
        m = PH.fullmatch(x.strip())
        if m:
            v, spec = _c().ph[builtins.int(m.group(1))]
            if isinstance(v, SymNum):
                conv = spec[-1:]
                if conv in ("d", "i", "u") and "," not in spec and "_" not in spec:
                    return to_int(v)
                if conv in ("", "s") and v.is_int():
                    return v
                if conv in ("", "s", "f", "g", "e"):
                    raise ValueError("invalid literal for int() with base 10: the text of a real number")
                raise Unsupported("int() of a number formatted by %r" % spec)
            if _c().choose("int() of unknown raises"):
                raise ValueError("invalid literal for int()")
            return _c().int("opaque_int")
    return builtins.int(*a, **k)


def b_float(*a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, SymBool):
        x = x.asnum()
    if isinstance(x, SymNum):
        return wrap(toreal(x.e)) if x.is_int() else x
    if isinstance(x, Opaque):
        return x
    if isinstance(x, str) and core.CTX is not None:
        m = PH.fullmatch(x.strip())
        if m:
            v, spec = _c().ph[builtins.int(m.group(1))]
            if isinstance(v, SymNum):
                return b_float(v)
            return _c().real("opaque_float")
    return builtins.float(x)


def b_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], SymNum):
        return wrap(a[0].e != 0)
    return builtins.bool(*a)


def b_round(x, *nd):
    if isinstance(x, (SymNum, SymBool)):
        return round_(x, *nd)
    if isinstance(x, Opaque):
        return x
    return builtins.round(x, *nd)


def b_abs(x):
    if isinstance(x, SymBool):
        x = x.asnum()
    return builtins.abs(x)


def b_len(x):
    if isinstance(x, VList):
        return x.vc_total()
    if hasattr(x, "vc_len"):
        return x.vc_len()
    if isinstance(x, Opaque):
        return _c().int("opaque_len", lo=0)
    if isinstance(x, (str, builtins.bytes)) and core.CTX is not None:
        if isinstance(x, str) and "\ue000" in x or isinstance(x, builtins.bytes) and b"\xee\x80\x80" in x:
            lo = 0
            if isinstance(x, str) and not getattr(x, "vc_txt", False):
                us = units(x)
                if all(isinstance(u, str) or u[0] is not None for u in us):
                    return builtins.len(us)
                lo = builtins.sum(1 for u in us if isinstance(u, str) or u[0] is not None)
            key = ("phlen", x)
            r = _c().memo.get(key)
            if r is None:
                r = _c().memo[key] = _c().int("strlen", lo=lo)
            return r
    return builtins.len(x)


def b_range(*a):
    if any(isinstance(x, (SymNum, SymBool, Opaque)) for x in a):
        a = [(_c().int("opaque_n") if isinstance(x, Opaque) else x) for x in a]
        for x in a:
            if isinstance(x, SymNum) and not x.is_int():
                raise TypeError("'float' object cannot be interpreted as an integer")
        if builtins.len(a) == 1:
            return SymRange(0, a[0], 1)
        if builtins.len(a) == 2:
            return SymRange(a[0], a[1], 1)
        return SymRange(a[0], a[1], a[2])
    return builtins.range(*a)


mkslice = slice


def units(s):
    """the characters of a text holding symbolic parts: a character, one digit
    (value, base, weight) of a number of known width, or None for a part of
    unknown length"""
    out, p = [], 0
    for m in PH.finditer(s):
        out += builtins.list(s[p : m.start()])
        p = m.end()
        v, spec = _c().ph[builtins.int(m.group(1))]
        w = re.fullmatch(r"%?0?(\d*)([xX])", spec) if isinstance(v, SymNum) and v.is_int() else None
        n = builtins.int(w.group(1) or 1) if w else 0
        if n and _c()._check(z3.Not(z3.And(v.e >= 0, v.e < 16**n))) == z3.unsat:
            for k in builtins.range(n - 1, -1, -1):
                d = v if n == 1 else wrap((v.e / z3.IntVal(16**k)) % 16)
                out.append((d, (m.group(0), n, k), w.group(2)))
        else:
            out.append((None, m.group(0), None))
    return out + builtins.list(s[p:])


def joinunits(us):
    out, i = "", 0
    while i < builtins.len(us):
        u = us[i]
        if isinstance(u, str):
            out += u
        elif u[0] is None:
            out += u[1]
        else:
            tok, n, k = u[1]
            if k == n - 1 and [x[1] if isinstance(x, builtins.tuple) else None for x in us[i : i + n]] == [(tok, n, j) for j in builtins.range(n - 1, -1, -1)]:
                out += tok
                i += n
                continue
            out += _c().placeholder(u[0], "%" + u[2])
        i += 1
    return out


def strcut(a, i):
    """index or slice of a text holding symbolic parts"""
    us = units(a)
    known = all(isinstance(u, str) or u[0] is not None for u in us)
    first = builtins.next((k for k, u in builtins.enumerate(us) if not isinstance(u, str) and u[0] is None), builtins.len(us))
    last = builtins.next((k for k, u in builtins.enumerate(reversed(us)) if not isinstance(u, str) and u[0] is None), builtins.len(us))
    ints = lambda *v: all(x is None or isinstance(x, builtins.int) for x in v)
    if isinstance(i, slice) and i.step in (None, 1) and ints(i.start, i.stop):
        ok = lambda x: x is None or known or 0 <= x <= first or x < 0 and -x <= last
        if ok(i.start) and ok(i.stop):
            if known:
                return joinunits(us[i])
            # a place counted from the other side of an unknown part still names the same unit
            return joinunits(us[i.start if i.start is None or i.start <= first else None : i.stop])
    elif not isinstance(i, slice) and ints(i):
        if known or 0 <= i < first or i < 0 and -i <= last:
            return joinunits([us[i]])
    return _c().placeholder(Opaque("part of a text"), "s")


def getitem(a, i):
    if isinstance(a, str) and core.CTX is not None and "\ue000" in a and not getattr(a, "vc_txt", False):
        return strcut(a, i)
    if isinstance(i, SymNum) and type(a) in (dict, VDict) and not getattr(a, "vague", False):
        for k in a:
            if isinstance(k, builtins.int) and _c().branch(i.e == k):
                return a[k]
        raise KeyError(i)
    if isinstance(i, SymNum) and type(a) in (builtins.list, VList, builtins.tuple):
        c = _c()
        if c is not None and c.loose and getattr(a, "pre", None) is None:
            n = builtins.len(a)
            if not c.branch(z3.And(i.e < n, i.e >= -n)):
                raise IndexError("list index out of range")
            return Opaque("item")
        if c is not None and getattr(a, "pre", None) is None and i.is_int() and builtins.len(a) > 8:
            # a table of integers in arithmetic progression: the same element, in closed form
            n = builtins.len(a)
            if all(type(x) is builtins.int for x in a):
                d = a[1] - a[0]
                if all(a[k + 1] - a[k] == d for k in builtins.range(n - 1)):
                    if not c.branch(z3.And(i.e < n, i.e >= -n)):
                        raise IndexError("list index out of range")
                    k = i if c.branch(i.e >= 0) else i + n
                    return a[0] + d * k
    return a[i]


def b_enumerate(x, start=0):
    if isinstance(x, Opaque):
        x = iterable(x)
    if getattr(x, "__vc_seq__", False):
        return SymEnum(x, start)
    return builtins.enumerate(x, start)


def b_isinstance(x, t):
    ts = t if isinstance(t, builtins.tuple) else (t,)
    flat = []
    for u in ts:
        flat.extend(u if isinstance(u, builtins.tuple) else (u,))
    if isinstance(x, SymBool):
        return builtins.bool in flat or builtins.int in flat or object in flat
    if isinstance(x, SymNum):
        return (builtins.int if x.is_int() else builtins.float) in flat or object in flat
    if isinstance(x, SymBytes):
        return (builtins.bytearray if x.mutable else builtins.bytes) in flat
    if isinstance(x, (SymSeq, FList, SymArr, Ref)):
        return builtins.list in flat
    if isinstance(x, OpaqueStr):
        return str in flat
    if isinstance(x, Opaque):
        return builtins.bool(Opaque("isinstance"))
    return isinstance(x, t)


def _minmax(args, kw, lt):
    if kw:
        raise Unsupported("min/max with key")
    if builtins.len(args) == 1:
        if getattr(args[0], "__vc_seq__", False):
            raise Unsupported("min/max of symbolic sequence")
        args = builtins.list(args[0])
    r = args[0]
    for b in args[1:]:
        if any(isinstance(x, Opaque) for x in (r, b)):
            r = Opaque("minmax")
            continue
        c = lt(b, r)
        if isinstance(c, SymBool):
            m = ite(c.e, b, r)
            if m is None:
                m = b if builtins.bool(c) else r
            r = m
        elif c:
            r = b
    return r


def b_min(*a, **k):
    seq = a[0] if builtins.len(a) == 1 else a
    if any(is_sym(x) or isinstance(x, Opaque) for x in seq) if not getattr(seq, "__vc_seq__", 0) else True:
        return _minmax(a, k, lambda x, y: x < y)
    return builtins.min(*a, **k)


def b_max(*a, **k):
    seq = a[0] if builtins.len(a) == 1 else a
    if any(is_sym(x) or isinstance(x, Opaque) for x in seq) if not getattr(seq, "__vc_seq__", 0) else True:
        return _minmax(a, k, lambda x, y: x > y)
    return builtins.max(*a, **k)


def b_bytearray(*a):
    if not a and core.CTX is not None and core.CTX.bytes_factory is not None:
        return core.CTX.bytes_factory()
    if builtins.len(a) == 1:
        x = a[0]
        if isinstance(x, SymBytes):
            return SymBytes(x.items, True)
        if isinstance(x, FBytes):
            return x[:]
        if isinstance(x, (OpaqueBytes, Opaque)):
            return x
        if isinstance(x, SymNum):
            return OpaqueBytes(x)
        if isinstance(x, (builtins.list, builtins.tuple)) and not isinstance(x, LogList):
            if any(isinstance(v, (SymNum, SymBool, Opaque)) for v in x):
                for v in x:
                    check_byte(v) if isinstance(v, (SymNum, SymBool)) else (None if isinstance(v, Opaque) else builtins.bytes([v]))
                return SymBytes(x, True)
    return builtins.bytearray(*a)


def b_bytes(*a):
    if builtins.len(a) == 1:
        x = a[0]
        if isinstance(x, SymBytes):
            return SymBytes(x.items, False)
        if isinstance(x, (OpaqueBytes,)):
            return x
        if isinstance(x, FBytes):
            return x[:]
        if isinstance(x, Opaque):
            raise TypeError("string argument without an encoding")
        if isinstance(x, (builtins.list, builtins.tuple)):
            r = b_bytearray(x)
            if isinstance(r, SymBytes):
                return SymBytes(r.items, False)
    elif hasattr(a[0], "vc_encode"):
        return a[0].vc_encode(*a[1:])
    elif isinstance(a[0], Opaque):
        return OpaqueBytes(_c().int("enclen", lo=0))
    return builtins.bytes(*a)


def b_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def b_str(*a):
    if builtins.len(a) == 1 and getattr(a[0], "vc_txt", False):
        return a[0]
    if builtins.len(a) == 1 and isinstance(a[0], (SymNum, SymBool, Opaque)):
        if isinstance(a[0], OpaqueStr):
            return a[0]
        return _c().placeholder(a[0], "s")
    return builtins.str(*a)


def b_chr(x):
    if isinstance(x, (SymNum, Opaque)):
        return _c().placeholder(Opaque("chr"), "s")
    return builtins.chr(x)


def b_ord(x):
    if isinstance(x, Opaque):
        return _c().int("ord", 0)
    return builtins.ord(x)


def b_reversed(x):
    if getattr(x, "__vc_seq__", False):
        raise Unsupported("reversed symbolic sequence")
    return builtins.reversed(x)


def b_sorted(x, **k):
    if hasattr(x, "vc_sorted"):
        return x.vc_sorted(**k)
    if getattr(x, "__vc_seq__", False):
        raise Unsupported("sorted symbolic sequence")
    return builtins.sorted(x, **k)


def b_list(*a):
    if not a:
        return VList()
    if a and getattr(a[0], "__vc_seq__", False):
        return a[0]
    return builtins.list(*a)


def b_tuple(*a):
    if a and getattr(a[0], "__vc_seq__", False):
        return a[0]
    return builtins.tuple(*a)


FMT = re.compile(r"%(\(\w+\))?([-+ #0]*)(\*|\d+)?(\.\d+)?([diouxXeEfFgGcrs%])")


def mod(a, b):
    if isinstance(a, Opaque) or (isinstance(b, Opaque) and not isinstance(a, (str, builtins.bytes))):
        return Opaque("mod")
    if isinstance(a, (str, builtins.bytes)):
        args = b if isinstance(b, builtins.tuple) else (b,)
        if any(isinstance(x, (SymNum, SymBool, Opaque)) for x in args):
            it = iter(args)

            def rep(m):
                if m.group(5) == "%":
                    return "%"
                v = next(it)
                if isinstance(v, SymBool):
                    v = v.asnum()
                if isinstance(v, (SymNum, Opaque)):
                    return _c().placeholder(v, m.group(0))
                return m.group(0) % (v,)

            if isinstance(a, builtins.bytes):
                return OpaqueBytes(_c().int("fmtlen", lo=0))
            return FMT.sub(rep, a)
        return a % b
    if isinstance(a, (SymNum, SymBool)) or isinstance(b, (SymNum, SymBool)):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("mod")
        if isinstance(b, SymNum) and _c().loose:
            if not _c().branch(b.e != 0):
                raise ZeroDivisionError("modulo by zero")
            return Opaque("mod")
        return sym_mod(a, b)
    return a % b


# ---------------------------------------------------------------- if merging
def cond(sid, v):
    if isinstance(v, SymNum):
        v = wrap(v.e != 0)
    if isinstance(v, SymBool):
        if sid in _c().x.no_merge or _c().merge_off:
            return builtins.bool(v)
        return v
    return builtins.bool(v)


def save(loc, names):
    return {n: loc.get(n, UNBOUND) for n in names}


def merge_in(sid):
    _c().merge_depth.append(sid)


def merge_out(sid):
    d = _c().merge_depth
    if d and d[-1] == sid:
        d.pop()


def merge_fail(sid):
    raise MergeAbort(sid)


def merge(sid, c, t, e, n):
    a, b = t[n], e[n]
    if a is b:
        return a
    if a is UNBOUND or b is UNBOUND:
        raise MergeAbort(sid)
    r = ite(c.e, a, b)
    if r is None:
        raise MergeAbort(sid)
    return r


# ---------------------------------------------------------------- loops
def kind_of(v):
    if v is None:
        return "none"
    if isinstance(v, (builtins.bool, SymBool)):
        return "bool"
    if isinstance(v, builtins.int):
        return "int"
    if isinstance(v, builtins.float):
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        return "real"
    if isinstance(v, SymNum):
        return "int" if v.is_int() else "real"
    if isinstance(v, Opaque):
        return "opaque"
    if isinstance(v, str):
        return "str"
    if isinstance(v, VList):
        return "vlist"
    return "obj"


class LoopSpec(object):
    """Loop contract.  Subclasses override what they need."""

    unroll = False
    infer = True  # infer simple invariants (Houdini) over scalar state
    roots = ()  # extra heap roots: list of (name, object)
    frame = True
    join = False  # havoc a value that is an int or a real as a real
    rich = True  # also the templates neg, half, halfneg
    tracked = True  # symbolic lists must not change unless the spec says how

    def ghosts(self, phase, run):
        """name -> numeric value; phase in entry/head/back"""
        return {}

    def on_entry(self, run):
        pass

    def on_head(self, run):
        pass

    def on_elem(self, run, idx, elem):
        pass

    def pre_back(self, run, env):
        pass

    def on_back(self, run, env):
        pass

    def on_leave(self, run, env):
        pass

    def on_tick(self, run, env):
        pass

    def havoc(self, run, name, v0):
        return NotImplemented

    def candidates(self, run, name, kind, v):
        """extra invariant candidates: list of (key, z3 bool / SymBool)"""
        return []

    def pairs(self, run, vals):
        """relational candidates over all scalar values; list of (key, bool)"""
        return []


def _walk(root, path, out, seen, depth=0):
    if id(root) in seen or depth > 8:
        return
    if isinstance(root, (types.ModuleType, type, types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
        return
    if getattr(root, "__vc_ghost__", False) or isinstance(root, (SymNum, SymBool, Opaque, str, builtins.int, builtins.float, builtins.bytes)) or root is None:
        return
    if isinstance(root, VList) and root.pre is not None:
        seen.add(id(root))
        out.append((path, root, root.tail()))
    elif isinstance(root, builtins.list):
        seen.add(id(root))
        out.append((path, root, builtins.list(root)))
        for i, v in builtins.enumerate(root):
            _walk(v, path + (i,), out, seen, depth + 1)
    elif isinstance(root, builtins.tuple):
        seen.add(id(root))
        for i, v in builtins.enumerate(root):
            _walk(v, path + (i,), out, seen, depth + 1)
    elif isinstance(root, VDict) and root.vague:
        seen.add(id(root))
        out.append((path, root, None))
    elif isinstance(root, dict):
        seen.add(id(root))
        out.append((path, root, dict(root)))
        for k, v in builtins.list(root.items()):
            _walk(v, path + (("key", k),), out, seen, depth + 1)
    elif hasattr(root, "__dict__") and type(root).__module__.startswith("pyembroidery"):
        seen.add(id(root))
        out.append((path, root, dict(root.__dict__)))
        for k, v in builtins.list(root.__dict__.items()):
            _walk(v, path + (("attr", k),), out, seen, depth + 1)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SymNum) and isinstance(b, SymNum):
        return a.e.eq(b.e)
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a.e.eq(b.e)
    if isinstance(a, (builtins.int, builtins.float, str, builtins.bytes, builtins.bool)) and type(a) == type(b):
        return a == b
    return False


def signature(v, depth=0, seen=None):
    """what a loop body can see of a value once path conditions are dropped;
    constants numbered up to seen["known"] keep their names"""
    seen = seen if seen is not None else {}
    if id(v) in seen:
        return ("again", seen[id(v)])
    if v is None or isinstance(v, (builtins.bool, builtins.int, builtins.float, str, builtins.bytes)):
        return repr(v)
    if isinstance(v, (SymNum, SymBool)):
        e = v.e
        if z3.is_const(e) and not ("known" in seen and e.decl().name().rpartition("!")[2].isdigit() and builtins.int(e.decl().name().rpartition("!")[2]) <= seen["known"]):
            return "sym%d:%s" % (seen.setdefault(("e", e.get_id()), builtins.len(seen)), e.sort())
        return e.sexpr()
    seen[id(v)] = builtins.len(seen)
    if isinstance(v, Opaque):
        return "opaque"
    if getattr(v, "__vc_ghost__", False) or isinstance(v, (types.ModuleType, type, types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
        return ("ghost", type(v).__name__, getattr(v, "__qualname__", getattr(v, "__name__", "")))
    if depth > 5:
        return ("deep", id(v))
    if isinstance(v, VList) and v.pre is not None:
        return ("vlist", [signature(x, depth + 1, seen) for x in v.tail()])
    if isinstance(v, (builtins.list, builtins.tuple)):
        return (type(v).__name__, [signature(x, depth + 1, seen) for x in v])
    if isinstance(v, dict):
        return ("dict", [(repr(k), signature(x, depth + 1, seen)) for k, x in v.items()])
    if hasattr(v, "__dict__"):
        return (type(v).__name__, signature(v.__dict__, depth + 1, seen))
    return type(v).__name__


class LoopRun(object):
    def __init__(self, spec, sid, loc, it=None):
        self.spec = spec
        self.sid = sid
        self.site = site_info(sid)
        self.key = (self.site["short"], self.site["kind"], self.site["ord"])
        self.it = it
        self.exited = False
        self.unroll = spec.unroll
        self.entry = {k: v for k, v in loc.items() if not k.startswith("__vc")}
        self.c = _c()
        self.x = self.c.x
        self.hvals = {}
        self.names = [n for n in self.site["names"]]
        self.iter_index = None
        self.elem = None
        self.count = 0 if hasattr(it, "vc_len") else None
        # heap locations found (by the frame check) to be modified
        self.locs = builtins.list(self.x.framed.setdefault(self.key, []))
        spec.on_entry(self)
        self.entry_ghost = self._ghosts("entry")
        self._learn_kinds("entry", self.entry)
        vals = self._values(self.entry, locs=True)
        self._check("entry", vals, self.entry_ghost)

    def _ghosts(self, phase):
        g = dict(self.spec.ghosts(phase, self))
        if self.count is not None:
            g["#"] = self.count
        return g

    # --- scalar state = modified locals + modified heap locations
    def resolve(self, path, env):
        o = env[path[0]] if path[0] in env else dict(self.spec.roots)[path[0]]
        for p in path[1:-1]:
            o = self._step(o, p)
        return o, path[-1]

    @staticmethod
    def _step(o, p):
        if isinstance(p, builtins.tuple):
            return getattr(o, p[1]) if p[0] == "attr" else o[p[1]]
        return builtins.list.__getitem__(o, p) if isinstance(o, builtins.list) else o[p]

    def getloc(self, path, env):
        o, p = self.resolve(path, env)
        if p == ("len",):
            return o.vc_total()
        if p == ("vague",):
            return UNBOUND
        if isinstance(p, builtins.tuple):
            return o.__dict__.get(p[1], UNBOUND) if p[0] == "attr" else o.get(p[1], UNBOUND)
        return o[p]

    def setloc(self, path, env, v):
        o, p = self.resolve(path, env)
        if p == ("len",):
            o.vc_open(v)
            self.c.assume(num(v) >= 0)
        elif isinstance(p, builtins.tuple):
            if p[0] == "attr":
                o.__dict__[p[1]] = v
            else:
                o[p[1]] = v
        else:
            o[p] = v

    def _values(self, env, locs=True):
        out = {}
        for n in self.names:
            if n in env:
                out[n] = env[n]
                if isinstance(env[n], VList):
                    out[(n, "len")] = env[n].vc_total()
        if locs:
            for p in self.locs:
                try:
                    out[p] = self.getloc(p, env)
                except (KeyError, IndexError, AttributeError):
                    out[p] = UNBOUND
        return out

    def _kinds(self, n):
        return self.x.kinds.setdefault((self.key, n), [])

    def _learn_kinds(self, phase, env):
        dirty = False
        for n, v in self._values(env).items():
            if isinstance(n, builtins.tuple) and n[-1] == "len":
                continue
            if phase == "back" and n not in self.entry and n in self.names:
                # not bound before the loop: value cannot flow from entry
                pass
            k = kind_of(v)
            ks = self._kinds(n)
            if k in ("obj", "str"):
                old = self.entry.get(n) if n in self.names else None
                if phase == "back":
                    hv = self.hvals.get(n, UNBOUND)
                    if hv is not v:
                        k = "opaque"
            if k not in ks:
                ks.append(k)
                if phase == "back":
                    dirty = True
        return dirty

    def h(self, name):
        v0 = self.entry.get(name, UNBOUND)
        r = self.spec.havoc(self, name, v0)
        if r is NotImplemented:
            if name not in self.entry:
                r = UNBOUND
            else:
                r = self._fresh(name, v0)
        self.hvals[name] = r
        return r

    def _fresh(self, name, v0):
        c = self.c
        ks = self._kinds(name)
        label = name if isinstance(name, str) else ".".join(builtins.str(p[-1] if isinstance(p, builtins.tuple) else p) for p in name)
        opts = builtins.list(ks)
        if self.spec.join and "int" in opts and "real" in opts:
            # an integer is a real number as far as the operations pyvc allows on reals go
            opts.remove("int")
        k = opts[-1]
        for o in opts[:-1]:
            if c.choose("kind_" + label):
                k = o
                break
        if k == "none":
            return None
        if k in ("inf", "-inf"):
            return builtins.float(k)
        if k == "vlist":
            r = VList()
            r.vc_open(c.int("len_" + label, lo=0))
            return r
        if k == "int":
            return c.int(label, inp=True)
        if k == "real":
            return c.real(label, inp=True)
        if k == "bool":
            return c.bool(label, inp=True)
        if k in ("obj", "str"):
            return v0
        return Opaque(label)

    def _templates(self, n, v, ghost, dropped=()):
        out = []
        rich = self.spec.rich
        k = kind_of(v)
        lab = builtins.str(n)
        if k in ("int", "real"):
            e = num(v)
            for g, gv in ghost.items():
                if gv is None or isinstance(gv, (builtins.bool, SymBool)):
                    continue
                live = [t for t in ("eq", "neg", "half", "halfneg")[: 4 if rich else 1] if (t, lab, g) not in dropped]
                if not live:
                    continue
                p = pair(v, gv)
                if p is None:
                    continue
                a, b = p
                if "eq" in live:
                    out.append((("eq", lab, g), a == b))
                if "neg" in live:
                    out.append((("neg", lab, g), a == -b))
                if "half" in live:
                    out.append((("half", lab, g), z3.And(2 * a - 2 * b <= 1, 2 * b - 2 * a <= 1)))
                if "halfneg" in live:
                    out.append((("halfneg", lab, g), z3.And(2 * a + 2 * b <= 1, -2 * b - 2 * a <= 1)))
            if ("ge0", lab) not in dropped:
                out.append((("ge0", lab), e >= 0))
            if ("ge-1", lab) not in dropped:
                out.append((("ge-1", lab), e >= -1))
            ev = self.entry.get(n) if n in self.entry else None
            if isinstance(ev, (builtins.int, builtins.float)) and not isinstance(ev, builtins.bool) and ("const", lab) not in dropped:
                p = pair(v, ev)
                if p is not None:
                    out.append((("const", lab), p[0] == p[1]))
        elif k == "bool":
            e = v.e if isinstance(v, SymBool) else z3.BoolVal(v)
            if ("true", lab) not in dropped:
                out.append((("true", lab), e))
            if ("false", lab) not in dropped:
                out.append((("false", lab), z3.Not(e)))
            for g, gv in ghost.items():
                if isinstance(gv, (builtins.bool, SymBool)) and ("iff", lab, g) not in dropped:
                    b = gv.e if isinstance(gv, SymBool) else z3.BoolVal(gv)
                    out.append((("iff", lab, g), e == b))
        return out

    def _cands(self, vals, ghost):
        if not self.spec.infer:
            return []
        dropped = self.x.houdini.setdefault(self.key, set())
        out = []
        for n, v in vals.items():
            if v is UNBOUND:
                continue
            for key, e in self._templates(n, v, ghost, dropped) + builtins.list(self.spec.candidates(self, n, kind_of(v), v)):
                if key not in dropped:
                    out.append((key, e.e if isinstance(e, SymBool) else (z3.BoolVal(e) if isinstance(e, builtins.bool) else e)))
        for key, e in self.spec.pairs(self, vals):
            if key not in dropped:
                if isinstance(e, types.FunctionType):
                    e = e()
                out.append((key, e.e if isinstance(e, SymBool) else (z3.BoolVal(e) if isinstance(e, builtins.bool) else e)))
        return out

    def _check(self, phase, vals, ghost):
        """prove the inferred invariants at entry / back edge; candidates that
        fail are dropped and the exploration is repeated."""
        c = self.c
        cands = self._cands(vals, ghost)
        if not cands or c.replaying():
            if c.replaying():
                for _, e in cands:
                    c.solver.add(e)
            return
        es = [e for _, e in cands]
        r = c._check(z3.Not(z3.And(es)))
        if r == z3.unsat:
            for key, e in cands:
                self.x.record(Obligation("%s/%s/inv(%s)@%s" % (self.x.name, self.site["short"], "-".join(map(builtins.str, key)), phase), "discharged", "z3", 0.0))
                c.solver.add(e)
            return
        bad = []
        for key, e in cands:
            if c._check(z3.Not(e)) != z3.unsat:
                bad.append(key)
        if not bad:
            # conjunction unknown but each proved
            for key, e in cands:
                self.x.record(Obligation("%s/%s/inv(%s)@%s" % (self.x.name, self.site["short"], "-".join(map(builtins.str, key)), phase), "discharged", "z3", 0.0))
            return
        self.x.houdini[self.key].update(bad)
        self.x.dirty = True

    def head(self, loc):
        """called after the havoc assignments; loc = current locals"""
        self.cur = {k: v for k, v in loc.items() if not k.startswith("__vc")}
        for p in self.locs:
            if p[-1] == ("vague",):
                self.resolve(p, self.cur)[0].vc_vague()
                continue
            try:
                v0 = self.getloc(p, self.cur)
            except (KeyError, IndexError, AttributeError):
                continue
            r = self.spec.havoc(self, p, v0)
            if r is NotImplemented:
                r = self._fresh(p, v0)
            self.hvals[p] = r
            self.setloc(p, self.cur, r)
        if self.count is not None:
            self.count = self.c.int("iteration", lo=0)
            self.c.assume(self.count.e <= num(self.it.vc_len()))
        self.spec.on_head(self)
        ghost = self._ghosts("head")
        vals = self._values(self.cur)
        for key, e in self._cands(vals, ghost):
            self.c.assume(e)
        self.snap = self._snapshot(self.cur)
        self.tracked = [(o, o.vc_state(), (o.__dict__.copy())) for o in self.c.tracked] if self.spec.frame and self.spec.tracked else []
        self.x.cover(self.site["short"] + "/loop-head")

    def _snapshot(self, env):
        if not self.spec.frame:
            return []
        out, seen = [], set()
        for n in sorted(env):
            if n in self.names:
                continue
            _walk(env[n], (n,), out, seen)
        for n, o in self.spec.roots:
            _walk(o, (n,), out, seen)
        return out

    def _frame(self, env):
        """find modified heap locations; returns True when new ones appear"""
        for o, st, keep in self.tracked:
            if o.vc_state() != st:
                raise Unsupported("frame: %s changes in loop %s, which has no contract for it" % (o.name, self.key))
        new = []
        for path, obj, old in self.snap:
            if isinstance(obj, VList):
                now = obj.tail()
                if builtins.len(now) < builtins.len(old) or (obj.pre is None) and builtins.len(now) != builtins.len(old) and builtins.len(path) < 1:
                    raise Unsupported("frame: list at %r shrinks in loop %s" % (path, self.key))
                if builtins.len(now) != builtins.len(old):
                    if path + (("len",),) not in self.x.framed[self.key]:
                        new.append(path + (("len",),))
                    continue
                for i, (a, b) in builtins.enumerate(zip(old, now)):
                    if not same(a, b):
                        new.append(path + (i,))
            elif isinstance(obj, builtins.list):
                if builtins.len(obj) != builtins.len(old):
                    raise Unsupported("frame: list at %r changes length in loop %s" % (path, self.key))
                for i, (a, b) in builtins.enumerate(zip(old, obj)):
                    if not same(a, b):
                        new.append(path + (i,))
            elif isinstance(obj, VDict) and (obj.vague or self.c.loose):
                if old is not None and (obj.vague or builtins.list(dict.keys(obj)) != builtins.list(old) or not all(same(old[k], dict.__getitem__(obj, k)) for k in old)):
                    if path + (("vague",),) not in self.x.framed[self.key]:
                        new.append(path + (("vague",),))
            else:
                now = obj if isinstance(obj, dict) else obj.__dict__
                tag = "key" if isinstance(obj, dict) else "attr"
                for k in set(old) | set(now):
                    if k not in old or k not in now:
                        raise Unsupported("frame: key %r appears/disappears at %r in loop %s" % (k, path, self.key))
                    if not same(old[k], now[k]):
                        new.append(path + ((tag, k),))
        fr = self.x.framed[self.key]
        dirty = False
        for p in new:
            if p not in fr:
                fr.append(p)
                ks = self.x.kinds.setdefault((self.key, p), [])
                # kinds: head value and current value
                o, q = None, None
                for path, obj, old in self.snap:
                    if p[-1] == ("vague",):
                        break
                    if p[-1] == ("len",):
                        if "int" not in ks:
                            ks.append("int")
                        break
                    if path == p[:-1]:
                        last = p[-1]
                        old_v = old[last[1]] if isinstance(last, builtins.tuple) else old[last]
                        k = kind_of(old_v)
                        if k not in ks:
                            ks.append(k)
                dirty = True
        return dirty

    def more(self, it):
        if self.count is None:
            return self.c.choose("more")
        return self.c.branch(num(self.count) < num(it.vc_len()))

    def oneshot(self, it):
        idx = self.count if self.count is not None else it.index()
        self.iter_index = idx
        e = it.elem(idx)
        self.elem = e
        self.spec.on_elem(self, idx, e)
        yield e

    def oneshot_while(self):
        yield None

    def back(self, loc):
        env = {k: v for k, v in loc.items() if not k.startswith("__vc")}
        self.x.cover(self.site["short"] + "/loop-back")
        dirty = self._learn_kinds("back", env)
        if self.spec.frame and self._frame(env):
            dirty = True
        if dirty:
            self.x.dirty = True
            raise PathEnd()
        if self.count is not None:
            self.count = self.count + 1
        self.spec.pre_back(self, env)
        ghost = self._ghosts("back")
        self.spec.on_back(self, env)
        self._check("back", self._values(env), ghost)
        raise PathEnd()

    def leave(self, loc):
        env = {k: v for k, v in loc.items() if not k.startswith("__vc")}
        self.spec.on_leave(self, env)

    # unrolled (chunk-driven) loops
    def tick(self, loc):
        env = {k: v for k, v in loc.items() if not k.startswith("__vc")}
        self.spec.on_tick(self, env)


def iterable(x):
    if isinstance(x, Opaque):
        return SymSeq("opaque", lambda i: Opaque("elem"))
    if isinstance(x, VList) and x.pre is not None:
        return SymSeq("partly known list", lambda i: Opaque("elem"), length=x.vc_total())
    return x


def for_enter(sid, it, loc):
    c = _c()
    if c is None:
        return None
    spec = None
    if c.policy is not None:
        spec = c.policy(site_info(sid), it, loc)
    if spec is None:
        if isinstance(it, Opaque):
            spec = LoopSpec()
        elif getattr(it, "__vc_seq__", False):
            if isinstance(it, SymRange) and c.unroll_ranges:
                return None
            spec = LoopSpec()
        else:
            return None
    return LoopRun(spec, sid, loc, it)


def native_iter(L, sid, it):
    if isinstance(it, Opaque):
        raise Unsupported("iteration over an opaque value")
    if core.CTX is None:
        return it
    return _fuel_iter(it)


def _fuel_iter(it):
    for x in it:
        c = _c()
        c.fuel -= 1
        if c.fuel < 0:
            raise Unsupported("too many unrolled iterations")
        yield x


def while_enter(sid, loc):
    c = _c()
    if c is None or c.policy is None:
        return None
    spec = c.policy(site_info(sid), None, loc)
    if spec is None:
        return None
    return LoopRun(spec, sid, loc)


def tick(L, sid, loc):
    c = _c()
    if c is None:
        return True
    c.fuel -= 1
    if c.fuel < 0:
        raise Unsupported("too many unrolled iterations of a while loop")
    if L is not None:
        L.tick(loc)
    return True
