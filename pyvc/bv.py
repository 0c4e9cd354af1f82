"""Bit-vector back end for bounded integer queries.

An Int query is translated to bit-vectors of one width W chosen, by interval
analysis, large enough that no subterm can overflow; the translation is then
exact.  Hypotheses that mention unbounded variables or unsupported operators
are dropped (sound for proving).  Only `unsat` answers are used as proofs.
"""
import z3

INF = None


class No(Exception):
    pass


def flatten(asserts):
    out = []
    st = list(asserts)
    while st:
        a = st.pop()
        if z3.is_and(a):
            st.extend(a.children())
        else:
            out.append(a)
    return out


def bounds(asserts):
    lo, hi = {}, {}

    def upd(d, v, c, f):
        d[v] = c if v not in d else f(d[v], c)

    for a in asserts:
        neg = False
        while z3.is_not(a):
            a = a.arg(0)
            neg = not neg
        k = a.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            continue
        x, y = a.arg(0), a.arg(1)
        if k == z3.Z3_OP_EQ and neg:
            continue
        if x.sort() != z3.IntSort():
            continue
        ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "="}
        op = ops[k]
        if neg:
            op = {"<=": ">", ">=": "<", "<": ">=", ">": "<="}[op]
        if z3.is_int_value(x) and is_var(y):
            x, y = y, x
            op = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "=": "="}[op]
        if is_var(x) and z3.is_int_value(y):
            c = y.as_long()
            n = x.decl().name()
            if op in ("<=", "<", "="):
                upd(hi, n, c - (op == "<"), min)
            if op in (">=", ">", "="):
                upd(lo, n, c + (op == ">"), max)
    return lo, hi


def is_var(e):
    return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED


def bitty(e, limit=4000):
    """does the term contain div / mod (by constants) ?"""
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > limit:
            return True
        if x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return True
        st.extend(x.children())
    return False


class Interval(object):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.memo = {}
        self.maxabs = 1
        self.keep = []

    def iv(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._iv(e)
            self.memo[k] = r
            self.keep.append(e)
            self.maxabs = max(self.maxabs, abs(r[0]), abs(r[1]))
        return r

    def _iv(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            return v, v
        if is_var(e):
            n = e.decl().name()
            if n in self.lo and n in self.hi and e.sort() == z3.IntSort():
                return self.lo[n], self.hi[n]
            raise No("unbounded " + n)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            l = h = 0
            for c in ch:
                a, b = self.iv(c)
                l, h = l + a, h + b
                self.maxabs = max(self.maxabs, abs(l), abs(h))
            return l, h
        if k == z3.Z3_OP_SUB:
            l, h = self.iv(ch[0])
            for c in ch[1:]:
                a, b = self.iv(c)
                l, h = l - b, h - a
                self.maxabs = max(self.maxabs, abs(l), abs(h))
            return l, h
        if k == z3.Z3_OP_UMINUS:
            a, b = self.iv(ch[0])
            return -b, -a
        if k == z3.Z3_OP_MUL:
            l, h = self.iv(ch[0])
            for c in ch[1:]:
                a, b = self.iv(c)
                p = [l * a, l * b, h * a, h * b]
                l, h = min(p), max(p)
                self.maxabs = max(self.maxabs, abs(l), abs(h))
            return l, h
        if k == z3.Z3_OP_ITE:
            self.bool(ch[0])
            a, b = self.iv(ch[1])
            c, d = self.iv(ch[2])
            return min(a, c), max(b, d)
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            if not z3.is_int_value(ch[1]) or ch[1].as_long() <= 0:
                raise No("division")
            d = ch[1].as_long()
            self.maxabs = max(self.maxabs, d)
            a, b = self.iv(ch[0])
            if k == z3.Z3_OP_IDIV:
                return a // d, b // d
            if k == z3.Z3_OP_MOD:
                return 0, d - 1
        raise No("op %s" % e.decl().name())

    def bool(self, e):
        k = ("b", e.get_id())
        if k in self.memo:
            return
        self.keep.append(e)
        if z3.is_true(e) or z3.is_false(e):
            pass
        elif is_var(e):
            pass
        else:
            kd = e.decl().kind()
            ch = e.children()
            if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
                for c in ch:
                    self.bool(c)
            elif kd in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                for c in ch:
                    if c.sort() == z3.BoolSort():
                        self.bool(c)
                    elif c.sort() == z3.IntSort():
                        self.iv(c)
                    else:
                        raise No("sort")
            elif kd == z3.Z3_OP_ITE and e.sort() == z3.BoolSort():
                for c in ch:
                    self.bool(c)
            else:
                raise No("bool op %s" % e.decl().name())
        self.memo[k] = True


class Trans(object):
    def __init__(self, iv, w):
        self.iv = iv
        self.w = w
        self.memo = {}
        self.vars = {}

    def t(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._t(e)
        return r

    def _t(self, e):
        w = self.w
        if z3.is_int_value(e):
            return z3.BitVecVal(e.as_long(), w)
        if is_var(e):
            n = e.decl().name()
            v = self.vars.get(n)
            if v is None:
                v = self.vars[n] = (e, z3.BitVec("bv_" + n, w))
            return v[1]
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = self.t(ch[0])
            for c in ch[1:]:
                r = r + self.t(c)
            return r
        if k == z3.Z3_OP_SUB:
            r = self.t(ch[0])
            for c in ch[1:]:
                r = r - self.t(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.t(ch[0])
        if k == z3.Z3_OP_MUL:
            r = self.t(ch[0])
            for c in ch[1:]:
                r = r * self.t(c)
            return r
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.t(ch[1]), self.t(ch[2]))
        d = ch[1].as_long()
        a = self.t(ch[0])
        if d & (d - 1) == 0:
            s = d.bit_length() - 1
            if k == z3.Z3_OP_IDIV:
                return a >> s
            return a & z3.BitVecVal(d - 1, w)
        dv = z3.BitVecVal(d, w)
        rem = z3.SRem(a, dv)
        if k == z3.Z3_OP_MOD:
            return z3.If(rem < 0, rem + dv, rem)
        q = a / dv
        return z3.If(rem < 0, q - 1, q)

    def b(self, e):
        k = ("b", e.get_id())
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._b(e)
        return r

    def _b(self, e):
        if z3.is_true(e) or z3.is_false(e) or is_var(e):
            return e
        kd = e.decl().kind()
        ch = e.children()
        if kd == z3.Z3_OP_AND:
            return z3.And([self.b(c) for c in ch])
        if kd == z3.Z3_OP_OR:
            return z3.Or([self.b(c) for c in ch])
        if kd == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if kd == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if kd == z3.Z3_OP_XOR:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if kd == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        f = self.b if ch[0].sort() == z3.BoolSort() else self.t
        a = [f(c) for c in ch]
        if kd == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if kd == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*a)
        if kd == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if kd == z3.Z3_OP_LT:
            return a[0] < a[1]
        if kd == z3.Z3_OP_GE:
            return a[0] >= a[1]
        return a[0] > a[1]


def _pow2(e):
    if z3.is_int_value(e):
        v = e.as_long()
        if v > 0 and v & (v - 1) == 0:
            return v.bit_length() - 1
    return None


def residues(terms, lo, hi):
    """(v div 2^k) mod 2^m of an unbounded v depends only on v mod 2^(k+m):
    replace v there by a fresh r, 0 <= r < 2^K (K the largest k+m), which
    stands for v mod 2^K."""
    need = {}

    def pat(e):
        if e.decl().kind() != z3.Z3_OP_MOD:
            return None
        m = _pow2(e.arg(1))
        if m is None:
            return None
        x = e.arg(0)
        if x.decl().kind() == z3.Z3_OP_IDIV and is_var(x.arg(0)):
            k = _pow2(x.arg(1))
            if k is None:
                return None
            return x.arg(0), k, m
        if is_var(x):
            return x, 0, m
        return None

    seen, st = set(), list(terms)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        p = pat(x) if x.num_args() == 2 else None
        if p is not None:
            n = p[0].decl().name()
            if not (n in lo and n in hi):
                need[n] = max(need.get(n, 0), p[1] + p[2])
        st.extend(x.children())
    if not need:
        return terms, {}
    memo = {}

    def rw(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        r = e
        p = pat(e) if e.num_args() == 2 else None
        if p is not None and p[0].decl().name() in need:
            v = z3.Int("res_" + p[0].decl().name())
            a = v / z3.IntVal(1 << p[1]) if p[1] else v
            r = a % z3.IntVal(1 << p[2])
        elif e.num_args():
            ch = [rw(c) for c in e.children()]
            if any(not a.eq(b) for a, b in zip(ch, e.children())):
                r = rebuild(e, ch)
        memo[i] = (e, r)
        return r

    return [rw(t) for t in terms], {"res_" + n: k for n, k in need.items()}


def rebuild(e, ch):
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_AND:
        return z3.And(ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return e.decl()(*ch)


_VARS = {}  # id -> (term, names of its constants and functions)


def names(e):
    """names of the uninterpreted constants and functions of a term"""
    r = _VARS.get(e.get_id())
    if r is not None:
        return r[1]
    if len(_VARS) > 300000:
        _VARS.clear()
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        q = _VARS.get(i)
        if q is not None:
            out |= q[1]
            continue
        if not z3.is_app(x):
            continue
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(d.name())
        st.extend(x.children())
    r = frozenset(out)
    _VARS[e.get_id()] = e, r
    return r


def related(hy, gn):
    """the hypotheses that share constants with the goal, directly or through
    other hypotheses"""
    vs = set()
    for g in gn:
        vs |= names(g)
    rest = [(h, names(h)) for h in hy]
    out = []
    while True:
        more = [(h, n) for h, n in rest if n & vs]
        if not more:
            return out
        ids = {h.get_id() for h, n in more}
        out += [h for h, n in more]
        for h, n in more:
            vs |= n
        rest = [(h, n) for h, n in rest if h.get_id() not in ids]


def solve(hyps, goal_neg, ms, maxw=80):
    """'unsat' | 'sat' | 'unknown' | 'no' for hyps /\\ goal_neg; a 'sat' is
    only reported as such when no hypothesis was dropped."""
    hy = flatten(hyps)
    gn = flatten([goal_neg])
    near = related(hy, gn)
    if len(near) < len(hy):
        r = _solve(near, gn, ms, maxw)
        if r[0] == "unsat":
            return r
    return _solve(hy, gn, ms, maxw)


def _solve(hy, gn, ms, maxw):
    lo, hi = bounds(hy + gn)
    both, res = residues(hy + gn, lo, hi)
    hy, gn = both[: len(hy)], both[len(hy) :]
    for n, k in res.items():
        lo[n], hi[n] = 0, (1 << k) - 1
    iv = Interval(lo, hi)
    try:
        for g in gn:
            iv.bool(g)
    except No:
        return "no", None
    used = []
    dropped = 0
    for h in hy:
        save = iv.maxabs
        try:
            iv.bool(h)
            if iv.maxabs.bit_length() + 2 > maxw:
                iv.maxabs = save
                dropped += 1
                continue
            used.append(h)
        except No:
            iv.maxabs = save
            dropped += 1
    w = iv.maxabs.bit_length() + 2
    if w > maxw:
        return "no", None
    tr = Trans(iv, w)
    s = z3.SolverFor("QF_BV")
    s.set("timeout", int(ms))
    for h in used + gn:
        s.add(tr.b(h))
    # bounds of every variable (variables can occur only in bounded positions)
    for n, (e, v) in list(tr.vars.items()):
        s.add(v >= z3.BitVecVal(lo[n], w), v <= z3.BitVecVal(hi[n], w))
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        if dropped:
            return "unknown", None
        m = s.model()
        vals = {}
        for n, (e, v) in tr.vars.items():
            c = m.eval(v, model_completion=True)
            vals[n] = c.as_signed_long()
        return "sat", vals
    return "unknown", None
