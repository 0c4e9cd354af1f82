"""Path exploration, obligations and the solver interface."""
import os
import subprocess
import tempfile
import time
import z3

CTX = None


class Unsupported(BaseException):
    """The verifier cannot follow this construct (never a silent pass)."""


class PathEnd(BaseException):
    """This path is finished (back edge of a cut loop, or contradiction)."""


class MergeAbort(BaseException):
    def __init__(self, site):
        self.site = site


class Restart(BaseException):
    """Candidate invariants or variable kinds changed: start again."""


class Budget(BaseException):
    pass


class Obligation(object):
    __slots__ = ("name", "status", "backend", "secs", "model", "info")

    def __init__(self, name, status, backend, secs, model=None, info=None):
        self.name = name
        self.status = status  # discharged | failed | unknown | unsupported
        self.backend = backend
        self.secs = secs
        self.model = model
        self.info = info


class Ctx(object):
    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.solver = z3.SolverFor("QF_NIRA") if explorer.nonlinear else z3.Solver()
        self.solver.set("timeout", explorer.feas_ms)
        self.n = 0
        self.memo = {}
        self.keep = []
        self.inputs = {}
        self.ph = []
        self.merge_depth = []
        self.fuel = explorer.fuel
        self.ghost = {}
        self.trace = []
        self.policy = None
        self.loose = False
        self.merge_off = False
        self.unroll_ranges = False
        self.dict_factory = None  # makes the {} objects of the code
        self.bytes_factory = None  # makes the bytearray() objects of the code
        self.seqs = {}
        self.tracked = []

    # ---- names
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const("%s!%d" % (name, self.n), sort)

    def int(self, name, lo=None, hi=None, inp=False):
        from .sym import SymNum

        e = self.fresh(name, z3.IntSort())
        if lo is not None:
            self.assume(e >= lo)
        if hi is not None:
            self.assume(e <= hi)
        s = SymNum(e)
        if inp:
            self.inputs[name] = e
        return s

    def real(self, name, inp=False):
        from .sym import SymNum

        e = self.fresh(name, z3.RealSort())
        if inp:
            self.inputs[name] = e
        return SymNum(e)

    def bool(self, name, inp=False):
        from .sym import SymBool

        e = self.fresh(name, z3.BoolSort())
        if inp:
            self.inputs[name] = e
        return SymBool(e)

    def placeholder(self, v, spec):
        self.ph.append((v, spec))
        return "\ue000%d\ue001" % (len(self.ph) - 1)

    def forget(self, keep=()):
        """drop the whole path condition (sound: fewer facts)"""
        self.solver = z3.SolverFor("QF_NIRA") if self.x.nonlinear else z3.Solver()
        self.solver.set("timeout", self.x.feas_ms)
        self.memo = {}
        for e in keep:
            self.solver.add(e)

    # ---- path condition
    def assume(self, e):
        from .sym import SymBool

        if isinstance(e, SymBool):
            e = e.e
        if e is True:
            return
        if e is False:
            raise PathEnd()
        self.solver.add(e)

    def _check(self, *extra):
        self.x.stat["checks"] += 1
        t = time.time()
        if t > self.x.deadline:
            raise Budget("time budget of the exploration used up")
        r = self.solver.check(*extra)
        if r == z3.unknown and self.x.use_bv and extra:
            from . import bv

            q, _ = bv.solve(self.solver.assertions(), z3.And(*extra) if len(extra) > 1 else extra[0], self.x.feas_ms * 4)
            if q == "unsat":
                r = z3.unsat
        self.x.stat["solver_s"] += time.time() - t
        return r

    def replaying(self):
        return self.pos < len(self.prefix)

    def _next(self):
        d = self.prefix[self.pos]
        self.pos += 1
        self.decisions.append(d)
        return d

    def branch(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.merge_depth:
            raise MergeAbort(self.merge_depth[-1])
        if self.replaying():
            d = self._next()
            self.solver.add(e if d else z3.Not(e))
            return d
        self.x.stat["branches"] += 1
        t = self._check(e) != z3.unsat
        f = self._check(z3.Not(e)) != z3.unsat
        if not t and not f:
            raise PathEnd()
        if t and f:
            self.x.push(tuple(self.decisions) + (False,))
            d = True
        else:
            d = t
        self._rec(d)
        self.solver.add(e if d else z3.Not(e))
        return d

    def _rec(self, d):
        self.decisions.append(d)
        self.pos += 1

    def choose(self, name="choice"):
        """an unconstrained choice: both ways are explored, no solver is asked"""
        e = self.fresh(name, z3.BoolSort())
        if self.merge_depth:
            raise MergeAbort(self.merge_depth[-1])
        if self.replaying():
            d = self._next()
        else:
            self.x.stat["branches"] += 1
            self.x.push(tuple(self.decisions) + (False,))
            d = True
            self._rec(d)
        self.solver.add(e if d else z3.Not(e))
        return d

    def valid(self, e):
        """Is e implied by the path condition? (recorded for replay)"""
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.replaying():
            return self._next()
        r = self._check(z3.Not(e)) == z3.unsat
        self._rec(r)
        return r

    def unique_value(self, e):
        if self.replaying():
            return self._next()
        v = None
        if self._check() == z3.sat:
            m = self.solver.model()
            c = m.eval(e, model_completion=True)
            if z3.is_int_value(c) and self._check(e != c) == z3.unsat:
                v = c.as_long()
        self._rec(v)
        return v

    def enumerate_value(self, e, limit=600):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.merge_depth:
            raise MergeAbort(self.merge_depth[-1])
        for _ in range(limit):
            if self.replaying():
                k, v = self._next()
            else:
                if self._check() != z3.sat:
                    raise PathEnd()
                m = self.solver.model()
                c = m.eval(e, model_completion=True)
                if not z3.is_int_value(c):
                    raise Unsupported("enumeration of a non-integer")
                v = c.as_long()
                if self._check(e != v) != z3.unsat:
                    self.x.push(tuple(self.decisions) + (("ne", v),))
                k = "eq"
                self._rec((k, v))
            if k == "eq":
                self.solver.add(e == v)
                return v
            self.solver.add(e != v)
        raise Unsupported("symbolic value with too many cases used as an index")

    # ---- obligations
    def feasible(self):
        return self._check() != z3.unsat

    def prove(self, name, e, info=None, assume_after=True):
        from .sym import SymBool

        if isinstance(e, SymBool):
            e = e.e
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        if self.merge_depth:
            raise MergeAbort(self.merge_depth[-1])
        if self.replaying() or self.x.dirty:
            # proved on another path, or this exploration is going to be repeated
            self.solver.add(e)
            return True
        ok, ob = self.x.discharge(self, name, e, info)
        self.x.record(ob)
        if assume_after:
            self.solver.add(e)
        return ok

    def model_values(self, m):
        out = {}
        for k, e in self.inputs.items():
            try:
                c = m.eval(e, model_completion=True)
                if z3.is_int_value(c):
                    out[k] = c.as_long()
                elif z3.is_rational_value(c):
                    out[k] = float(c.numerator_as_long()) / c.denominator_as_long()
                elif z3.is_algebraic_value(c):
                    out[k] = float(c.approx(20).numerator_as_long()) / c.approx(20).denominator_as_long()
                else:
                    out[k] = str(c)
            except Exception as ex:  # pragma: no cover
                out[k] = "?%r" % (ex,)
        return out


class Explorer(object):
    def __init__(self, name, budget_s=120, feas_ms=800, prove_ms=20000, max_paths=20000, nonlinear=False, cvc5=True, use_bv=True):
        self.use_bv = use_bv
        self.name = name
        self.budget_s = budget_s
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.max_paths = max_paths
        self.nonlinear = nonlinear
        self.cvc5 = cvc5
        self.fuel = 20000
        self.deadline = time.time() + budget_s
        self.stat = {"checks": 0, "branches": 0, "solver_s": 0.0, "paths": 0, "restarts": 0}
        self.no_merge = set()
        self.obligations = []
        self.houdini = {}  # site key -> set of dropped candidates
        self.kinds = {}  # (site key, name) -> ordered list of kinds
        self.framed = {}  # site key -> list of extra modified locations
        self.work = []
        self.final = False
        self.covers = {}

    def push(self, prefix):
        self.work.append(prefix)

    def record(self, ob):
        self.obligations.append(ob)

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def discharge(self, ctx, name, e, info=None):
        t = time.time()
        s = ctx.solver
        es = z3.simplify(e)
        if z3.is_true(es):
            return True, Obligation(name, "discharged", "simplifier", 0.0)
        if z3.is_eq(e) and z3.is_arith(e.arg(0)):
            d = z3.simplify(e.arg(0) - e.arg(1), som=True)
            if z3.is_rational_value(d) and d.numerator_as_long() == 0 or z3.is_int_value(d) and d.as_long() == 0:
                return True, Obligation(name, "discharged", "polynomial-identity", time.time() - t)
        from . import bv

        neg = z3.simplify(z3.Not(e))
        model = None
        backend = "z3"
        r = z3.unknown
        tried = False
        if self.use_bv and bv.bitty(neg):
            q, vals = bv.solve(s.assertions(), neg, 4000)
            tried = q in ("unknown",)
            if q == "unsat":
                r, backend = z3.unsat, "z3-bitvector"
        if r == z3.unknown:
            s.set("timeout", min(self.prove_ms, 2500))
            try:
                r = s.check(neg)
                if r == z3.sat:
                    model = ctx.model_values(s.model())
            finally:
                s.set("timeout", self.feas_ms)
        if r == z3.unknown and self.use_bv:
            q, vals = bv.solve(s.assertions(), neg, self.prove_ms)
            if q == "unsat":
                r, backend = z3.unsat, "z3-bitvector"
            elif q == "sat":
                r, backend = z3.sat, "z3-bitvector"
                model = {k: vals.get(v.decl().name()) for k, v in ctx.inputs.items()}
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set("timeout", self.prove_ms)
            for a in s.assertions():
                s2.add(a)
            s2.add(neg)
            r = s2.check()
            backend = "z3(fresh)"
            if r == z3.sat:
                model = ctx.model_values(s2.model())
            if r == z3.unknown and self.cvc5:
                rr = run_cvc5(s2, self.prove_ms)
                if rr == "unsat":
                    r, backend = z3.unsat, "cvc5"
        self.stat["solver_s"] += time.time() - t
        dt = time.time() - t
        if r == z3.unsat:
            return True, Obligation(name, "discharged", backend, dt)
        if r == z3.sat:
            return False, Obligation(name, "failed", backend, dt, model, info)
        return False, Obligation(name, "unknown", backend, dt, None, info)

    def explore(self, fn):
        """Explore every path of fn(ctx); returns list of obligations."""
        global CTX
        while True:
            self.work = [()]
            self.obligations = []
            self.covers = {}
            npaths = 0
            self.dirty = False
            try:
                limit = None
                while self.work:
                    prefix = self.work.pop()
                    npaths += 1
                    if self.dirty and limit is None:
                        limit = 2 * npaths + 40
                    if limit is not None and npaths > limit:
                        break  # the exploration is going to be repeated anyway
                    if npaths > self.max_paths:
                        raise Budget("path budget used up")
                    c = Ctx(self, prefix)
                    CTX = c
                    try:
                        fn(c)
                    except PathEnd:
                        pass
                    except Exception as ex:
                        import traceback

                        tb = traceback.format_exc()
                        if os.environ.get("PYVC_DEBUG"):
                            print(tb)
                        m = None
                        r = c._check()
                        if r == z3.sat:
                            m = c.model_values(c.solver.model())
                        if r != z3.unsat:
                            self.obligations.append(
                                Obligation(
                                    "%s/no-exception(%s)" % (self.name, type(ex).__name__),
                                    "failed",
                                    "pyvc",
                                    0.0,
                                    m,
                                    tb[-1500:],
                                )
                            )
                self.stat["paths"] += npaths
                if self.dirty:
                    raise Restart()
                return self.obligations
            except MergeAbort as m:
                self.no_merge.add(m.site)
                self.stat["restarts"] += 1
            except Restart:
                self.stat["restarts"] += 1
            except Unsupported as u:
                self.obligations.append(Obligation(self.name + "/unsupported", "unsupported", "pyvc", 0.0, None, str(u)))
                return self.obligations
            except Budget as u:
                self.obligations.append(Obligation(self.name + "/budget", "unsupported", "pyvc", 0.0, None, str(u)))
                return self.obligations
            finally:
                CTX = None


def run_cvc5(solver, ms):
    try:
        import shutil

        exe = shutil.which("cvc5")
        if not exe:
            return "unknown"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + solver.to_smt2())
            path = f.name
        try:
            p = subprocess.run([exe, "--tlimit=%d" % ms, path], capture_output=True, text=True, timeout=ms / 1000.0 + 10)
            out = p.stdout.strip().splitlines()
            return out[0] if out else "unknown"
        finally:
            os.unlink(path)
    except Exception:
        return "unknown"
