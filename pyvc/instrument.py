"""Mechanical instrumentation of the real source.

Every run parses the files of /repo/pyembroidery and rewrites the AST:
  * calls of a few builtins (int, round, abs, len, range, ...) go to wrappers
    that accept symbolic values and otherwise call the builtin;
  * `a % b` goes to a wrapper (string formatting / symbolic modulo);
  * `if` statements whose branches only assign local names may be merged into
    conditional values instead of forking (falls back to forking);
  * loops may be cut at their head: locals modified by the loop are replaced
    by arbitrary values satisfying the loop invariant, ONE arbitrary iteration
    of the original body is executed, and the invariant is re-established at
    the back edge.
Nothing is dropped: with no loop policy and concrete inputs the instrumented
module computes what the original computes (checked by the self-test, which
runs the repository's own test-suite against the instrumented package).
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")
PKG = "pyembroidery"

WRAPPED = {
    "int", "round", "abs", "len", "range", "isinstance", "min", "max", "bytes",
    "bytearray", "float", "enumerate", "sum", "str", "chr", "ord", "reversed", "bool", "sorted", "list", "tuple", "set",
}
PURE_CALLS = {"int", "abs", "min", "max", "float", "round"}

SITES = {}  # site id -> dict(info)


def _bound_names(node):
    """names bound anywhere in a function/module scope (not nested scopes)."""
    out = set()

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.arg):
            out.add(n.arg)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(node, True)
    return out


def _stored(stmts):
    """names stored in statements, in first-store order, not in nested defs."""
    out = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if n.id not in out:
                out.append(n.id)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in stmts:
        visit(s)
    return [n for n in out if not n.startswith("__vc")]


class Instr(ast.NodeTransformer):
    def __init__(self, modname, tree):
        self.mod = modname
        self.scopes = []
        self.funcs = []
        self.counter = {}
        self.reads = []
        self.mod_bound = _bound_names(tree)
        self.pure = set()
        for n in tree.body:
            if isinstance(n, ast.FunctionDef) and self._is_pure_def(n):
                self.pure.add(n.name)

    @staticmethod
    def _is_pure_def(n):
        body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return False
        ok = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.Load)
        return all(isinstance(x, ok) for x in ast.walk(body[0].value))

    def is_builtin(self, name):
        if name in self.mod_bound:
            return False
        return not any(name in s for s in self.scopes)

    def qual(self):
        return ".".join([self.mod] + self.funcs)

    def site(self, node, kind, names):
        q = self.qual()
        k = (q, kind)
        self.counter[k] = self.counter.get(k, 0) + 1
        sid = len(SITES) + 1
        SITES[sid] = {
            "id": sid,
            "func": q,
            "short": q.split(".", 1)[1] if "." in q else q,
            "kind": kind,
            "ord": self.counter[k],
            "line": getattr(node, "lineno", 0),
            "names": names,
            "live": self.live(node),
            "test": sorted({x.id for x in ast.walk(node.test) if isinstance(x, ast.Name)}) if isinstance(node, ast.While) else [],
        }
        return sid

    def live(self, node):
        """names the loop or anything after it may read; None: unknown"""
        loads, nested, loops = self.reads[-1] if self.reads else (None, True, [])
        if loads is None or nested or not hasattr(node, "lineno"):
            return None
        line = node.lineno
        for lo, hi in loops:
            if lo <= node.lineno <= hi:
                line = min(line, lo)
        return sorted({n for l, n in loads if l >= line})

    @staticmethod
    def _reads(node):
        loads, loops, nested = [], [], False
        for x in ast.walk(node):
            if x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                nested = True
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                loads.append((x.lineno, x.id))
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                loads.append((x.lineno, x.target.id))
            if isinstance(x, ast.Name) and x.id in ("locals", "eval", "exec", "vars"):
                nested = True
            if isinstance(x, (ast.For, ast.While)):
                loops.append((x.lineno, x.end_lineno))
        return loads, nested, loops

    # -- scopes
    def visit_FunctionDef(self, node):
        self.scopes.append(_bound_names(node))
        self.funcs.append(node.name)
        self.reads.append(self._reads(node))
        node.body = self.block(node.body)
        self.reads.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.funcs.pop()
        self.scopes.pop()
        return node

    def visit_ClassDef(self, node):
        self.funcs.append(node.name)
        node.body = self.block(node.body)
        self.funcs.pop()
        return node

    def visit_Lambda(self, node):
        self.scopes.append(_bound_names(node))
        self.generic_visit(node)
        self.scopes.pop()
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Module(self, node):
        node.body = self.block(node.body)
        return node

    # -- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in WRAPPED and self.is_builtin(node.func.id):
            node.func = ast.Attribute(ast.Name("__vc__", ast.Load()), "b_" + node.func.id, ast.Load())
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if not node.elts and isinstance(node.ctx, ast.Load):
            return ast.parse("__vc__.newlist()", mode="eval").body
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or isinstance(node.slice, ast.Tuple) or not self.funcs:
            return node
        if isinstance(node.slice, ast.Constant) and type(node.slice.value) is not int:
            return node
        if isinstance(node.slice, ast.Slice):
            s = node.slice
            none = ast.Constant(None)
            i = ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "mkslice", ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
            return ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "getitem", ast.Load()), [node.value, i], [])
        return ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "getitem", ast.Load()), [node.value, node.slice], [])

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys:
            return ast.parse("__vc__.newdict()", mode="eval").body
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async or not self.funcs:
            return node
        g = node.generators[0]
        names = None
        if isinstance(g.target, ast.Name):
            names = [g.target.id]
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            names = [e.id for e in g.target.elts]
        if names is None or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(node)):
            return node

        def fn(body):
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
            if isinstance(g.target, ast.Name):
                return lam
            return ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg("__vc_t")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=ast.Call(lam, [ast.Starred(ast.Name("__vc_t", ast.Load()), ast.Load())], []),
            )

        call = ast.parse("__vc__.listcomp(None, None, None)", mode="eval").body
        call.args = [fn(node.elt), g.iter, ast.Tuple([fn(x) for x in g.ifs], ast.Load())]
        return call

    def visit_BinOp(self, node):
        lists = isinstance(node.op, ast.Mult) and (isinstance(node.left, ast.List) or isinstance(node.right, ast.List))
        self.generic_visit(node)
        if lists:
            return ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "list_mul", ast.Load()), [node.left, node.right], [])
        if isinstance(node.op, ast.Mod):
            return ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "mod", ast.Load()), [node.left, node.right], [])
        return node

    # -- if merging
    def _mergeable(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign):
                if not all(isinstance(t, ast.Name) for t in s.targets):
                    return False
                v = s.value
            elif isinstance(s, ast.AugAssign):
                if not isinstance(s.target, ast.Name):
                    return False
                v = s.value
            else:
                return False
            for x in ast.walk(v):
                if isinstance(x, ast.Call):
                    if not (isinstance(x.func, ast.Name) and not x.keywords):
                        return False
                    if x.func.id in self.pure:
                        continue
                    if x.func.id in PURE_CALLS and self.is_builtin(x.func.id):
                        continue
                    return False
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.List, ast.Dict, ast.Lambda, ast.Attribute, ast.Subscript)):
                    return False
        return True

    def visit_If(self, node):
        mergeable = bool(self.funcs) and self._mergeable(node.body) and self._mergeable(node.orelse)
        names = _stored(node.body + node.orelse)
        line = node.lineno
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        if not mergeable or not names:
            return node
        sid = self.site(node, "if", names)
        c = "__vc_c%d" % sid
        src = "%s = __vc__.cond(%d, None)" % (c, sid)
        assign = ast.parse(src).body[0]
        assign.value.args[1] = node.test
        pre = ast.parse("__vc_s%d = __vc__.save(locals(), %r)" % (sid, tuple(names))).body
        mid = ast.parse("__vc_t%d = __vc__.save(locals(), %r)" % (sid, tuple(names))).body
        for n in names:
            mid += ast.parse("%s = __vc_s%d[%r]" % (n, sid, n)).body
        end = ast.parse("__vc_e%d = __vc__.save(locals(), %r)" % (sid, tuple(names))).body
        for n in names:
            end += ast.parse("%s = __vc__.merge(%d, %s, __vc_t%d, __vc_e%d, %r)" % (n, sid, c, sid, sid, n)).body
        import copy

        body2 = copy.deepcopy(node.body)
        else2 = copy.deepcopy(node.orelse)
        merged = ast.Try(
            body=pre + ast.parse("__vc__.merge_in(%d)" % sid).body + body2 + mid + else2 + end,
            handlers=[
                ast.ExceptHandler(
                    type=ast.Name("Exception", ast.Load()),
                    name=None,
                    body=ast.parse("__vc__.merge_fail(%d)" % sid).body,
                )
            ],
            orelse=[],
            finalbody=ast.parse("__vc__.merge_out(%d)" % sid).body,
        )
        new = ast.If(
            test=ast.parse("%s is True" % c, mode="eval").body,
            body=node.body or [ast.Pass()],
            orelse=[
                ast.If(
                    test=ast.parse("%s is False" % c, mode="eval").body,
                    body=node.orelse or [ast.Pass()],
                    orelse=[merged],
                )
            ],
        )
        return [assign, new]

    # -- loops
    def _havoc(self, sid, names):
        out = []
        for n in names:
            out += ast.parse("%s = __vc_L%d.h(%r)" % (n, sid, n)).body
        return out

    def visit_For(self, node):
        if not self.funcs:
            self.generic_visit(node)
            return node
        import copy

        names = _stored([node])
        if self._hasyield_scope_risk():
            pass
        node.iter = self.visit(node.iter)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        sid = self.site(node, "for", names)
        it = "__vc_it%d" % sid
        L = "__vc_L%d" % sid
        a1 = ast.parse("%s = __vc__.iterable(None)" % it).body[0]
        a1.value.args[0] = node.iter
        a2 = ast.parse("%s = __vc__.for_enter(%d, %s, locals())" % (L, sid, it)).body[0]
        native_iter = ast.parse("__vc__.native_iter(%s, %d, %s)" % (L, sid, it), mode="eval").body
        native = ast.For(target=copy.deepcopy(node.target), iter=native_iter, body=copy.deepcopy(node.body), orelse=copy.deepcopy(node.orelse), type_comment=None)
        one = ast.For(
            target=node.target,
            iter=ast.parse("%s.oneshot(%s)" % (L, it), mode="eval").body,
            body=node.body,
            orelse=ast.parse("%s.back(locals())" % L).body,
            type_comment=None,
        )
        cut = ast.If(
            test=ast.parse("%s.more(%s)" % (L, it), mode="eval").body,
            body=[one],
            orelse=ast.parse("%s.leave(locals())" % L).body + node.orelse,
        )
        top = ast.If(
            test=ast.parse("%s is None" % L, mode="eval").body,
            body=[native],
            orelse=self._havoc(sid, names) + ast.parse("%s.head(locals())" % L).body + [cut],
        )
        return [a1, a2, top]

    def _hasyield_scope_risk(self):
        return False

    def visit_While(self, node):
        if not self.funcs:
            self.generic_visit(node)
            return node
        import copy

        names = _stored([node])
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        sid = self.site(node, "while", names)
        L = "__vc_L%d" % sid
        a2 = ast.parse("%s = __vc__.while_enter(%d, locals())" % (L, sid)).body[0]
        pre = ast.If(
            test=ast.parse("%s is not None" % L, mode="eval").body,
            body=(self._havoc(sid, names) + ast.parse("%s.head(locals())" % L).body),
            orelse=[],
        )
        native = ast.While(
            test=ast.BoolOp(
                op=ast.And(),
                values=[
                    ast.parse("__vc__.tick(%s, %d, locals())" % (L, sid), mode="eval").body,
                    copy.deepcopy(node.test),
                ],
            ),
            body=copy.deepcopy(node.body),
            orelse=copy.deepcopy(node.orelse),
        )
        stop = ast.If(
            test=ast.UnaryOp(ast.Not(), node.test),
            body=ast.parse("%s.exited = True" % L).body + [ast.Break()],
            orelse=[],
        )
        one = ast.For(
            target=ast.Name("__vc_u%d" % sid, ast.Store()),
            iter=ast.parse("%s.oneshot_while()" % L, mode="eval").body,
            body=[stop] + node.body,
            orelse=ast.parse("%s.back(locals())" % L).body,
            type_comment=None,
        )
        tail = []
        if node.orelse:
            tail = [ast.If(test=ast.parse("%s.exited" % L, mode="eval").body, body=node.orelse, orelse=[])]
        leave = ast.parse("if %s.exited: %s.leave(locals())" % (L, L)).body
        top = ast.If(
            test=ast.parse("%s is None or %s.unroll" % (L, L), mode="eval").body,
            body=[native],
            orelse=[one] + leave + tail,
        )
        return [a2, pre, top]


class Loader(importlib.abc.Loader):
    def __init__(self, path, name, is_pkg):
        self.path = path
        self.name = name
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import runtime

        with open(self.path, encoding="utf8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Instr(self.name.split(".")[-1] if not self.is_pkg else "__init__", tree).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["__vc__"] = runtime
        exec(code, module.__dict__)
        from . import mathshim

        mathshim.adopt(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        rel = fullname.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname, True), submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname, False))
        return None


_installed = False


def install():
    global _installed
    if not _installed:
        sys.dont_write_bytecode = True
        sys.setrecursionlimit(20000)
        sys.meta_path.insert(0, Finder())
        _installed = True


def load(name):
    install()
    import importlib

    return importlib.import_module(PKG + ("." + name if name else ""))
