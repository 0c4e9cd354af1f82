"""C12: affine matrices obey their algebra."""
ASSUMPTIONS = [
    "matrix entries, coordinates and angles are exact real numbers (floating-point rounding is not modelled)",
    "math.cos and math.sin are uninterpreted functions with sin^2 + cos^2 = 1 and the exact value at 0",
]
RULE = "random matrices, points, pivots, scales and angles compared with plain 3x3 arithmetic; non-trivial = distinct values"
BUDGET = 15
KNOWN = []


def mul(a, b):
    return [sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]


def ap(m, p):
    return (p[0] * m[0] + p[1] * m[3] + m[6], p[0] * m[1] + p[1] * m[4] + m[7])


def closeto(a, b, scale=1.0):
    return all(abs(x - y) <= 1e-7 * (1 + scale + abs(x) + abs(y)) for x, y in zip(a, b)) and len(a) == len(b)


def rot(t):
    import math

    c, s = math.cos(math.radians(t)), math.sin(math.radians(t))
    return [c, s, 0, -s, c, 0, 0, 0, 1]


def M(v):
    return [v[0], v[1], 0, v[2], v[3], 0, v[4], v[5], 1]


def o_algebra(case):
    from pyvc.concrete import Violation
    from pyembroidery import EmbMatrix

    A, B, C, p, (sx, sy), (px, py), th = [case[k] for k in ("A", "B", "C", "p", "s", "q", "th")]
    A, B, C = M(A), M(B), M(C)
    big = 1.0
    for m in (A, B, C):
        big *= 1 + max(abs(v) for v in m)
    big *= 1 + max(abs(v) for v in p)

    def need(what, got, exp):
        if not closeto(list(got), list(exp), big * 1e-3):
            raise Violation("%s: %r, expected %r" % (what, list(got), list(exp)))

    a, b = EmbMatrix(list(A)), EmbMatrix(list(B))
    need("a @ b", (a @ b).m, mul(B, A))
    need("(a @ b) @ c", ((a @ b) @ EmbMatrix(list(C))).m, (a @ (b @ EmbMatrix(list(C)))).m)
    need("point under a", a.point_in_matrix_space(p[0], p[1]), ap(A, p))
    need("point under a @ b", (a @ b).point_in_matrix_space(p[0], p[1]), ap(A, ap(B, p)))
    need("stitch under a", a.point_in_matrix_space([p[0], p[1], 7]), list(ap(A, p)) + [7])
    need("pair under a", a.point_in_matrix_space([p[0], p[1]]), list(ap(A, p)))
    v = [p[0], p[1], 7]
    a.apply(v)
    need("apply", v, list(ap(A, p)) + [7])
    c = EmbMatrix(list(A))
    c @= b
    need("a @= b", c.m, mul(B, A))
    for name, do, new in (
        ("post_translate", lambda m: m.post_translate(px, py), M([1, 0, 0, 1, px, py])),
        ("post_scale", lambda m: m.post_scale(sx, sy), M([sx, 0, 0, sy, 0, 0])),
        ("post_scale one factor", lambda m: m.post_scale(sx), M([sx, 0, 0, sx, 0, 0])),
        ("post_rotate", lambda m: m.post_rotate(th), rot(th)),
        ("post_cat", lambda m: m.post_cat([list(B)]), B),
        ("post_scale about", lambda m: m.post_scale(sx, sy, px, py), mul(mul(M([1, 0, 0, 1, -px, -py]), M([sx, 0, 0, sy, 0, 0])), M([1, 0, 0, 1, px, py]))),
        ("post_rotate about", lambda m: m.post_rotate(th, px, py), mul(mul(M([1, 0, 0, 1, -px, -py]), rot(th)), M([1, 0, 0, 1, px, py]))),
    ):
        c = EmbMatrix(list(A))
        do(c)
        need(name, c.m, mul(new, A))
    for name, do, new in (
        ("pre_translate", lambda m: m.pre_translate(px, py), M([1, 0, 0, 1, px, py])),
        ("pre_scale", lambda m: m.pre_scale(sx, sy), M([sx, 0, 0, sy, 0, 0])),
        ("pre_scale one factor", lambda m: m.pre_scale(sx), M([sx, 0, 0, sx, 0, 0])),
        ("pre_rotate", lambda m: m.pre_rotate(th), rot(th)),
        ("pre_cat", lambda m: m.pre_cat([list(B)]), B),
    ):
        c = EmbMatrix(list(A))
        do(c)
        need(name, c.m, mul(A, new))
    c = EmbMatrix(list(A))
    c.post_cat([list(B), list(C)])
    need("post_cat of two", c.m, mul(C, mul(B, A)))
    c = EmbMatrix(list(A))
    c.pre_cat([list(B), list(C)])
    need("pre_cat of two", c.m, mul(mul(A, B), C))
    for name, do in (("scaling", lambda m: m.post_scale(sx, sy, px, py)), ("rotating", lambda m: m.post_rotate(th, px, py))):
        c = EmbMatrix()
        do(c)
        need("%s about a pivot moves the pivot" % name, c.point_in_matrix_space(px, py), (px, py))
    i = EmbMatrix()
    need("identity", i.point_in_matrix_space(p[0], p[1]), p)
    need("a @ identity", (a @ i).m, A)
    need("identity @ a", (i @ a).m, A)
    det = A[0] * A[4] - A[1] * A[3]
    if abs(det) > 1e-2:
        c = EmbMatrix(list(A))
        c.inverse()
        q = ap(A, p)
        need("inverse", c.point_in_matrix_space(q[0], q[1]), p)
        q = ap(c.m, p)
        need("inverse from the other side", a.point_in_matrix_space(q[0], q[1]), p)
        need("a @ inverse", (a @ c).m, M([1, 0, 0, 1, 0, 0]))
        c.inverse()
        need("inverse twice", c.m, A)
    c = EmbMatrix(list(A))
    c.reset()
    need("reset", c.m, M([1, 0, 0, 1, 0, 0]))


def o_transform(case):
    from pyvc.concrete import Violation
    from pyembroidery import EmbPattern, EmbMatrix

    A = M(case["A"])
    p = EmbPattern()
    p.stitches = [list(s) for s in case["s"]]
    m = EmbMatrix(list(A))
    p.transform(m)
    if len(p.stitches) != len(case["s"]):
        raise Violation("transform changed the number of stitches")
    for s, t in zip(case["s"], p.stitches):
        if not closeto(t, list(ap(A, s)) + [s[2]], 1):
            raise Violation("transform takes %r to %r" % (s, t))
    if list(m.m) != A:
        raise Violation("transform changed the matrix")


def concrete(run):
    r = run.rng
    for h in run.hints:
        pass

    def num(k):
        return r.choice((0, 1, -1, 2, 0.5, r.uniform(-k, k), r.uniform(-k, k), r.randint(-k, k)))

    while run.more() and run.evals < 60000:
        c = {k: [num(3) for _ in range(4)] + [num(200), num(200)] for k in "ABC"}
        c.update(p=[num(500), num(500)], s=[num(4), num(4)], q=[num(300), num(300)], th=r.choice((0, 90, 180, -90, 45, r.uniform(-720, 720))))
        if run.evals % 4 == 3:
            run.case(o_transform, {"A": c["A"], "s": [[num(99), num(99), r.choice((0, 1, 2, 5))] for _ in range(r.randint(0, 9))]}, "transform")
        else:
            run.case(o_algebra, c)


# ------------------------------------------------------------------ contracts
def _mat(c, n):
    """an arbitrary affine matrix (last column 0, 0, 1)"""
    v = [c.real("%s%d" % (n, i), inp=True) for i in range(6)]
    return [v[0], v[1], 0, v[2], v[3], 0, v[4], v[5], 1]


def _same(c, name, got, want):
    from .common import eqv

    c.prove(name + "/entries", len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        c.prove("%s[%d]" % (name, i), eqv(g, w))


def _mul(a, b):
    return [a[3 * i] * b[j] + a[3 * i + 1] * b[3 + j] + a[3 * i + 2] * b[6 + j] for i in range(3) for j in range(3)]


def _ap(m, p):
    return (p[0] * m[0] + p[1] * m[3] + m[6], p[0] * m[1] + p[1] * m[4] + m[7])


def _rot(c, th):
    import math
    from pyvc import mathshim

    a = th * (math.pi / 180)
    k, s = mathshim.cos(a), mathshim.sin(a)
    return [k, s, 0, -s, k, 0, 0, 0, 1]


def _tr(x, y):
    return [1, 0, 0, 0, 1, 0, x, y, 1]


def _sc(x, y):
    return [x, 0, 0, 0, y, 0, 0, 0, 1]


def _z(c, v):
    """v, or 0 on the paths where it is known to be 0"""
    return 0 if c.valid(v.e == 0) else v


def t_product(c, _=None):
    from .common import load

    E = load("EmbMatrix").EmbMatrix
    A, B, C = _mat(c, "a"), _mat(c, "b"), _mat(c, "c")
    p = (c.real("x", inp=True), c.real("y", inp=True))
    mk = lambda m: E(list(m))
    ab = (mk(A) @ mk(B)).m
    _same(c, "matmul/post", ab, _mul(B, A))
    _same(c, "matmul/associative", ((mk(A) @ mk(B)) @ mk(C)).m, (mk(A) @ (mk(B) @ mk(C))).m)
    _same(c, "matmul/applies-one-after-the-other", mk(ab).point_in_matrix_space(p[0], p[1]), _ap(A, _ap(B, p)))
    m = mk(A)
    r = m
    m @= mk(B)
    _same(c, "imatmul/post", m.m, _mul(B, A))
    c.prove("imatmul/same-object", m is r)
    i = E()
    _same(c, "identity/right", (mk(A) @ i).m, A)
    _same(c, "identity/left", (i @ mk(A)).m, A)
    _same(c, "identity/point", i.point_in_matrix_space(p[0], p[1]), p)
    m = mk(A)
    m.reset()
    _same(c, "reset/post", m.m, [1, 0, 0, 0, 1, 0, 0, 0, 1])
    # the matrices multiplied are not changed
    a, b = mk(A), mk(B)
    a @ b
    _same(c, "matmul/frame-left", a.m, A)
    _same(c, "matmul/frame-right", b.m, B)
    c.x.cover("done")


def t_point(c, _=None):
    from .common import load

    E = load("EmbMatrix").EmbMatrix
    A = _mat(c, "a")
    x, y, k = c.real("x", inp=True), c.real("y", inp=True), c.int("command", inp=True)
    m = E(list(A))
    _same(c, "point_in_matrix_space/two-numbers", m.point_in_matrix_space(x, y), _ap(A, (x, y)))
    _same(c, "point_in_matrix_space/stitch", m.point_in_matrix_space([x, y, k]), list(_ap(A, (x, y))) + [k])
    _same(c, "point_in_matrix_space/pair", m.point_in_matrix_space([x, y]), _ap(A, (x, y)))
    v = [x, y, k]
    m.apply(v)
    _same(c, "apply/post", v, list(_ap(A, (x, y))) + [k])
    _same(c, "apply/frame", m.m, A)
    c.x.cover("done")


def t_op(c, op):
    """post_X: the new matrix is T;A (T first, in the design's coordinates);
    pre_X: A;T"""
    from .common import load

    E = load("EmbMatrix").EmbMatrix
    A = _mat(c, "a")
    m = E(list(A))
    x, y, sx, sy, th = [c.real(n, inp=True) for n in ("px", "py", "sx", "sy", "th")]
    B, C = _mat(c, "b"), _mat(c, "c")
    if op == "post_translate":
        m.post_translate(x, y)
        w = _mul(_tr(x, y), A)
    elif op == "post_scale":
        m.post_scale(sx, sy)
        w = _mul(_sc(sx, sy), A)
    elif op == "post_scale_one":
        m.post_scale(sx)
        w = _mul(_sc(sx, sx), A)
    elif op == "post_scale_about":
        m.post_scale(sx, sy, x, y)
        x, y = _z(c, x), _z(c, y)
        w = _mul(_mul(_mul(_tr(-x, -y), _sc(sx, sy)), _tr(x, y)), A)
    elif op == "post_rotate":
        m.post_rotate(th)
        w = _mul(_rot(c, th), A)
    elif op == "post_rotate_about":
        m.post_rotate(th, x, y)
        x, y = _z(c, x), _z(c, y)
        w = _mul(_mul(_mul(_tr(-x, -y), _rot(c, th)), _tr(x, y)), A)
    elif op == "post_cat":
        m.post_cat([list(B), list(C)])
        w = _mul(C, _mul(B, A))
    elif op == "pre_translate":
        m.pre_translate(x, y)
        w = _mul(A, _tr(x, y))
    elif op == "pre_scale":
        m.pre_scale(sx, sy)
        w = _mul(A, _sc(sx, sy))
    elif op == "pre_scale_one":
        m.pre_scale(sx)
        w = _mul(A, _sc(sx, sx))
    elif op == "pre_rotate":
        m.pre_rotate(th)
        w = _mul(A, _rot(c, th))
    elif op == "pre_cat":
        m.pre_cat([list(B), list(C)])
        w = _mul(_mul(A, B), C)
    _same(c, op + "/post", m.m, w)
    c.x.cover("done")


def t_pivot(c, op):
    from .common import load

    E = load("EmbMatrix").EmbMatrix
    m = E()
    x, y, sx, sy, th = [c.real(n, inp=True) for n in ("px", "py", "sx", "sy", "th")]
    if op == "scale":
        m.post_scale(sx, sy, x, y)
    else:
        m.post_rotate(th, x, y)
    x, y = _z(c, x), _z(c, y)
    q = m.point_in_matrix_space(x, y)
    _same(c, "%s-about-a-pivot/pivot-fixed" % op, q, (x, y))
    c.x.cover("done")


def t_inverse(c, side):
    from .common import load, eqv

    E = load("EmbMatrix").EmbMatrix
    A = _mat(c, "a")
    det = A[0] * A[4] - A[1] * A[3]
    c.assume(det.e != 0)
    m = E(list(A))
    try:
        m.inverse()
    except ZeroDivisionError:
        c.prove("inverse/no-division-by-zero-for-invertible", False)
        return
    I = [1, 0, 0, 0, 1, 0, 0, 0, 1]
    for n, P in (("right", _mul(A, m.m)), ("left", _mul(m.m, A))):
        for i in range(9):
            c.prove("inverse/undoes-%s[%d]" % (n, i), eqv(P[i], I[i]), assume_after=False)
    for i, v in ((2, 0), (5, 0), (8, 1)):
        c.prove("inverse/affine[%d]" % i, eqv(m.m[i], v), assume_after=False)
    c.x.cover("done")


def t_transform(c, _=None):
    """EmbPattern.transform: every stitch exactly once, nothing else"""
    from .common import load, eqv
    from pyvc.runtime import SymSeq, LoopSpec
    import z3

    P, E = load("EmbPattern"), load("EmbMatrix").EmbMatrix
    A = _mat(c, "a")
    m = E(list(A))
    p = P.EmbPattern()
    keep = {}

    def make(i):
        s = [c.real("x", inp=True), c.real("y", inp=True), c.int("command", inp=True)]
        keep["old"], keep["obj"] = list(s), s
        return s

    p.stitches = seq = SymSeq("stitches", make)

    class Spec(LoopSpec):
        frame = False

        def on_back(self, run, env):
            o = keep["old"]
            c.x.cover("each")
            _same(c, "transform/each-stitch", keep["obj"], list(_ap(A, o)) + [o[2]])
            _same(c, "transform/matrix-unchanged", m.m, A)

    c.policy = lambda site, it, loc: Spec() if it is seq else None
    p.transform(m)
    c.prove("transform/visits-the-design's-own-list", p.stitches is seq)
    c.x.cover("done")


_N = {"nonlinear": True, "prove_ms": 30000, "budget_s": 200}
_F = ["EmbMatrix.EmbMatrix.__matmul__", "EmbMatrix.EmbMatrix.matrix_multiply", "EmbMatrix.EmbMatrix.__imatmul__", "EmbMatrix.EmbMatrix.get_identity", "EmbMatrix.EmbMatrix.reset"]
TASKS = {
    "product": {"fn": t_product, "functions": _F, "covers": ["done"], "opts": _N},
    "point": {"fn": t_point, "functions": ["EmbMatrix.EmbMatrix.point_in_matrix_space", "EmbMatrix.EmbMatrix.apply"], "covers": ["done"], "opts": _N},
    "inverse": {"fn": t_inverse, "arg": "both", "functions": ["EmbMatrix.EmbMatrix.inverse"], "covers": ["done"], "opts": _N},
    "transform": {"fn": t_transform, "functions": ["EmbPattern.EmbPattern.transform", "EmbMatrix.EmbMatrix.apply"], "covers": ["done", "each"], "opts": _N},
}
for _o in ("post_translate", "post_scale", "post_scale_one", "post_scale_about", "post_rotate", "post_rotate_about", "post_cat", "pre_translate", "pre_scale", "pre_scale_one", "pre_rotate", "pre_cat"):
    TASKS[_o] = {"fn": t_op, "arg": _o, "functions": ["EmbMatrix.EmbMatrix." + _o.replace("_one", "").replace("_about", ""), "EmbMatrix.EmbMatrix.matrix_multiply"], "covers": ["done"], "opts": _N}
for _o in ("scale", "rotate"):
    TASKS["pivot-" + _o] = {"fn": t_pivot, "arg": _o, "functions": ["EmbMatrix.EmbMatrix.post_" + _o, "EmbMatrix.EmbMatrix.point_in_matrix_space"], "covers": ["done"], "opts": _N}
