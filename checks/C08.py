"""C08: prepared designs never exceed the format's length limits."""
from . import encspec as S, encproof, gen as G
from .encspec import o_limit, o_line

ASSUMPTIONS = encproof.ASSUMPTIONS + ["limits are positive numbers, also those set by OPTION_MAX_* commands; the contingency that leaves long stitches alone is not chosen"]
RULE = "designs over all commands and settings with positive limits; every movement of the prepared design is measured; plain moves are checked step by step along their line; non-trivial = distinct design"
BUDGET = 30
TASKS = encproof.tasks("C08")


def concrete(run):
    from pyvc.concrete import harvest

    r = run.rng
    ints, _, _ = harvest(["EmbEncoder.py"])
    g = G.Gen(r, [v for v in ints if 0 <= v < 3000])
    # every ratio of distance to limit, every command, from every state
    for lim in (1, 7, 10, 12.7, 127):
        for c in (G.STITCH, G.SEW_TO, G.NEEDLE_AT, G.JUMP, G.SEQUIN_EJECT, G.FRAME_EJECT):
            for pre in ([], [[1, 1, 0]], [[1, 1, 0], [1, 1, G.TRIM]], [[1, 1, 0], [0, 0, G.STITCH_BREAK]], [[1, 1, 1]], [[1, 1, 7]], [[1, 1, 0], [1, 1, 5]]):
                for f in (0.5, 0.99, 1, 1.01, 1.5, 1.99, 2, 2.01, 2.5, 3, 3.7, 10, 10.3):
                    for ax in ((1, 0), (0, 1), (1, 1), (-1, 0.5), (0.3, -1), (-1, -1)):
                        d = lim * f
                        px, py = (pre[0][0], pre[0][1]) if pre else (0, 0)
                        s = pre + [[px + d * ax[0], py + d * ax[1], c], [px, py, 0]]
                        st = {"max_stitch": lim, "max_jump": lim}
                        if f in (1.5, 2.5):
                            st.update(tie_on=True, tie_off=True)
                        if f in (1.99, 3.7):
                            st.update(full_jump=True)
                        if f in (1.01, 2.01):
                            st.update(round=True)
                        if f in (10, 0.5):
                            st.update(sequin_contingency=G.SEQ_UTILIZE)
                        run.case(o_limit, {"s": s, "t": [1], "set": st}, "ratios")
    n = 0
    while run.more() and run.evals < 300000:
        n += 1
        if n % 3 == 0:
            c = line_case(r, g)
            run.case(o_line, c, "line")
        else:
            c = S.enc_case(r, g, lim=True)
            if c["set"].get("round"):
                # rounding may add up to half a unit to a movement's end points
                for k in ("max_stitch", "max_jump"):
                    c["set"][k] = max(1, int(c["set"][k]))
            if r.random() < 0.2:
                c["s"].insert(0, [r.choice((5, 17, 100)), 0, r.choice((G.MAX_STITCH, G.MAX_JUMP))])
            run.case(o_limit, c)


def line_case(r, g):
    s = []
    x = y = 0
    for _ in range(r.choice((1, 2, 3, 6, 15))):
        x += g.delta(r.choice((5, 127, 300)))
        y += g.delta(r.choice((5, 127, 300)))
        if r.random() < 0.3:
            x += G.grid(r.random())
        s.append([x, y, r.choice((G.STITCH, G.STITCH, G.SEW_TO, G.NEEDLE_AT, G.JUMP))])
    st = {"max_stitch": r.choice((1.5, 10, 12.7, 127)), "max_jump": r.choice((2, 10, 30.5, 127))}
    if r.random() < 0.3:
        st["full_jump"] = True
    if r.random() < 0.3:
        st["round"] = True
    if r.random() < 0.3:
        st["long_stitch_contingency"] = r.choice((G.LONG_SEW, G.LONG_JUMP))
    if r.random() < 0.2:
        st["scale"] = r.choice((2, 0.3, -1))
    return {"s": s, "t": [1], "set": st}
