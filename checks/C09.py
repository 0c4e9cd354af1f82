"""C09: preparing a design keeps every penetration, in order, and ends once."""
from . import encspec as S, encproof, gen as G
from .encspec import o_keep

ASSUMPTIONS = encproof.ASSUMPTIONS
RULE = "designs over all commands and all preparation settings; the prepared penetrations are matched against an own walk over the source; non-trivial = distinct design"
BUDGET = 30
TASKS = encproof.tasks("C09")


def concrete(run):
    from pyvc.concrete import harvest

    ints, _, _ = harvest(["EmbEncoder.py"])
    g = G.Gen(run.rng, [v for v in ints if 0 <= v < 3000])
    for c in G.ALL:
        for tail in ([], [[3, 4, 0]], [[3, 4, 0], [9, 9, 0]]):
            for head in ([], [[1, 1, 0]], [[1, 1, 0], [300, 2, 0]]):
                for st in ({}, {"tie_on": True, "tie_off": True}, {"max_stitch": 50, "max_jump": 50, "round": True, "thread_change_command": G.NEEDLE_SET}, {"max_stitch": 20, "max_jump": 20, "sequin_contingency": G.SEQ_STITCH, "full_jump": True}):
                    a = [2, 2, c] if c not in (G.M_ROTATE, G.M_ROTATE_O) else [30, 0, c]
                    if c in (G.MAX_STITCH, G.MAX_JUMP):
                        a = [30, 0, c]
                    run.case(o_keep, {"s": head + [a] + tail, "t": [1, 2], "set": st}, "each-command")
    while run.more() and run.evals < 300000:
        run.case(o_keep, S.enc_case(run.rng, g, lim=run.rng.random() < 0.7))
