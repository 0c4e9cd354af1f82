"""C10: threads and colour blocks stay aligned when a design is prepared."""
from . import encproof as E, encspec as S, gen as G
from .encspec import o_threads

ASSUMPTIONS = [
    E.ASSUMPTIONS[0], E.ASSUMPTIONS[1], E.ASSUMPTIONS[3],
    "encode_thread_change and decode_embroidery_command keep command, thread and needle (C01, numbers up to 254)",
    "Python's sorted() of a dictionary's items goes through every entry once, by increasing key",
    "the plan's entry for one arbitrary block number is followed; entries of other numbers are separate lists (each is made where it is entered)",
]
RULE = "designs over all commands with every mix of colour commands; threads and needles of the prepared design are compared with an own reading of the source's colour plan; non-trivial = distinct design"
BUDGET = 30
TASKS = E.tasks10()


def concrete(run):
    import itertools

    r = run.rng
    g = G.Gen(r, [])
    # every sequence of up to five stitch/colour commands
    al = (G.STITCH, G.COLOR_CHANGE, G.COLOR_BREAK, G.NEEDLE_SET, G.TRIM)
    for n in range(0, 6):
        for seq in itertools.product(al, repeat=n):
            for tcc in (G.COLOR_CHANGE, G.NEEDLE_SET, G.STOP):
                s = [[10 * i, 5 * i, c] for i, c in enumerate(seq)]
                run.case(o_threads, {"s": s, "t": [0x111111 * (k + 1) for k in range((n + len(seq) * 3 + tcc) % 5)], "set": {"thread_change_command": tcc, "needle_count": 3 if n % 2 else 5}}, "exhaustive")
    while run.more() and run.evals < 300000:
        if r.random() < 0.5:
            c = S.enc_case(r, g, lim=r.random() < 0.5)
        else:
            from pyembroidery import encode_thread_change

            s = []
            for i in range(r.choice((3, 6, 12, 30))):
                k = r.choice((G.STITCH, G.STITCH, G.COLOR_CHANGE, G.COLOR_BREAK, G.NEEDLE_SET, G.TRIM, G.SET_CHANGE_SEQUENCE, G.STOP))
                w = k
                if k in (G.COLOR_CHANGE, G.COLOR_BREAK, G.NEEDLE_SET, G.SET_CHANGE_SEQUENCE) and r.random() < 0.5:
                    w = encode_thread_change(k, r.choice((None, 0, 1, 2, 7)), r.choice((None, 1, 2, 4, 8)), r.choice((None, 0, 1, 2, 5, 9)) if k == G.SET_CHANGE_SEQUENCE else None)
                s.append([i, -i, w])
            c = {"s": s, "t": g.threads(), "set": {"thread_change_command": r.choice((G.COLOR_CHANGE, G.NEEDLE_SET, G.STOP)), "needle_count": r.choice((1, 2, 5, 15))}}
        c["t"] = [0x010203 * (i + 1) for i in range(r.choice((0, 1, 2, 3, 6, 10)))]
        run.case(o_threads, c)
