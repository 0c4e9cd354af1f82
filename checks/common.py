"""Helpers shared by proof tasks and concrete oracles."""


def load(name):
    from pyvc import instrument

    return instrument.load(name)


def opt_int(c, name, lo, hi):
    """None or an int in lo..hi"""
    if c.choose(name + "_none"):
        return None
    return c.int(name, lo, hi, inp=True)


def eqv(a, b):
    """z3/py boolean: python values a and b are equal (None only equals None)"""
    import z3
    from pyvc.sym import num, pair, Opaque

    if a is None or b is None:
        return z3.BoolVal(a is b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return z3.BoolVal(False)
    p = pair(a, b)
    if p is None:
        return z3.BoolVal(a == b)
    return p[0] == p[1]
