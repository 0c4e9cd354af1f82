"""C04: DST files keep every stitch without drift."""
from . import product, roundtrip
from .roundtrip import o_roundtrip

RULE = "write+read of structured and random designs through the real package against the prepared design; non-trivial = distinct design"
BUDGET = 30
FMTS = ['dst']
KNOWN = roundtrip.known()
ASSUMPTIONS = [
    "the design is one the preparation step produces for the format (limits, command set: C08-C10): steps within the format's limit (one unit less when positions are not whole numbers), a command that does not move stands at the position of the entry before it, END is the last entry",
    "coordinates are exact real numbers (floating-point rounding is not modelled); round() is Python's round-half-even on them",
    "the reader is resumed at the head of its own stitch loop with the bytes of one writer iteration; that the loop starts right after the header is checked on the executed files (concrete oracle, C20)",
    "interpolate_trims, EmbPattern.interpolate_trims call: contract C15; bounds, counts and block iteration used for the header: C14, C16"
]
_F = ["DstWriter.write", "DstWriter.encode_record", "DstReader.dst_read_stitches"]
TASKS = {}
for _n in ("STITCH", "JUMP", "SEQUIN_EJECT"):
    TASKS["record:" + _n] = {"fn": product.t_record, "arg": _n, "functions": ["DstWriter.encode_record", "DstReader.decode_dx", "DstReader.decode_dy"], "covers": ["encoded"]}
for _i in (True, False):
    for _s in (False, True):
        TASKS["stitches:%s%s" % ("whole" if _i else "real", ":sequins" if _s else "")] = {
            "fn": product.t_dst, "arg": (_i, None, _s), "functions": _F, "limit": 600, "opts": {"budget_s": 500},
            "covers": ["written", "consumed", "finished"] + ["cmd-" + k for k in ("STITCH", "JUMP", "COLOR_CHANGE", "STOP", "TRIM", "END", "SLOW", "FAST") + (("SEQUIN_MODE", "SEQUIN_EJECT") if _s else ())]}
for _t in (2, 3, 5):
    TASKS["stitches:trim_at=%d" % _t] = {"fn": product.t_dst, "arg": (True, _t, False), "functions": _F, "limit": 600, "opts": {"budget_s": 500}, "covers": ["written", "consumed", "finished", "cmd-TRIM"]}


def concrete(run):
    roundtrip.concrete(run, FMTS)
