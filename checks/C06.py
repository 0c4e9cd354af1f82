"""C06: PEC, PES files keep every stitch without drift."""
from . import product, roundtrip
from .roundtrip import o_roundtrip

RULE = "write+read of structured and random designs through the real package against the prepared design; non-trivial = distinct design"
BUDGET = 40
FMTS = ['pec', 'pes']
KNOWN = roundtrip.known()
ASSUMPTIONS = [
    "the design is one the preparation step produces for the format (limits, command set: C08-C10): steps within the format's limit (one unit less when positions are not whole numbers), a command that does not move stands at the position of the entry before it, END is the last entry",
    "coordinates are exact real numbers (floating-point rounding is not modelled); round() is Python's round-half-even on them",
    "the reader is resumed at the head of its own stitch loop with the bytes of one writer iteration; that the loop starts right after the header is checked on the executed files (concrete oracle, C20)",
    "thumbnails and header tables do not influence the stitches read back; the stitch block of a PES file is the one PesWriter hands to PecWriter.pec_encode and PesReader hands to PecReader.read_pec_stitches; palettes: C17"
]
_F = ["PecWriter.write_pec", "PecWriter.write_pec_block", "PecWriter.pec_encode", "PecWriter.write_value", "PecReader.read_pec_stitches", "PecReader.signed7", "PecReader.signed12"]
TASKS = {}
for _i in (True, False):
    TASKS["pec:%s" % ("whole" if _i else "real")] = {
        "fn": product.t_pec, "arg": _i, "functions": _F, "limit": 600, "opts": {"budget_s": 500},
        "covers": ["written", "consumed", "finished"] + ["cmd-" + k for k in ("STITCH", "JUMP", "COLOR_CHANGE", "STOP", "TRIM", "END")]}


def concrete(run):
    roundtrip.concrete(run, FMTS)
