"""C05: EXP, JEF, XXX, TBF, U01 files keep every stitch without drift."""
from . import product, roundtrip
from .roundtrip import o_roundtrip

RULE = "write+read of structured and random designs through the real package against the prepared design; non-trivial = distinct design"
BUDGET = 45
FMTS = ['exp', 'jef', 'xxx', 'tbf', 'u01']
KNOWN = roundtrip.known()
ASSUMPTIONS = [
    "the design is one the preparation step produces for the format (limits, command set: C08-C10): steps within the format's limit (one unit less when positions are not whole numbers), a command that does not move stands at the position of the entry before it, END is the last entry",
    "coordinates are exact real numbers (floating-point rounding is not modelled); round() is Python's round-half-even on them",
    "the reader is resumed at the head of its own stitch loop with the bytes of one writer iteration; that the loop starts right after the header is checked on the executed files (concrete oracle, C20)",
    "header fields (counts, bounds, palette indices): C14, C17; the TBF needle table has 256 entries, more needle changes are refused with IndexError"
]
_C = ("STITCH", "JUMP", "COLOR_CHANGE", "STOP", "TRIM", "END")
_N = ("STITCH", "JUMP", "NEEDLE_SET", "STOP", "TRIM", "END")
TASKS = {}


def _t(name, fn, arg, functions, cmds=_C):
    TASKS[name] = {"fn": fn, "arg": arg, "functions": functions, "limit": 600, "opts": {"budget_s": 500},
                   "covers": ["written", "consumed", "finished"] + ["cmd-" + k for k in cmds]}


for _i in (True, False):
    _m = ":whole" if _i else ":real"
    _t("exp" + _m, product.t_exp, _i, ["ExpWriter.write", "ExpReader.read", "ExpReader.read_exp_stitches"])
    _t("xxx" + _m, product.t_xxx, _i, ["XxxWriter.write", "XxxReader.read"])
    _t("u01" + _m, product.t_u01, _i, ["U01Writer.write", "U01Reader.read", "U01Reader.read_u01_stitches"], _N + ("SLOW", "FAST"))
    _t("tbf" + _m, product.t_tbf, _i, ["TbfWriter.write", "TbfReader.read"], _N)
    for _o in ({}, {"trims": True}, {"trims": True, "trim_at": 5}):
        _t("jef" + _m + "".join(":%s=%s" % kv for kv in _o.items()), product.t_jef, (_i, _o), ["JefWriter.write", "JefReader.read_jef_stitches"])


def concrete(run):
    roundtrip.concrete(run, FMTS)
