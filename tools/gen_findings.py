"""Writes known_findings.json: recorded defects and the repairs made."""
import json, os

NOISE = "a coordinate one ulp beyond a half unit before a command that carries no displacement: the writer counts a unit the file does not hold (shift of one unit)"
known = [
    {"property": p, "status": "known", "where": w, "what": NOISE,
     "input": "checks/roundtrip.py noise_case(%s); only reachable with encode=False" % ", ".join(f)}
    for p, f, w in (
        ("C04", ["dst"], "DstWriter.write"),
        ("C05", ["exp", "jef", "xxx", "tbf", "u01"], "ExpWriter, JefWriter, XxxWriter, TbfWriter, U01Writer write"),
        ("C06", ["pec", "pes"], "PecWriter.pec_encode"),
    )
]
fixed = """\
C05 32d868c XXX stitches of exactly +-124 units were written in a form that reads as a command
C11 a79ee72 copy.deepcopy of a pattern raised TypeError
C14 0af8b3d in-place operators did not return the object (p += ... made p None; m *= ... likewise, C12)
C11 75c9c82 copies and joined patterns shared the stitch lists of the original
C11 7bbcf03 adding a pattern to an empty or threadless pattern failed; a y scale alone was ignored
C11 2ed05ea writers that do not encode amended the pattern they were given
C05 93a19f2 JEF writing failed when threads were missing
C05 f0b727d U01: FAST and SLOW pending together read as a trim; a zero-length stitch with a speed flag was lost
C20 95ad3f2 TBF header grew with long texts and moved the stitches (also C05)
C20 2df8f12 DST header grew beyond 512 bytes with long texts (also C04)
C20 deda9a5 length prefixes of PEC, PES, VP3 and INF counted characters, not bytes (also C21)
C18 b63800b compress wrote a wrong block size and no second block; expand returned more than asked
C19 cb9fab6 CSV and JSON could not read UNKNOWN commands and lacked the sequin contingency names
C19 e54dd28 CSV quotes were not escaped; text files depended on locale and newline translation
C19 0a3cb12 CSV thread fields: None came back as text and chart was lost; EmbThread.set ignored details, chart, weight
C07 e16c9ed VP3 centre and start positions were truncated, the reader missed block-to-block moves
C15 59d4311 interpolate_trims took jumps on both sides of another command for one run
C10 8f17291 thread plan was iterated in insertion order rather than block order
C10 4e7fd6d colour breaks before the first stitch shifted the threads of all blocks
C10 98c4912 look-ahead and ties compared whole command words instead of the command (also C09)
C07 1940b7b VP3: SLOW and FAST swallowed the displacement before them
C04 3a7f775 DST: SLOW and FAST wrote a record that reads as a stitch
C06 4f574d1 PES version 6 writing failed for designs without threads
C05 614284f JEF: a design starting with a colour change lost its first colour
C20 ffeba16 DST: header text that looks like a TC line made the file unreadable
"""
fx = []
for l in fixed.splitlines():
    p, c, w = l.split(" ", 2)
    fx.append({"property": p, "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)})
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
json.dump({"known": known, "fixed": fx}, open(p, "w"), indent=1)
