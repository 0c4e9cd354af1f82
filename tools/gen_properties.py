"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []


def add(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {
            "files": ["pyembroidery/" + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": a, "where": "pyembroidery/" + b} for a, b in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


add("C01", "Command words carry command, thread, needle and order losslessly",
    "Packing a command 0..255 with an optional thread, needle and order (each absent or 0..254) into one stitch command word and unpacking that word gives back exactly the same four values, 'absent' included and distinct from 0. A word with nothing attached equals the bare command, every word fits in 32 unsigned bits, and unpacking then repacking any 32-bit word reproduces it.",
    ["inputs"], "every command byte and every combination of present/absent thread, needle and order values",
    "2^32 words; the tests exercise a handful of needle and thread numbers.",
    ["EmbFunctions.py", "EmbConstant.py", "EmbPattern.py"],
    [("encode_thread_change", "EmbFunctions.py"), ("decode_embroidery_command", "EmbFunctions.py")],
    ["encode_thread_change / decode_embroidery_command", "EmbPattern.needle_change, get_as_stitches"],
    [("stitch[2]", "32-bit packed command word", "every stitch record")])

add("C02", "Binary integer fields survive a write/read round trip",
    "Any integer written to a binary file as an 8, 16, 24 or 32 bit little- or big-endian field occupies exactly that many bytes, in that byte order, and reads back as the value modulo 2^bits; signed reads of 8, 16 and 24 bit fields give back every in-range signed value. A field cut short by the end of the file reads as None, never as a wrong number.",
    ["inputs"], "every integer and every truncation length",
    "Tests only see the few field values of sample designs; a wrong shift or byte order for large or negative values goes unnoticed.",
    ["WriteHelper.py", "ReadHelper.py"],
    [("write_int_*", "WriteHelper.py"), ("read_int_*, signed8/16/24", "ReadHelper.py")],
    ["WriteHelper / ReadHelper functions", "any written binary file"])

add("C03", "DST records encode every displacement from -121 to 121 exactly",
    "The three-byte DST record written for any dx and dy in -121..121 decodes to exactly that dx and dy, for stitches as well as jumps, and reads back as one entry of the same kind displaced by exactly that amount. A displacement outside that range is refused with ValueError rather than written wrongly. Colour change, sequin-mode and end records read back as themselves (a stop as a colour change), without moving.",
    ["inputs"], "all 243 x 243 representable displacements, each command, and every unrepresentable displacement",
    "The tests use a few dozen displacements out of 59049 per command, and never the refusal.",
    ["DstWriter.py", "DstReader.py"],
    [("encode_record", "DstWriter.py"), ("decode_dx/decode_dy, dst_read_stitches", "DstReader.py")],
    ["encode_record, decode_dx, decode_dy", "write_dst / read_dst"])

add("C04", "A DST file keeps every stitch within half a unit, without drift",
    "Writing any design to DST and reading it back gives the same sequence of needle penetrations as the design prepared for that format, each within half a unit (0.05 mm) of its prepared position however long the design is: rounding errors never accumulate. Jumps and trims add no penetration, every colour change or stop is read as one colour change at the right place in the sequence, and the end position is kept.",
    ["inputs", "histories"], "every design (any number of stitches, fractional positions, any mix of commands); coordinates are taken as exact numbers",
    "Drift and misdecoding need long or unusual sequences of deltas; tests use short integer designs.",
    ["DstWriter.py", "DstReader.py", "EmbPattern.py"],
    [("running position carried in rounded units", "DstWriter.py write"), ("dst_read_stitches", "DstReader.py"), ("interpolate_trims", "EmbPattern.py")],
    ["write_dst, read_dst"], [("xx, yy", "position the reader will have reached", "DstWriter.write")])

add("C05", "EXP, JEF, XXX, TBF and U01 files keep every stitch without drift",
    "Writing any design to EXP, JEF, XXX, TBF or U01 and reading it back gives the same sequence of needle penetrations as the design prepared for that format, each within half a unit of its prepared position however long the design is: rounding errors never accumulate. Jumps and trims add no penetration, colour changes (needle changes for U01 and TBF) come back in number and place, and no displacement the preparation step allows is ever mistaken for a command or another displacement.",
    ["inputs", "histories"], "every design and each of the five formats (TBF: up to 256 needle changes); coordinates are taken as exact numbers; a JEF stop counts among the colour changes",
    "One particular delta value (an escape code, the sign bit, the format's limit) can be mis-encoded while all tested deltas work; drift only shows in long designs.",
    ["ExpWriter.py", "ExpReader.py", "JefWriter.py", "JefReader.py", "XxxWriter.py", "XxxReader.py", "TbfWriter.py", "TbfReader.py", "U01Writer.py", "U01Reader.py"],
    [("running rounded position", "ExpWriter.py, JefWriter.py, XxxWriter.py, TbfWriter.py, U01Writer.py"), ("escape bytes", "ExpReader.py, JefReader.py, XxxReader.py")],
    ["write_exp/read_exp, write_jef/read_jef, write_xxx/read_xxx, write_tbf/read_tbf, write_u01/read_u01"])

add("C06", "PEC and PES files keep every stitch without drift",
    "Writing any design to PEC or PES (all PES versions) and reading it back visits the needle penetrations of the design prepared for that format in order, each within half a unit of its prepared position however long the design is; short and long record forms decode to exactly the displacement encoded. Apart from repeated penetrations at the needle's current position, jumps, trims and colour changes add none, and colour changes come back in number and place.",
    ["inputs", "histories"], "every design, displacements up to 2047 in each axis, every PES version; coordinates are taken as exact numbers; a PEC stop counts among the colour changes",
    "The boundary between the 7-bit and 12-bit form, the sign bits and the flag bits cover 4095^2 displacements; tests use a few.",
    ["PecWriter.py", "PecReader.py", "PesWriter.py", "PesReader.py"],
    [("write_value / encode_long_form", "PecWriter.py pec_encode"), ("read_pec_stitches", "PecReader.py")],
    ["write_pec/read_pec, write_pes/read_pes"])

add("C07", "VP3 files keep every stitch, to the resolution of the format",
    "Writing any design to VP3 and reading it back gives the same sequence of needle penetrations as the design prepared for that format, each within one unit and a half of its prepared position and without accumulating error however long the design or however many colour blocks it has. Jumps and trims add no penetration and every colour block comes back in order with its own stitches.",
    ["inputs", "histories"], "every design whose consecutive penetrations lie within 16-bit displacements, one-byte and two-byte forms, any number of blocks; coordinates are taken as exact numbers",
    "Tests use small displacements within one or two blocks; the escape form and block-to-block positioning are barely reached.",
    ["Vp3Writer.py", "Vp3Reader.py"],
    [("write_stitches_block", "Vp3Writer.py"), ("vp3_read_colorblock", "Vp3Reader.py")],
    ["write_vp3/read_vp3"])

add("C08", "Prepared designs never exceed the format's length limits",
    "When a design is prepared with a maximum stitch and jump length, every movement in the prepared design, in each axis, is at most the limit in force (the jump limit for jumps and for the first stitch of a run, the stitch limit for other stitches and for the jumps that split them), whatever the distances, commands, tie stitches and transformations of the source; long moves are split into steps along the straight line that end exactly at the requested point.",
    ["inputs", "histories"], "every source design, every positive limit (equal for stitches and jumps, or either) and every long-stitch mode except the one that explicitly permits long stitches",
    "Tests check a few designs; a violation needs a particular ratio of distance to limit or a particular preceding command.",
    ["EmbEncoder.py"],
    [("interpolate_gap_stitches", "EmbEncoder.py"), ("jump_to, needle_to, sew_to, lock_stitch", "EmbEncoder.py")],
    ["EmbPattern.get_normalized_pattern(settings)"],
    [("needle_x, needle_y", "last position in the prepared design", "EmbEncoder.Transcoder")])

add("C09", "Preparing a design keeps every penetration, in order, and ends once",
    "Every stitch of the source before its end gives exactly one penetration at its (transformed, and where required rounded) point, in source order, with no penetration invented except requested tie stitches, requested splitting of long stitches into stitches, and sequins that are to be sewn or that anchor the thread after a trim. The prepared design holds only basic machine commands, and has exactly one END, which is last.",
    ["inputs", "histories"], "every source design over all commands, and all preparation settings",
    "The state machine (trimmed / jumping / sequin / colour state) has many command histories; tests follow a few.",
    ["EmbEncoder.py", "EmbPattern.py"],
    [("Transcoder.transcode_main", "EmbEncoder.py")],
    ["EmbPattern.get_normalized_pattern(settings)"],
    [("state_trimmed, state_jumping, state_sequin_mode", "machine state while preparing", "EmbEncoder.Transcoder")])

add("C10", "Threads and colour blocks stay aligned when a design is prepared",
    "A design prepared for a colour-change format lists exactly one thread per colour block: the number of threads is one more than the number of colour changes once anything is sewn, block k uses the thread the source assigns to its k-th block, and threads missing from the source are filled in. Prepared for a needle format, every needle change names the needle the source sets for that block or else one from 1 to the needle count, and every block starts with one; preparation never fails because of the colour commands used.",
    ["inputs", "histories"], "every sequence of colour changes, colour breaks, needle sets and change-sequence commands, with any number of threads",
    "Colour bookkeeping depends on the whole history of colour commands; tests cover a few orders.",
    ["EmbEncoder.py", "EmbPattern.py"],
    [("build_thread_change_sequence, next_change_sequence", "EmbEncoder.py"), ("get_thread_or_filler", "EmbPattern.py")],
    ["EmbPattern.get_normalized_pattern(settings)"],
    [("order_index, change_sequence", "index and plan of colour blocks", "EmbEncoder.Transcoder")])

add("C11", "Saving, preparing, copying or adding never changes the originals",
    "Writing a design to any format with any settings, preparing it, or converting it leaves the design object exactly as it was: its stitches, threads and metadata. A copy is independent of its original (editing the stitches, the thread list or the metadata of one never shows in the other), and adding or joining two designs leaves the added design unchanged.",
    ["inputs", "histories", "configurations"], "every design, format and settings, and every editing history after the copy",
    "Tests compare outputs, rarely the inputs afterwards, and for few command mixes.",
    ["EmbPattern.py", "EmbEncoder.py", "PecWriter.py", "PesWriter.py", "JefWriter.py", "Vp3Writer.py", "PngWriter.py"],
    [("write_embroidery prepares a new pattern", "EmbPattern.py"), ("copy, add_pattern", "EmbPattern.py")],
    ["EmbPattern.write_*, get_normalized_pattern, copy, +, add_pattern"])

add("C12", "Affine matrices obey their algebra",
    "Multiplying matrices is associative and agrees with applying them one after the other to points; post-operations apply the new transformation in the coordinates of the design, before the existing one acts, and pre-operations after it; scaling and rotating about a pivot leave the pivot fixed; inverting an invertible matrix yields one that undoes it; the identity changes nothing. Transforming a design transforms every stitch by exactly that matrix.",
    ["inputs"], "every 3x3 affine matrix, point, pivot, scale and angle (real arithmetic)",
    "Tests check particular numbers, mostly identity-like or symmetric ones that hide transposed or reordered products.",
    ["EmbMatrix.py", "EmbPattern.py"],
    [("EmbMatrix operations", "EmbMatrix.py"), ("EmbPattern.transform", "EmbPattern.py")],
    ["EmbMatrix methods, EmbPattern.transform"])

add("C13", "Reading any binary file terminates",
    "Every binary-format reader finishes on every byte string, truncated, empty or corrupt files included, by returning a pattern or raising an exception: it never loops forever, and the number of loop steps is bounded by the file's size and the counts stored in it.",
    ["inputs"], "every byte string and every binary reader",
    "Tests read well-formed files produced by the library; a missing end-of-file test only shows on truncated input.",
    ["DstReader.py", "ExpReader.py", "JefReader.py", "PecReader.py", "PesReader.py", "XxxReader.py", "TbfReader.py", "U01Reader.py", "Vp3Reader.py", "HusReader.py", "EmbCompress.py"],
    [("end-of-data tests of the stitch loops", "*Reader.py")],
    ["read_* on arbitrary bytes"])

add("C14", "Editing and measuring operations do exactly what they say",
    "Relative additions land at the last added position plus the given offset and absolute ones at the given point; insertion at a position leaves every other stitch unchanged and in order; translating moves every stitch by exactly the given amount and nothing else. Bounds are the exact minima and maxima of all stitches, counts equal the number of stitches carrying that command, and moving the centre to the origin is a translation that centres the bounds to within half a unit.",
    ["inputs", "histories"], "every design and sequence of editing calls",
    "Tests use a few short designs, positive coordinates and positions.",
    ["EmbPattern.py"],
    [("add_stitch_relative/absolute, insert_stitch_relative, insert", "EmbPattern.py"), ("bounds, count_stitch_commands, translate, move_center_to_origin", "EmbPattern.py")],
    ["EmbPattern editing and measuring methods"], [("_previousX, _previousY", "last added position", "EmbPattern")])

add("C15", "Trim and jump interpolation never alters stitching",
    "Interpolating trims (with any jump count, distance and clipping option) keeps every stitch, colour change, stop and end, with its position and order: it only inserts trims at existing positions and, when clipping, removes jump runs that return to their start. The other post-processing passes (stop/duplicate-colour interpolation, jump merging, frame-eject detection) likewise keep every penetration's position and order.",
    ["inputs", "histories"], "every sequence of commands and every option value",
    "Index arithmetic under insertion and deletion fails only for particular interleavings of jumps, trims and stitches.",
    ["EmbPattern.py"],
    [("interpolate_trims", "EmbPattern.py"), ("interpolate_stop_as_duplicate_color, interpolate_duplicate_color_as_stop, interpolate_frame_eject, get_pattern_merge_jumps, get_pattern_interpolate_trim", "EmbPattern.py")],
    ["EmbPattern.interpolate_*"])

add("C16", "Splitting a design into blocks loses and duplicates nothing",
    "Concatenating the command blocks of a design gives back its stitches exactly, and every block holds a single command. Concatenating the colour blocks gives back all stitches except colour-break markers, with block k carrying the k-th thread; concatenating the stitch blocks gives exactly the plain stitches in order, each with the thread current at that place.",
    ["inputs"], "every design",
    "Boundary cases (empty designs, leading or trailing changes, repeated changes) are only sampled.",
    ["EmbPattern.py"],
    [("get_as_command_blocks, get_as_colorblocks, get_as_stitchblock", "EmbPattern.py")],
    ["EmbPattern.get_as_command_blocks / get_as_colorblocks / get_as_stitchblock"])

add("C17", "Palette matching returns the nearest colour, and distinct entries when asked",
    "Finding the palette entry for a thread returns an index of a present palette entry whose colour distance to the thread is minimal over all present entries, for any palette and colour. Building a palette with unique colours gives every thread an existing entry and gives distinct entries to distinct threads while entries remain, and building a palette by limiting to nearest colours gives each thread its nearest entry.",
    ["inputs"], "every colour and every palette, including palettes with absent entries",
    "16.7 million colours and arbitrary palettes; the tests try a few.",
    ["EmbThread.py", "EmbThreadPec.py", "EmbThreadJef.py"],
    [("find_nearest_color_index, build_unique_palette, build_palette, build_nonrepeat_palette", "EmbThread.py")],
    ["EmbThread.find_nearest_color_index, build_unique_palette, build_palette"])

add("C18", "Expanding compressed data gives back the original bytes",
    "For every byte string, compressing it and expanding the result with the original length gives exactly the original bytes; the expander returns at most the requested number of bytes.",
    ["inputs"], "every byte string, of any length",
    "Tests try a few strings of a few lengths; the block-size field breaks only at particular sizes.",
    ["EmbCompress.py"],
    [("compress, expand", "EmbCompress.py")],
    ["pyembroidery.compress, pyembroidery.expand"])

add("C19", "CSV and JSON files are lossless records of a design",
    "A design written to CSV or JSON and read back has exactly the same stitches (positions and command words, with attached thread, needle and order), the same threads in the same order with all their text fields and colours, and the same text metadata. This holds for every command the library defines.",
    ["inputs"], "every design over all defined commands with all parameters (coordinates below 2^53), any encodable text in metadata and thread fields (in CSV an empty text field counts as absent; fields below 128 KB)",
    "Tests use a few commands and plain ASCII words; separators, quotes and rarely used commands are not reached.",
    ["CsvWriter.py", "CsvReader.py", "JsonWriter.py", "JsonReader.py", "EmbFunctions.py", "EmbThread.py"],
    [("name dictionaries", "EmbFunctions.py"), ("csv quoting", "CsvWriter.py, CsvReader.py"), ("decoded command", "JsonWriter.py, JsonReader.py")],
    ["write_csv/read_csv, write_json/read_json"])

add("C20", "Text metadata never corrupts the stitches of a binary file",
    "Whatever text the name and other metadata and the thread descriptions hold (any length, any characters), the binary file written to DST, PEC, PES, VP3, TBF, JEF, XXX, EXP and U01 reads back with the same stitches as with no text at all: every length prefix counts the bytes that follow and every fixed-size header keeps its size.",
    ["inputs"], "every text value (encodable as UTF-8) of every metadata and thread field",
    "Tests use short ASCII names; a header overflows or a prefix miscounts only for long or non-ASCII text.",
    ["DstWriter.py", "PecWriter.py", "PesWriter.py", "Vp3Writer.py", "TbfWriter.py", "InfWriter.py"],
    [("fixed-size headers", "DstWriter.py, PecWriter.py, TbfWriter.py"), ("length-prefixed strings", "PesWriter.py, Vp3Writer.py, InfWriter.py")],
    ["write_* then read_*"])

add("C21", "Colour files give back every thread colour in order",
    "Threads saved as EDR, COL or INF and loaded again have the same number, order and 24-bit colours; INF also keeps each thread's description and chart text.",
    ["inputs"], "every list of threads; INF texts without NUL characters and short enough for the record's 16-bit size",
    "Tests save a few threads with plain names.",
    ["ColWriter.py", "ColReader.py", "EdrWriter.py", "EdrReader.py", "InfWriter.py", "InfReader.py"],
    [("write/read", "ColWriter.py, EdrWriter.py, InfWriter.py, ColReader.py, EdrReader.py, InfReader.py")],
    ["EmbPattern.write / read of .edr .col .inf"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
