from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = "stateful model-based testing of the executable: generated sequences of its modes, with injected corruption, against a model of the block read by an independent reader"
NOTE = 'Sequences of create, update, grow and read of the built bigfile-iosim on generated configurations; the files are read independently after each, and injected damage must be reported.'
RULE = ("a case starts from nothing or from a block written independently, and runs the built bigfile-iosim in a sequence of modes with generated numbers of ranks, writers, files, rows and members, with and without aggregation, "
        "with damage (a flipped byte, a truncated or missing file, a missing block or file) in between, in files of any name, also read-only ones, with purging and wrong command lines; non-trivial when a sequence with at least two successful runs, one of them on several ranks, ends")
ASSUMPTIONS = ["checksums after an update, which count rewritten rows again, are not claimed", "zero members and negative sizes are not claimed", "timings are not claimed"]


@st.composite
def op(draw):
    return {"mode": draw(st.sampled_from(["create", "read", "read", "update", "grow", "grow", "usage"])), "purge": draw(st.sampled_from([0, 0, 0, 0, 1])),
            "usage": draw(st.sampled_from(["nothing", "command", "nofile", "nofile2", "option", "rows", "files", "writers", "members", "noarg", "prefix", "longer"])), "np": draw(st.sampled_from([1, 2, 3, 3, 4, 5])), "n": draw(st.sampled_from([None, 0, 1, 2, 3, 7])),
            "A": draw(st.booleans()), "f": draw(st.sampled_from([None, 1, 2, 3, 5, 17])), "s": draw(st.one_of(st.sampled_from([0, 1, 2, 3, 1023, 1024]), st.integers(0, 40), st.integers(0, 5000))),
            "w": draw(st.sampled_from([None, 1, 2, 3, 7])), "harm": draw(st.sampled_from([None] * 5 + ["flip", "short", "missing", "noblock", "nofile", "readonly"])), "at": draw(gen.SEED)}


@st.composite
def case(draw, tier):
    start = draw(st.one_of(st.none(), st.fixed_dictionaries({"dt": gen.dtypes(["i8", "i8", "i4", "u4", "u8", "f8", "f4"]), "nm": st.sampled_from([1, 1, 2, 3]), "fs": gen.fsizes()})))
    ops = draw(st.lists(op(), min_size=1, max_size=4))
    if start is None:
        ops[0]["mode"], ops[0]["harm"], ops[0]["purge"] = "create", None, 0
    name = draw(st.sampled_from(["f"] * 6 + ["f x", "a;touch b", "f$(touch y)", "'q", "f*", "-f", "long", "%s%n", "\u20ac"]))
    if " " in name:
        # no block can be created there
        if start is None:
            name = "f"
        for o in ops:
            o["mode"], o["purge"] = "grow" if o["mode"] == "create" else o["mode"], o["purge"] if o is ops[-1] else 0
    return {"start": start, "ops": ops, "name": name}


def corners(tier):
    """a flipped byte in each member of a row, in any type"""
    out = []
    base = {"mode": "read", "purge": 0, "usage": "nothing", "np": 2, "n": None, "A": False, "f": None, "s": 0, "w": None, "harm": "flip"}
    for dt in ("<i8", "<i8", "<i4", ">u8") if tier == "quick" else ("<i8", ">i8", "<i4", ">u4", "<u8", "<f8", ">f4"):
        w = int(dt[2:])
        # a high byte of a small value
        b = 1 if dt[0] == "<" else w - 2
        ops = [dict(base, np=1 + (row + j) % 3, at=7 * ((3 * row + j) * w + b), n=[None, 1, 2][j], A=row == 2) for row in (0, 2, 4) for j in range(3)]
        for i in range(0, len(ops), 3):
            out.append({"start": {"dt": dt, "nm": 3, "fs": [5]}, "ops": ops[i:i + 3], "name": "f"})
    return out


ARMS = [Arm("iosim", "cli", "c29", lambda tier: case(tier), quick=160, thorough=2500, shards=6, corners=corners, timeout=250)]
