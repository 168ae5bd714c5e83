from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C03"
LEVEL = "exploration"
NOTE = 'All supported and refused type pairs, each byte order, with boundary and random values, against C conversion; sampled values, not all.'
RULE = ("a case is a (memory type, stored type) pair with byte orders, values in range of both types, and a route (block write, block "
        "read, read_simple or attribute); numpy's astype, checked against C conversion semantics, is the oracle for supported pairs and "
        "'error, nothing changed' for all others; non-trivial when the two type strings differ and at least two elements are converted")
ASSUMPTIONS = ["float to integer conversions outside the integer's range are undefined in C and are not generated"]

NUMERIC = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "c8", "c16", "b1", "i16", "f16"]
STR = ["S1", "S2", "S5", "S8", "S16"]


@st.composite
def case(draw, tier):
    k = draw(st.integers(0, 9))
    if k < 6:
        a, b = draw(st.sampled_from(gen.NUM)), draw(st.sampled_from(gen.NUM))
    elif k == 6:
        a, b = draw(st.sampled_from([("b1", x) for x in gen.NUM] + [("c8", "c16"), ("c16", "c8"), ("c8", "c8"), ("c16", "c16")]))
    elif k == 7:
        a = b = draw(st.sampled_from(NUMERIC))
    else:
        a, b = draw(st.sampled_from(NUMERIC + STR)), draw(st.sampled_from(NUMERIC + STR))
    route = draw(st.sampled_from(["write", "read", "simple", "attr"]))
    ea, eb = draw(st.sampled_from("<>")), draw(st.sampled_from("<>"))
    if a == b and a[0] == "S":
        eb = ea
    nm = draw(st.sampled_from([1, 1, 2, 3, 5]))
    fs = draw(gen.fsizes(small=True, minfiles=1).filter(lambda v: sum(v) > 0))
    return {"src": ea + a, "dst": eb + b, "route": route, "nm": nm, "fs": fs, "seed": draw(gen.SEED),
            "mode": draw(st.sampled_from(["small", "edge", "wide", "round"])), "brows": draw(st.integers(1, 12)),
            "lay": draw(st.sampled_from(["c", "c", "pad", "rev", "bcast"])), "spell": draw(st.sampled_from(["", "=", "|", "e"]))}


def corners(tier):
    out = []
    kinds = NUMERIC + ["S1", "S5", "S16"]
    i = 0
    for a in kinds:
        for b in kinds:
            for e in ("<<", "<>", "><", ">>"):
                if a == b and a[0] == "S" and e[0] != e[1]:
                    continue
                i += 1
                for j, r in enumerate(("write", "read", "simple", "attr")):
                    if tier == "quick" and (i + j) % 2:
                        continue
                    out.append({"src": e[0] + a, "dst": e[1] + b, "route": r, "nm": 1 + i % 3, "fs": [2, 0, 3], "seed": i, "mode": ("small", "edge", "wide", "round")[(i // 4 + j) % 4],
                                "brows": 2, "lay": "c", "spell": "e"})
    return out


ARMS = [Arm("convert", "serial", "c03", lambda tier: case(tier), quick=20000, thorough=200000, shards=8, corners=corners)]
