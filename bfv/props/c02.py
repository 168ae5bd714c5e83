from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C02"
LEVEL = "exploration"
NOTE = "Random blocks in both directions against an independent reader and writer of the format; the format's text is taken from the README and header comments."
RULE = ("a case is a block description (type, members, rows per file, data, attributes) that is either written by the library and decoded "
        "by an independent reader, or laid out by an independent writer (header lines in any order, attributes in version 2 or version 1 "
        "files) and opened by the library; non-trivial when at least two physical files or one attribute and at least one row are involved")
ASSUMPTIONS = ["bfv/fmt.py is a faithful reading of the documented format (README and bigfile.h)"]


@st.composite
def attrs(draw, v1=False):
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 6, 20]))
    out = []
    seen = set()
    for _ in range(n):
        name = draw(gen.attrnames())
        if name in seen:
            continue
        seen.add(name)
        out.append([name, draw(gen.dtypes(gen.KINDS)), draw(st.sampled_from([0, 1, 1, 1, 2, 3, 5, 17, 33, 200])), draw(gen.SEED)])
    return out


@st.composite
def case(draw, tier):
    dt = draw(gen.dtypes())
    nm = draw(st.sampled_from([1, 1, 2, 3, 9]))
    fs = draw(gen.fsizes())
    c = {"dir": draw(st.sampled_from(["lib2disk", "disk2lib", "disk2lib"])), "dt": dt, "nm": nm, "fs": fs, "seed": draw(gen.SEED),
         "name": draw(gen.names(60)), "attrs": draw(attrs())}
    if c["dir"] == "disk2lib":
        order = list(range(len(fs)))
        if draw(st.booleans()):
            s = draw(gen.SEED)
            order.sort(key=lambda i: (i * 2654435761 + s * 40503) % 65521)
        c["order"] = order
        c["humane"] = draw(st.booleans())
        c["attrmode"] = draw(st.sampled_from(["v2", "v2", "v1", "both"]))
        c["v1"] = draw(attrs())
        if draw(st.booleans()):
            # sums recorded for the files, whatever is in them; the first few, repeated
            c["ck"] = draw(st.lists(st.one_of(st.sampled_from([0, 1, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 65536, 2**32 - 1, 0xffff0001, 0x1ffff]), st.integers(0, 2**32 - 1)), min_size=1, max_size=4))
        c["grow"] = draw(st.sampled_from([None, [], [0], [2], [0, 3, 1], [1] * 30]))
    else:
        c["spell"] = draw(st.sampled_from(["", "=", "|"])) if dt[0] == "<" else ""
        c["pieces"] = draw(st.lists(st.integers(1, 60), max_size=5))
        c["group"] = draw(st.sampled_from(["", "g/", "g/h/"]))
    return c


def corners(tier):
    fs = [3, 1, 0] * 90
    b = {"dt": "<f4", "nm": 2, "fs": fs, "seed": 5, "name": "blk", "attrs": [["a", "<i4", 3, 1], ["z", ">f8", 0, 1], ["s", "<S1", 9, 2]]}
    h = {"dir": "huge", "nm": 1, "seed": 8, "name": "b", "attrs": []}
    many = [(i * 7 + i // 65536) % 2 for i in range(65550)]
    return [dict(h, dt="<u1", fs=[2**31 - 1, 2**31 + 5, 0, 2**32 - 1, 2**32 + 7, 2**33 + 1, 3]), dict(h, dt=">i8", nm=3, fs=[2**31 + 2, 2**32 + 2, 5]),
            dict(b, dir="lib2disk", spell="", pieces=[], group="", fs=many, dt="<u1", nm=1), dict(b, dir="lib2disk", spell="=", pieces=[50], group="g/"),
            dict(b, dir="disk2lib", order=list(range(len(fs)))[::-1], humane=False, attrmode="v2", v1=[], ck=[2**31, 2**32 - 1, 0, 65535], grow=[3]),
            dict(b, dir="disk2lib", order=list(range(len(fs))), humane=True, attrmode="v1", v1=[["k", ">c16", 2, 3], ["k2", "<f8", 700, 3], ["k3", "<i8", 0, 0]])]


ARMS = [Arm("format", "serial", "c02", lambda tier: case(tier), quick=7000, thorough=80000, shards=8, corners=corners)]
