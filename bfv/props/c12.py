from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C12"
LEVEL = "fault_enumeration"
TECHNIQUE = "property-based testing: generated blocks, every prefix of their metadata files enumerated, against the complete block"
NOTE = ("For each generated block every prefix of its header or attribute file (all lengths up to 700 bytes, every line boundary beyond) is opened and compared "
        "with the complete block; data files are cut at sampled lengths.")
RULE = ("a case is a block built by the library and the file to tear; all prefixes are opened; non-trivial when the torn file is not empty and at least one prefix "
        "was rejected, or when missing rows were read")
ASSUMPTIONS = ["a crash leaves a prefix of what was being written; reordered or garbled sectors are outside the property"]


@st.composite
def case(draw, tier):
    dt = draw(gen.dtypes(["i4", "f8", "u1", "c16", "S5", "S16", "f4"]))
    nm = draw(st.sampled_from([0, 1, 1, 2, 3, 10, 12, 123]))
    row = gen.item(dt) * nm
    fs = draw(st.one_of(st.lists(st.integers(0, 12), max_size=6), st.lists(st.integers(0, 12), max_size=6), gen.fsizes(small=True),
                        st.lists(st.sampled_from([0, 1, 10, 100, 101, 12]), min_size=10, max_size=14)))
    what = draw(st.sampled_from(["header", "header", "attr", "attr", "data"]))
    if what == "data" and nm == 0:
        nm = 1
        row = gen.item(dt)
    if nm == 0:
        fs = [0] * len(fs)
    attrs = []
    names = draw(st.lists(gen.attrnames(), max_size=5, unique=True))
    for n in names:
        adt = draw(gen.dtypes(["i4", "f8", "u1", "c8", "S1", "S13", "b1", "S16"]))
        attrs.append([n, adt, draw(st.sampled_from([0, 1, 1, 2, 3, 10, 11, 100])), draw(gen.SEED)])
    v1 = what == "attr" and draw(st.booleans())
    return {"dt": dt, "nm": nm, "fs": fs, "buf": draw(st.sampled_from([0, max(row, 1), max(row, 1) * 3])), "seed": draw(gen.SEED), "attrs": attrs, "v1": v1,
            "what": what, "cuts": draw(st.lists(st.integers(0, 6000), min_size=4, max_size=20)),
            "first": draw(st.one_of(st.just(len(fs)), st.integers(0, len(fs))))}


ARMS = [Arm("serial", "serial", "c12", lambda tier: case(tier), quick=3500, thorough=40000, shards=6)]
