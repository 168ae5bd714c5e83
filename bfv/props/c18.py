from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of the Python binding against a dictionary model"
NOTE = "Generated histories of assigning, reading and deleting attributes on several blocks, against a dictionary of what was assigned and an independent reader of the attribute file."
RULE = ("a case is a history of up to 25 assignments (numeric scalars, arrays of any type, byte order, shape and memory layout, text, lists of strings), reads, deletions, refused "
        "assignments (objects, blank names), growth and reopening on up to three blocks, with and without rows; after every operation keys, iteration, membership and all values "
        "are compared with a dictionary; non-trivial when an attribute was assigned and read back")
ASSUMPTIONS = ["names hold no NUL character and strings are encodable as UTF-8", "strings in lists lose trailing NUL characters, as in numpy arrays"]

KINDS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "f16", "c8", "c16", "b1"]
FORMS = ["array", "array", "scalar", "py", "list", "tuple", "0d", "T", "f", "step", "neg", "field", "readonly"]


@st.composite
def value(draw):
    k = draw(st.sampled_from(["num", "num", "num", "text", "strs"]))
    if k == "num":
        shape = draw(st.one_of(st.tuples(st.integers(0, 5)), st.tuples(st.integers(0, 5)), st.tuples(st.integers(1, 3), st.integers(1, 4)), st.tuples(st.integers(1, 3), st.integers(0, 3), st.integers(1, 2)),
                               st.tuples(st.sampled_from([32, 100, 1000]))))
        return ["num", draw(st.sampled_from("<>")) + draw(st.sampled_from(KINDS)), list(shape), draw(gen.SEED), draw(st.sampled_from(FORMS))]
    if k == "text":
        return ["text", draw(st.one_of(st.text(max_size=8), st.text("ab \n#]%\0\u20ac", max_size=20), st.sampled_from(["", " ", "\0", "a" * 200, "\n" * 50, "%s%n", "\U0001f600"]))), draw(st.booleans())]
    if draw(st.integers(0, 19)) == 0:
        # the type string of an attribute has room for five digits
        return ["long", draw(st.sampled_from([9999, 10000, 32767, 65536, 99998, 99999, 100000, 100001, 123456, 1000000])), draw(st.integers(0, 2))]
    form = draw(st.sampled_from(["list", "list", "bytes", "npbytes", "array", "swapped", "2d", "onebytes"]))
    return ["strs", draw(st.lists(st.one_of(st.text("ab \n]%\u20ac\U0001f600", max_size=10), st.text(max_size=4), st.sampled_from(["", "x" * 130, "x" * 127])), min_size=1, max_size=4)), form]


@st.composite
def case(draw, tier):
    pool = draw(st.lists(gen.attrnames(), min_size=1, max_size=draw(st.sampled_from([2, 4, 8])), unique=True))
    name = st.sampled_from(pool)
    blocks = {"b": "<f8"}
    for n, d in (("h", None), (".", None), ("g/c", ">i4")):
        if draw(st.integers(0, 3)) == 0:
            blocks[n] = d
    ops = []
    for i in range(draw(st.integers(1, 25))):
        k = draw(st.sampled_from(["set"] * 5 + ["get", "get", "del", "del", "bad", "blank", "append", "reopen", "reopen"]))
        b = draw(st.integers(0, 3))
        if k == "set":
            ops.append([k, b, draw(name), draw(value())])
        elif k in ("get", "del"):
            ops.append([k, b, draw(name)])
        elif k == "bad":
            ops.append([k, b, draw(name), draw(st.sampled_from(["none", "object", "dict", "list", "big", "array", "ragged", "set"]))])
        elif k == "blank":
            n = draw(name)
            p = draw(st.integers(0, len(n)))
            ops.append([k, b, draw(st.sampled_from(["", " ", "\t", "\n", n[:p] + " " + n[p:], n[:p] + "\t" + n[p:], n[:p] + "\n" + n[p:]])), draw(value())])
        else:
            ops.append([k, b, draw(st.integers(0, 3))])
    return {"blocks": blocks, "ops": ops, "end": draw(st.integers(0, 3))}


ARMS = [Arm("py", "py", "c18", lambda tier: case(tier), quick=6000, thorough=60000, shards=8)]
