from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of the Python binding, differential against numpy arrays"
NOTE = "Generated histories of Python column operations against numpy arrays of the same contents and against the files as an independent reader sees them."
RULE = ("a case creates columns of any numeric type, byte order and sub-array shape (create, create_from_array with any memory limit and number of files) and runs up to 25 operations: "
        "indexing and assigning by slices, integers, Ellipsis and indices that must be refused, writes and reads at offsets in any memory layout, appends, reopening; results are "
        "compared with numpy bit for bit, and the files at the end; non-trivial when an index returned or an assignment stored rows")
ASSUMPTIONS = ["values are numpy arrays (documented); rows are not assigned through 0-d arrays", "columns of at most one sub-array dimension (documented)"]

KINDS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "f16", "c8", "c16", "b1"]
LAYOUTS = ["c", "c", "f", "step", "neg", "inner", "innerneg", "field", "readonly"]


def dts():
    return st.builds(lambda e, k: e + k, st.sampled_from("<>"), st.sampled_from(KINDS))


def nms():
    return st.sampled_from([1, 1, 1, 2, 3, 7])


def sizes():
    return st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 60))


def bound():
    return st.one_of(st.none(), st.integers(-14, 14), st.integers(-70, 70))


@st.composite
def idx(draw):
    k = draw(st.sampled_from(["slice", "slice", "slice", "int", "int", "all", "step", "bad"]))
    if k == "slice":
        return ["slice", draw(bound()), draw(bound()), draw(st.sampled_from([None, None, 1]))]
    if k == "step":
        return ["slice", draw(bound()), draw(bound()), draw(st.sampled_from([-1, 2, -3, 5]))]
    if k == "int":
        t = draw(st.sampled_from(["py", "py", "py", "i8", "u1", "i1", "u8"]))
        v = draw(st.one_of(st.integers(-13, 13), st.sampled_from([0, -1, 255, 127, -128])))
        if t in ("u1", "u8") and v < 0 or t == "i1" and v > 127:
            v = abs(v) % 128
        return ["int", v, t]
    if k == "all":
        return ["all"]
    return ["bad", draw(st.sampled_from(["none", "float", "str", "list", "tuple", "array", "mask", "tup1"]))]


@st.composite
def create(draw):
    return ["create", draw(dts()), draw(nms()), draw(sizes()), draw(st.integers(1, 5)), draw(st.sampled_from(LAYOUTS)), draw(gen.SEED), draw(st.booleans())]


@st.composite
def fromarray(draw):
    n = draw(st.one_of(sizes(), sizes(), st.sampled_from([1023, 1024, 1025, 2048, 3000])))
    return ["fromarray", draw(dts()), draw(nms()), n, draw(st.sampled_from([None, None, 1, 2, 5, 70])), draw(st.sampled_from(LAYOUTS)), draw(gen.SEED),
            draw(st.sampled_from(["row", "row1", "k", "1023", "1024", "1025", "2100", "default"] if n < 100 else ["k", "1023", "1024", "1025", "2100", "default"])), draw(st.booleans())]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["get", "get", "get", "get", "set", "set", "set", "write", "write", "read", "read", "append", "append", "reopen", "other", "beyond", "closefile", "create", "fromarray", "zeros", "meta"]))
    c = draw(st.integers(0, 3))
    if k == "create":
        return draw(create())
    if k == "fromarray":
        return draw(fromarray())
    if k == "get":
        return [k, c, draw(idx())]
    if k == "set":
        return [k, c, draw(idx()), draw(st.sampled_from(LAYOUTS)), draw(gen.SEED), draw(st.booleans()), draw(st.sampled_from([0, 0, 0, 0, 1, -1, 3]))]
    if k == "write":
        return [k, c, draw(st.integers(0, 60)), draw(st.integers(0, 30)), draw(st.sampled_from(LAYOUTS)), draw(gen.SEED),
                draw(st.sampled_from([None, None, "<i4", ">i4", "<f8", ">f4", ">u8", "<u4", ">f8", "<i8"]))]
    if k == "read":
        return [k, c, draw(st.integers(0, 60)), draw(st.one_of(st.integers(0, 30), st.just(-1))), draw(st.sampled_from([None, None] + LAYOUTS))]
    if k == "append":
        return [k, c, draw(st.integers(0, 12)), draw(st.integers(0, 4)), draw(st.sampled_from(LAYOUTS)), draw(gen.SEED)]
    return [k, c, draw(st.integers(0, 3))]


@st.composite
def case(draw, tier):
    first = draw(st.one_of(create(), create(), fromarray()))
    return {"buf": draw(st.sampled_from([0, 0, 1, 16, 100, 1000])), "ops": [first] + draw(st.lists(op(), max_size=25))}


def corners(tier):
    out = []
    b = [None, -7, -6, -5, -1, 0, 1, 4, 5, 6, 7, 100, -100]
    for nm in (1, 3):
        ops = [["create", "<f8", nm, 6, 2, "c", 1, False]]
        for x in b:
            for y in b:
                ops.append(["get", 0, ["slice", x, y, None]])
        for i in range(-8, 9):
            ops.append(["get", 0, ["int", i, "py"]])
            ops.append(["set", 0, ["int", i, "py"], "c", i + 50, False, 0])
        out.append({"buf": 0, "ops": ops})
        ops = [["create", ">i4", nm, 6, 3, "c", 1, False]]
        for x in b:
            for y in b:
                ops.append(["set", 0, ["slice", x, y, None], "c", 5, False, 0])
        out.append({"buf": 0, "ops": ops})
    # many rows, many files
    for d, nm, n in (("<f8", 1, 20000), (">i4", 3, 9001), (">i2", 1, 9217), ("<f4", 1, 70001)):
        out.append({"buf": 0, "ops": [["fromarray", d, nm, n, None, "c", 5, l, False] for l in ("default", "2100", "1025", "k")] + [["fromarray", d, nm, n, 3, "step", 6, "default", False],
                                      ["get", 0, ["slice", n - 10, None, None]], ["get", 1, ["slice", n // 2, -5, None]]]})
    out.append({"buf": 0, "ops": [["fromarray", "<u1", 1, 500000, 5000, "c", 7, "default", False], ["append", 0, 12, 3, "c", 8], ["get", 0, ["int", -1, "py"]]]})
    out.append({"buf": 0, "ops": [["create", "<u1", 1, 500000, 5000, "c", 7, False]]})
    out.append({"buf": 0, "ops": [["create", "<u1", 1, 3, 1, "c", 7, False], ["append", 0, 500000, 5000, "c", 9]]})
    return out


ARMS = [Arm("py", "py", "c17", lambda tier: case(tier), quick=9000, thorough=60000, shards=8, corners=corners)]
