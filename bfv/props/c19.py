from hypothesis import strategies as st
from .. import gen
from ..engine import Arm
from .c17 import dts, bound

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of the Python binding, differential against numpy structured arrays"
NOTE = "Generated column sets and histories of dataset operations, against numpy structured arrays assembled from the columns and an independent reader of the files."
RULE = ("a case is a set of up to eight columns (any types, byte orders, sub-arrays, numbers of files, names, in a file or a sub-file) and up to 15 operations: datasets of all or "
        "some columns in any order, indexing by slice, integer, Ellipsis, name, names and pairs, assignment, writes, appends, refused ones; after each change all columns are read "
        "back from disk by an independent reader; non-trivial when rows were read or assigned through a dataset")
ASSUMPTIONS = ["datasets have at least one column; a dataset does not see appends made through another one (documented for columns)"]

NAMES = ["a", "b", "Position", "g/x", "g/h/y", "0", "\u00e9t\u00e9", "%s", "a.b", "x" * 100]


@st.composite
def idx(draw):
    k = draw(st.sampled_from(["slice", "slice", "slice", "int", "int", "all", "step"]))
    if k == "slice":
        return ["slice", draw(bound()), draw(bound()), draw(st.sampled_from([None, None, 1]))]
    if k == "step":
        return ["slice", draw(bound()), draw(bound()), draw(st.sampled_from([-1, 2, -3]))]
    if k == "int":
        t = draw(st.sampled_from(["py", "py", "i8", "u1"]))
        v = draw(st.integers(-13, 13))
        return ["int", abs(v) if t == "u1" else v, t]
    return ["all"]


HOW = st.sampled_from(["c", "c", "step", "neg", "readonly"])


@st.composite
def op(draw):
    k = draw(st.sampled_from(["get", "get", "get", "col", "cols", "cols", "read", "set", "set", "set", "write", "append", "append", "beyond", "wrong", "select", "select"]))
    if k == "get":
        return [k, draw(idx())]
    if k == "col":
        return [k, draw(idx()), draw(st.integers(0, 7))]
    if k == "cols":
        return [k, draw(idx()), draw(st.integers(0, 255)), draw(st.booleans())]
    if k == "read":
        return [k, draw(st.integers(0, 60)), draw(st.integers(0, 20)), draw(st.booleans())]
    if k == "set":
        return [k, draw(idx()), draw(gen.SEED), draw(HOW), draw(st.sampled_from([0, 0, 0, 0, 1, -1, 4]))]
    if k in ("write", "beyond"):
        return [k, draw(st.integers(0, 60)), draw(gen.SEED), draw(HOW), draw(st.integers(0, 20))]
    if k == "append":
        return [k, draw(st.integers(0, 4)), draw(gen.SEED), draw(HOW), draw(st.integers(0, 12))]
    if k == "select":
        return [k, draw(st.integers(0, 255)), draw(st.booleans())]
    return [k]


@st.composite
def case(draw, tier):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=draw(st.sampled_from([1, 2, 3, 8])), unique=True))
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 60)))
    cols = [[x, draw(dts()), draw(st.sampled_from([1, 1, 2, 3, 7])), draw(st.integers(1 if n else 0, 4))] for x in names]
    return {"buf": draw(st.sampled_from([0, 0, 1, 16, 100])), "sub": draw(st.booleans()), "n": n, "seed": draw(gen.SEED), "cols": cols, "ops": draw(st.lists(op(), min_size=1, max_size=15))}


ARMS = [Arm("py", "py", "c19", lambda tier: case(tier), quick=4000, thorough=40000, shards=8)]
