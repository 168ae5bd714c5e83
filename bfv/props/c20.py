from hypothesis import strategies as st
from .. import gen
from ..engine import Arm
from .c17 import dts
from .c18 import value

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of pickling, model-based, copies in the same and in another process"
NOTE = "Generated histories of writes, growth, attribute changes, pickling and unpickling in this and a second process, against a model of every handle's state and the bytes of all files."
RULE = ("a case is a history of up to 20 operations on up to three blocks: changes through any handle or a copy in another process, copies (pickle protocols 0..5, copy, deepcopy), pickles "
        "stored and loaded later, copies of copies, pickled files with and without cached listing; all handles are compared with the model after each operation and the bytes of "
        "all files before and after pickling; non-trivial when a copy was compared with its original")
ASSUMPTIONS = ["handles opened before a block grew through another handle do not write to it any more (documented)", "files are given by absolute paths"]


def manyattrs():
    few = st.lists(gen.attrnames(), max_size=12, unique=True)
    return st.one_of(few, st.tuples(few, st.integers(5, 30)).map(lambda x: x[0] + ["key%d" % i for i in range(x[1])]))


@st.composite
def case(draw, tier):
    blocks = []
    for name in ["b", "g/c", "h"][:draw(st.integers(1, 3))]:
        if name == "h" and draw(st.booleans()):
            blocks.append([name, None, 0, 0, 0, 1, False])
        else:
            n = draw(st.integers(0, 20))
            blocks.append([name, draw(dts()), draw(st.sampled_from([1, 1, 2, 3])), n, draw(st.one_of(st.integers(1, 4), st.integers(1 if n else 0, 40))), draw(st.sampled_from([1, 2, 3, 30])), draw(st.booleans())])
    pool = st.sampled_from(draw(st.lists(gen.attrnames(), min_size=1, max_size=8, unique=True)))
    proto = st.integers(0, 5)
    ops = []
    if draw(st.integers(0, 2)) == 0:
        ops += [["attr", 0, n, draw(value()), False] for n in draw(manyattrs())]
    if draw(st.integers(0, 15)) == 0:
        # attributes of hundreds of kilobytes
        ops += [["attr", 0, "large%d" % i, ["num", draw(st.sampled_from(["<f8", ">f8"])), [draw(st.integers(1, 12)) * 1000], draw(gen.SEED), "array"], False] for i in range(draw(st.integers(1, 8)))]
    for i in range(draw(st.integers(1, 20))):
        k = draw(st.sampled_from(["copy", "copy", "copy", "dump", "dump", "load", "load", "load", "write", "write", "attr", "attr", "attr", "delattr", "append", "flush", "open", "file", "drop", "drop"]))
        h = draw(st.integers(0, 12))
        if k == "copy":
            ops.append([k, h, draw(st.one_of(proto, st.sampled_from(["copy", "deepcopy"]))), draw(st.booleans()), draw(st.booleans())])
        elif k == "dump":
            ops.append([k, h, draw(proto)])
        elif k == "load":
            ops.append([k, h, draw(st.integers(0, 5)), draw(st.booleans()), draw(st.booleans())])
        elif k == "write":
            ops.append([k, h, draw(st.integers(0, 30)), draw(st.integers(0, 20)), draw(gen.SEED), draw(st.integers(0, 5))])
        elif k == "attr":
            ops.append([k, h, draw(pool), draw(value()), draw(st.integers(0, 3)) == 0])
        elif k == "delattr":
            ops.append([k, h, draw(pool)])
        elif k == "append":
            ops.append([k, h, draw(st.integers(0, 12)), draw(st.integers(0, 4)), draw(gen.SEED)])
        elif k == "file":
            ops.append([k, h, draw(proto), draw(st.integers(0, 3)), draw(st.booleans()), draw(st.booleans())])
        else:
            ops.append([k, h])
    return {"blocks": blocks, "ops": ops}


ARMS = [Arm("py", "py", "c20", lambda tier: case(tier), quick=3000, thorough=30000, shards=8)]
