from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C09"
LEVEL = "exploration"
NOTE = 'Random directory trees against the set of blocks put in them, through C, Python and the tools.'
RULE = ("a case is a directory tree built step by step: blocks created through the C library or Python or laid out by hand, groups, hidden "
        "directories, plain files, group attributes, at up to 5 levels with arbitrary names; the root is written with or without trailing slashes; after every step the C listing, the Python listing and "
        "views of sub-groups are compared with the set the independent model predicts; non-trivial when at least two blocks lie at two "
        "different depths and something that is not a block is present")
ASSUMPTIONS = ["a block contains no further blocks or groups; names are valid UTF-8"]


@st.composite
def case(draw, tier):
    comp = draw(st.lists(gen.names(40), min_size=2, max_size=7, unique=True))
    if draw(st.integers(0, 3)) == 0:
        comp.append("header")
    if draw(st.integers(0, 5)) == 0:
        comp.append("attr-v2")
    path = st.lists(st.sampled_from(comp), min_size=1, max_size=draw(st.sampled_from([2, 3, 5]))).map("/".join)
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["lib", "lib", "lib", "py", "hand", "libempty", "pyempty", "handempty", "lib1", "group", "plain", "hidden", "hiddenfile", "meta", "gattr", "slash", "nothing"]))
        ops.append([k, draw(path)])
    return {"ops": ops, "tail": draw(st.sampled_from(["", "", "", "/", "//", "/."])), "again": draw(st.booleans())}


def corners(tier):
    wide = [["lib", "b%d" % ((i * 7) % 60)] for i in range(60)]
    long = "/".join(["n" * 200] * 6)
    return [{"ops": [["lib", long], ["libempty", long + "2"], ["hand", "n" * 200 + "/x/" + "m" * 200 + "/" + "k" * 255], ["lib", "e" * 255], ["group", "g" * 255 + "/" + "h" * 255]], "again": True},
            {"ops": [["lib", "header/header"], ["lib", "x"], ["group", "y/header"]], "again": True},
            {"ops": wide, "again": True},
            {"ops": [["lib", "a/b"], ["lib", "c"], ["meta", "c"], ["gattr", "a"], ["py", "a/d"]], "tail": "/", "again": True},
            {"ops": [["slash", "a/b"], ["libempty", "c"], ["meta", "c"], ["gattr", "a"], ["pyempty", "a/d"]], "tail": "//", "again": True},
            {"ops": [["lib", "a/b/c/d/e/f/g/h/i"], ["lib", "a/b/x"], ["meta", "a"], ["plain", "a/p"], ["hidden", "a/b"]], "again": True}]


ARMS = [Arm("tree", "mix", "c09", lambda tier: case(tier), quick=4000, thorough=60000, shards=8, corners=corners)]
