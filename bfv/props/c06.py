from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C06"
LEVEL = "exploration"
NOTE = 'Random histories of attribute operations against a map model, checked in memory, on disk and after reopening.'
RULE = ("a case is a history of set, overwrite, remove, get (stored, convertible, unsupported type, wrong count, unknown name), lookup, list, "
        "flush and reopen operations on the attributes of a data block or of the meta block of a directory; a dictionary is the oracle, "
        "compared completely after every operation and, by an independent reader of attr-v2, after every flush; non-trivial when an "
        "attribute was overwritten or removed and the block was reopened")
ASSUMPTIONS = ["attributes of an old version 1 file are covered by C02 (read) only"]
ATYPES = gen.KINDS + ["S1", "S1", "a1", "i4", "f8", "S32", "S200"]


@st.composite
def case(draw, tier):
    pool = draw(st.lists(gen.attrnames(), min_size=1, max_size=draw(st.sampled_from([2, 4, 8, 30])), unique=True))
    name = st.sampled_from(pool)
    nmemb = st.one_of(st.integers(0, 3), st.integers(0, 40), st.sampled_from([64, 127, 128, 129, 130, 1000, 5000]))
    dtype = st.one_of(gen.dtypes(ATYPES), gen.dtypes(["S1", "a1"], "<"), st.sampled_from(["i4", "=f8", "|S1", "S7", "u8", "|b1"]))
    ops = []
    for _ in range(draw(st.integers(1, draw(st.sampled_from([6, 20, 50]))))):
        k = draw(st.sampled_from(["set", "set", "set", "set", "set", "del", "del", "get", "getas", "badget", "badname", "badtype", "flush", "reopen", "reopen", "other", "grow"]))
        if k == "set":
            ops.append([k, draw(name), draw(dtype), draw(nmemb), draw(gen.SEED), draw(st.sampled_from(["raw", "text", "num"]))])
        elif k in ("del", "get"):
            ops.append([k, draw(name)])
        elif k == "getas":
            ops.append([k, draw(name), draw(gen.dtypes(gen.NUM))])
        elif k == "badget":
            ops.append([k, draw(name), draw(st.sampled_from(["type", "more", "less", "name"]))])
        elif k == "badtype":
            ops.append([k, draw(name), draw(st.sampled_from(["S100000", "|S100000", "<S123456", "S999999", "=S1000000"])), draw(st.integers(0, 1))])
        elif k == "badname":
            n = draw(name)
            i = draw(st.integers(0, len(n)))
            ops.append([k, draw(st.sampled_from([n[:i] + c + n[i:] for c in " \t\n"] + [""]))])
        else:
            ops.append([k])
    return {"meta": draw(st.integers(0, 5)) == 0, "ops": ops}


def corners(tier):
    many = [["set", "n%03d" % ((i * 37) % 100), "<f8", i % 5, i, "num"] for i in range(100)]
    return [{"meta": m, "ops": many + [["reopen"]] + [["del", "n%03d" % i] for i in range(0, 100, 3)] + [["reopen"]] + many[:50] + [["reopen"]]} for m in (False, True)] + \
        [{"meta": False, "ops": [["set", "x", ">c16", 3, 1, "num"], ["flush"], ["getas", "x", "<f8"], ["reopen"], ["del", "x"], ["flush"], ["reopen"], ["get", "x"]]}]


ARMS = [Arm("history", "serial", "c06", lambda tier: case(tier), quick=9000, thorough=120000, shards=8, corners=corners)]
