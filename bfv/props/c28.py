from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing of the executable: several configurations of ranks and files must select the same subsequence, read by an independent reader"
NOTE = 'Generated blocks, ratios and several configurations of ranks and files through the built tool; the results must be equal subsequences of the source, which stays as it was.'
RULE = ("a case writes a block of random rows with an independent writer and runs the built bigfile-sample-mpi on it two or three times with other numbers of ranks, of files of the source and "
        "of the result and other destinations (also over existing blocks), or with a damaged source, an impossible ratio or destination; results are read independently; non-trivial when two runs could be compared on selected rows")
ASSUMPTIONS = ["one rank (refused) is not claimed", "no statistical claim about which rows are selected"]


@st.composite
def one(draw):
    return [draw(st.sampled_from([2, 2, 3, 4, 5])), draw(st.one_of(st.just(0), st.integers(1, 9))), draw(st.one_of(st.none(), st.lists(st.integers(0, 10**7), max_size=5))), draw(st.booleans()), draw(st.integers(0, 3)) == 0]


@st.composite
def case(draw, tier):
    large = draw(st.integers(0, 19)) == 0
    fs = draw(gen.fsizes())
    counter = draw(st.booleans()) or large
    dt = draw(gen.dtypes(["i4", "u4", "i8", "f8"] if counter else ["i4", "f8", "S5", "u1", "i2", "c16", "u8"]))
    nm = draw(st.sampled_from([1, 1, 2, 3]))
    if large:
        fs, dt, nm = [draw(st.integers(2**20 - 3, 2**20 + 3)), draw(st.integers(0, 2**20 + 3)), draw(st.sampled_from([0, 0, 1, 2**20]))], draw(gen.dtypes(["i4", "u4"])), 1
    ratio = draw(st.sampled_from([None, "1", "1.0", "0", "0.5", "0.1", "0.9", "0.999", "0.01", "1e-1", ".3", "0.5"]))
    fault = draw(st.sampled_from([None] * 7 + ["short", "missing", "noblock", "self", "destfile", "ratio"])) if not large else None
    k = draw(st.integers(0, 3))
    return {"dt": dt, "nm": nm, "fs": fs, "counter": counter, "seed": draw(gen.SEED), "ratio": ratio, "fault": fault, "runs": draw(st.lists(one(), min_size=2 if fault is None else 1, max_size=3)),
            "attrs": [["abc"[i], draw(gen.dtypes(["i4", "f8", "S1", "u8"])), draw(st.integers(0, 20))] for i in range(k)]}


def corners(tier):
    return [{"dt": "<u4", "nm": 1, "fs": [2**20, 2**20, 777], "counter": True, "seed": 1, "ratio": r, "fault": None, "runs": [[2, 0, None, False, False], [4, 3, None, True, False]], "attrs": []} for r in ("0.3", "1")]


ARMS = [Arm("mpi", "cli", "c28", lambda tier: case(tier), quick=160, thorough=1500, shards=6, corners=corners, timeout=250)]
