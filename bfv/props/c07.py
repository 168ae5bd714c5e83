from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C07"
LEVEL = "exploration"
NOTE = 'Random histories of grows, writes and reopens against a row model, checking old rows, checksums and files after every grow; serially and collectively.'
RULE = ("a case is a history of grows (any per-file sizes, also empty files and no files), writes, reads, attribute changes, flushes and "
        "reopens on one block, serially or by all ranks of a communicator; the oracle is a row model plus the invariant that a grow leaves files, "
        "sums and rows that existed as they were; non-trivial when rows written before a grow were read after it and rows of the grown part were "
        "written")
ASSUMPTIONS = ["no second handle is used while a block grows (documented)"]


@st.composite
def case(draw, tier, mpi=False):
    dt = draw(gen.dtypes(["i4", "f8", "u1", "c16", "S5", "i2", "u4"]))
    nm = draw(st.sampled_from([1, 1, 2, 3]))
    fs = draw(gen.fsizes(small=True)) if draw(st.integers(0, 3)) else []
    row = gen.item(dt) * nm
    ops = []
    total = sum(fs)
    for _ in range(draw(st.integers(2, 8 if mpi else 14))):
        k = draw(st.sampled_from(["grow", "grow", "grow", "w", "w", "w", "all", "tail", "tail", "r", "attr", "fl", "re", "re"]))
        if k == "grow":
            g = draw(st.one_of(st.lists(st.integers(0, 8), max_size=4), gen.fsizes(small=True), st.just([0]), st.just([])))
            total += sum(g)
            ops.append([k, g] + ([draw(st.booleans())] if mpi else []))
            if draw(st.integers(0, 3)) == 0:
                # left over from something that was interrupted: bytes where the new files go
                ops.insert(-1, ["litter", draw(st.integers(0, 4)), draw(st.sampled_from([0, 1, 7, 400]))])
        elif k == "w":
            p = draw(st.integers(0, total))
            ops.append([k, p, draw(st.integers(0, min(40, total - p))), draw(gen.SEED)])
        elif k in ("all", "tail"):
            ops.append([k, draw(gen.SEED)])
        elif k == "r":
            p = draw(st.integers(0, total))
            ops.append([k, p, draw(st.integers(0, min(40, total - p)))])
        elif k == "attr":
            ops.append([k, draw(st.sampled_from(["a", "b", "c"])), draw(st.integers(0, 20)), draw(gen.SEED)])
        else:
            ops.append([k])
    c = {"dt": dt, "nm": nm, "fs": fs, "buf": draw(st.sampled_from([0, row, row * 4, row * 9 + 1])), "ops": ops}
    if mpi:
        c["np"] = draw(st.integers(1, 6))
        c["threshold"] = draw(st.sampled_from([0, 1, 100, 32 * 2**20]))
    return c


def corners(tier):
    return [{"dt": "<i4", "nm": 1, "fs": [2], "buf": 0, "ops": [["all", 1]] + [["grow", [1, 0, 2]], ["tail", 3], ["re"]] * 100},
            {"dt": ">f8", "nm": 3, "fs": [], "buf": 0, "ops": [["grow", [0]], ["grow", [5]], ["all", 1], ["grow", [0, 0, 7]], ["tail", 2], ["re"], ["grow", []], ["re"]]}]


ARMS = [Arm("serial", "serial", "c07", lambda tier: case(tier), quick=9000, thorough=100000, shards=5, corners=corners),
        Arm("mpi", "mpi6", "c07m", lambda tier: case(tier, mpi=True), quick=400, thorough=8000, shards=1, timeout=60)]
