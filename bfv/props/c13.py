from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: random histories of collective writes and reads, differential against the serial calls"
NOTE = "Random histories of collective writes and reads by 1-6 ranks, compared step by step and byte for byte with serial calls on a second block."
RULE = ("a case is a history of collective writes and reads at any position, with any split of the rows over 1-6 ranks, number of concurrent writers, "
        "aggregation threshold, type conversion and memory layout per rank; the oracle is a second block of the same geometry to which rank 0 writes the "
        "concatenated rows serially, compared byte for byte (data files and header) at the end, and for reads the serial read of the same rows; non-trivial "
        "when at least two operations moved rows and one was shared by several ranks")
ASSUMPTIONS = ["all ranks pass the same position, type and concurrency; the default single node Open MPI transport", "rewritten rows add to the recorded sum in both blocks"]

NUM = ["i4", "u4", "i8", "u8", "f4", "f8"]


def memtype(dt):
    k = dt[1:]
    if k in NUM:
        return gen.dtypes(NUM + [k])
    if k in ("c8", "c16"):
        return gen.dtypes(["c8", "c16"])
    return gen.dtypes([k])


@st.composite
def case(draw, tier):
    dt = draw(gen.dtypes(["i4", "f8", "u1", "c16", "S5", "i2", "u8", "f4", "c8"]))
    nm = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 3, 7, 7, 40, 300]))
    np_ = draw(st.integers(1, 6))
    fs = draw(st.one_of(gen.fsizes(small=True, minfiles=1), st.lists(st.integers(0, 60), min_size=1, max_size=4)))
    total = sum(fs)
    row = gen.item(dt) * nm
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["w", "w", "w", "r", "r", "r", "w", "re", "fl"]))
        if k in ("re", "fl"):
            ops.append({"k": k})
            continue
        at = draw(st.one_of(gen.positions(fs), st.just(0), st.none()))
        n = draw(st.one_of(st.integers(0, max(0, total - (at or 0))), st.just(10**6), st.just(total // 2), st.integers(0, 12)))
        same = draw(st.booleans())
        ops.append({"k": k, "at": at, "n": n, "mt": dt if same else draw(memtype(dt)), "split": draw(st.integers(0, 2**30)),
                    "conc": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 100, -1])),
                    "lay": draw(st.lists(st.sampled_from(["c", "c", "flat", "pad", "fort", "neg", "skip", "one", "col", "row", "cube"]), min_size=1, max_size=4)),
                    "seed": draw(gen.SEED), "mode": draw(st.sampled_from(["small", "edge", "wide"]))})
    return {"fill": draw(st.sampled_from([1, 2, 3, 4, 5, 6, 0])), "dt": dt, "nm": nm, "np": np_, "fs": fs, "buf": draw(st.sampled_from([0, 0, row, row * 3, row * 9 + 1])),
            "threshold": draw(st.sampled_from([0, 0, 1, 2, 3, 5, 10, 20, 50, 32 * 2**20, 32 * 2**20])), "ops": ops}


def corners(tier):
    out, big = [], []
    for th in (0, 1, 4, 1 << 25):
        for conc in (1, 2, 0):
            for split in range(6):
                op = {"at": 0, "n": 100, "mt": "<f8", "split": split, "conc": conc, "lay": ["c", "flat", "pad"], "seed": split, "mode": "small"}
                out.append({"fill": 0, "dt": "<i4", "nm": 2, "np": 6, "fs": [7, 0, 13, 5], "buf": 0, "threshold": th,
                            "ops": [dict(op, k="w"), dict(op, k="r"), dict(op, k="r", at=3), dict(op, k="w", at=5, n=7), dict(op, k="r")]})
    # more rows on a rank than a short counts
    for np_, n, dt, th in ((2, 150001, "<u1", 0), (3, 140000, "<u1", 1 << 25), (2, 70000, "<i4", 50000), (1, 66000, "<u1", 0), (6, 600000, "<u1", 0)):
        for conc in (0, 1):
            for split in (0, 2, 5):
                op = {"at": 0, "n": n, "mt": dt, "split": split, "conc": conc, "lay": ["c", "flat"], "seed": split, "mode": "small"}
                big.append({"fill": 0, "dt": dt, "nm": 1, "np": np_, "fs": [n // 3, 0, n - n // 3], "buf": 0, "threshold": th,
                            "ops": [dict(op, k="w"), dict(op, k="r"), dict(op, k="w", at=5, n=n - 7), dict(op, k="r", at=0)]})
    if tier != "thorough":
        big = big[::4]
    return big + (out if tier == "thorough" else out[::5])


ARMS = [Arm("mpi", "mpi6", "c13", lambda tier: case(tier), quick=2200, thorough=30000, shards=2, corners=corners, timeout=90)]
