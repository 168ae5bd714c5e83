from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C08"
LEVEL = "exploration"
NOTE = 'Random partitions of rows into pieces, serially and collectively, with all sums recomputed from the files, and the tools on intact and damaged blocks.'
RULE = ("a case partitions the rows of a block into pieces and writes each piece exactly once, in any order, over several sessions, with "
        "grows, flushes and reopens between (serially, or by the ranks of a communicator), then recomputes every sum from the files "
        "independently; the tools arm runs sum -s, bigfile-ls -l and bigfile-check on the block, intact and with bytes changed; non-trivial when at least "
        "two pieces and two physical files with a non-zero sum took part")
ASSUMPTIONS = ["rewriting rows accumulates into the recorded sum by design; histories write each row at most once"]


@st.composite
def history(draw, total, maxops=12):
    """pieces covering each row at most once, as ops"""
    cuts = sorted(set(draw(st.lists(st.integers(0, total), max_size=maxops))) | {0, total})
    pieces = [[a, b - a] for a, b in zip(cuts, cuts[1:])]
    pieces = draw(st.permutations(pieces)) if pieces else []
    keep = draw(st.integers(0, 5))
    ops = []
    for p in pieces:
        if keep == 0 and draw(st.booleans()):
            continue
        ops.append(["w", p[0], p[1]])
        if draw(st.integers(0, 4)) == 0:
            ops.append([draw(st.sampled_from(["fl", "re", "attr"]))])
    return ops


@st.composite
def case(draw, tier, mpi=False):
    dt = draw(gen.dtypes(["i4", "f8", "u1", "c16", "S5", "i2", "u4"]))
    nm = draw(st.sampled_from([1, 1, 2, 3]))
    row = gen.item(dt) * nm
    stages = []
    fill = draw(st.sampled_from(["rnd", "rnd", "ff", "00", "carry"]))
    for i in range(draw(st.integers(1, 3))):
        fs = draw(gen.fsizes(small=bool(i) or mpi))
        if i == 0 and fill == "carry":
            # folding a sum can carry only if there are more than 514 bytes
            fs = fs[:5] + [draw(st.integers(515, 3000)) // row + 1] + fs[5:9]
        stages.append({"fs": fs, "ops": draw(history(sum(fs)))})
    mt = draw(gen.dtypes(gen.NUM)) if dt[1:] in gen.NUM and draw(st.booleans()) else dt
    if fill == "carry":
        mt = dt
    c = {"dt": dt, "mt": mt, "nm": nm, "stages": stages, "fill": fill,
         "buf": draw(st.sampled_from([0, row, row * 4, row * 9 + 1])), "seed": draw(gen.SEED)}
    if mpi:
        c["np"] = draw(st.integers(1, 6))
        c["threshold"] = draw(st.sampled_from([0, 1, 100, 32 * 2**20]))
        c["conc"] = draw(st.sampled_from([0, 1, 2, 3, 100]))
        c["split"] = draw(st.integers(0, 2**30))
    return c


@st.composite
def toolcase(draw, tier):
    blocks = []
    for i in range(draw(st.integers(1, 4))):
        dt = draw(gen.dtypes(["i4", "f8", "u1", "c16", "S5", "i2"]))
        big = draw(st.integers(0, 2)) == 0
        fs = draw(gen.fsizes(small=True)) + ([draw(st.integers(515, 3000))] if big else [])
        blocks.append({"dt": dt, "nm": draw(st.sampled_from([1, 2, 3])), "fs": fs, "carry": big and draw(st.booleans()), "seed": draw(gen.SEED),
                       "damage": draw(st.lists(st.tuples(st.integers(0, 2**30), st.integers(1, 255)).map(list), max_size=2))})
    return {"blocks": blocks}


def corners(tier):
    out = [{"dt": "<u1", "mt": "<u1", "nm": 1, "stages": [{"fs": [3, 0, 70000], "ops": [["w", 1, 70001], ["re"], ["w", 0, 1], ["w", 70002, 1]]}], "fill": "ff", "buf": 0, "seed": 1}]
    # the sum of a file passes 2^32
    out.append({"dt": "<u1", "mt": "<u1", "nm": 4096, "stages": [{"fs": [1, 4400], "ops": [["w", 0, 2000], ["re"], ["w", 2000, 2401]]}], "fill": "ff", "buf": 1 << 20, "seed": 1})
    # the sums of the files are 2^32 - 1, 2^32 + 254, 2^32 - 256 and, in two pieces, 2^32 + 509
    n = (2**32 - 1) // 255
    out.append({"dt": "<u1", "mt": "<u1", "nm": 1, "stages": [{"fs": [n, n + 1, n - 1, n + 2], "ops": [["w", 0, 3 * n + n // 2], ["w", 3 * n + n // 2, n - n // 2 + 2]]}],
                "fill": "ff", "buf": 0, "seed": 1})
    return out


ARMS = [Arm("serial", "serial", "c08", lambda tier: case(tier), quick=5000, thorough=70000, shards=4, corners=corners),
        Arm("tools", "cli", "c08t", lambda tier: toolcase(tier), quick=160, thorough=3000, shards=3),
        Arm("mpi", "mpi6", "c08m", lambda tier: case(tier, mpi=True), quick=500, thorough=8000, shards=1, timeout=60)]
