from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C05"
LEVEL = "exploration"
NOTE = 'Positions and transfers on and around every boundary against range arithmetic, with a snapshot of files and positions around refused calls.'
RULE = ("a case is a block geometry (also without rows or files, and the meta block of a directory) and a history of absolute and relative "
        "seeks, clipped reads, and full or overlong transfers at all kinds of positions; the oracle is interval arithmetic, plus a snapshot of "
        "files, geometry, checksums, position and caller's memory around every refused call; non-trivial when at least one call was refused and "
        "one accepted")
ASSUMPTIONS = []

BIG = [2**31 - 1, 2**31, 2**32, 2**62, 2**63 - 1, -2**31, -2**32, -2**62, -2**63]


@st.composite
def case(draw, tier):
    meta = draw(st.integers(0, 24)) == 0
    fs = [] if meta else draw(gen.fsizes(small=draw(st.booleans())))
    total = sum(fs)
    dt = draw(gen.dtypes(["i4", "f8", "u1", "c16", "S5", "i2"]))
    nm = draw(st.sampled_from([1, 1, 2, 3]))
    row = gen.item(dt) * nm
    pos = st.one_of(gen.positions(fs), gen.positions(fs).map(lambda v: v - total), st.integers(-3, 3), st.integers(-3, 3).map(lambda v: total + v),
                    st.integers(-3, 3).map(lambda v: -total + v), st.sampled_from(BIG), st.integers(-2**63, 2**63 - 1))
    cnt = st.one_of(st.integers(0, 5), st.integers(0, total + 5), st.integers(-3, 3).map(lambda v: max(0, total + v)))
    ops = []
    for _ in range(draw(st.integers(2, 16))):
        k = draw(st.sampled_from(["seek", "seek", "rel", "rel", "simple", "simple", "read", "write", "write", "badtype", "reopen", "end"]))
        if k == "seek":
            ops.append([k, draw(pos)])
        elif k == "rel":
            ops.append([k, draw(st.one_of(st.integers(-4, 4), st.integers(-total - 4, total + 4), st.sampled_from([2**40, -2**40, 2**31, -2**31, 2**62, -2**62])))])
        elif k == "simple":
            ops.append([k, draw(pos), draw(st.one_of(cnt, st.sampled_from([-1, -2, -2**31, -2**62, 2**31, 2**40, 2**62, 2**63 - 1])))])
        elif k in ("read", "write"):
            ops.append([k, draw(st.one_of(cnt, st.none())), draw(gen.SEED)])
        elif k == "badtype":
            ops.append([k, draw(st.integers(1, 3)), draw(st.booleans())])
        else:
            ops.append([k])
    return {"dt": dt, "nm": nm, "fs": fs, "meta": meta, "buf": draw(st.sampled_from([0, row, row * 3, row * 8 + 1])), "ops": ops,
            "seed": draw(gen.SEED)}


def corners(tier):
    out = []
    for fs in ([], [0], [0, 0], [5], [0, 5, 0], [3, 0, 2, 0], [2, 3]):
        t = sum(fs)
        ops = []
        for p in list(range(-t - 2, t + 3)) + BIG:
            ops.append(["seek", p])
            ops += [["simple", p, c] for c in (0, 1, t, t + 1, -1, 2**63 - 1)]
        for p in range(0, t + 1):
            for r in range(-p - 2, t - p + 3):
                ops += [["seek", p], ["rel", r]]
            for n in range(0, t - p + 3):
                ops += [["seek", p], ["read", n, 1], ["seek", p], ["write", n, 2]]
            ops += [["seek", p], ["badtype", 1, True], ["badtype", 1, False]]
        for i in range(0, len(ops), 60):
            out.append({"dt": "<i4", "nm": 2, "fs": fs, "meta": False, "buf": 16, "ops": ops[i:i + 60], "seed": 3})
        if not fs:
            out.append({"dt": "<i4", "nm": 1, "fs": fs, "meta": True, "buf": 0, "ops": ops, "seed": 3})
    return out


ARMS = [Arm("bounds", "serial", "c05", lambda tier: case(tier), quick=9000, thorough=120000, shards=8, corners=corners)]
