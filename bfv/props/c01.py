from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C01"
LEVEL = "exploration"
NOTE = 'Random histories of writes, reads, flushes and reopens over generated geometries against a row-array model, AddressSanitizer on; nothing is proved outside the generated geometries.'
RULE = ("a case is a block geometry (type, members, rows per physical file), an I/O buffer size and a history of write/read/"
        "seek/flush/reopen/buffer-size operations, some through a second open handle of the block, run against the library and a per-row reference model; non-trivial when a row was "
        "written, at least two reads were compared, and some transfer crossed a physical-file or buffer-chunk boundary or overwrote rows")
ASSUMPTIONS = ["the sandbox file system (tmpfs or overlay) stores bytes faithfully"]


@st.composite
def case(draw, tier):
    dt = draw(gen.dtypes())
    nm = draw(st.sampled_from([1, 1, 1, 2, 3, 3, 4, 7, 40]))
    fs = draw(gen.fsizes(huge=True).filter(lambda v: True))
    row = gen.item(dt) * nm
    buf = draw(gen.buffers(row))
    total = sum(fs)
    huge = total > 10**6
    nmax = 40 if huge else 600

    def span(p):
        left = min(total - p, nmax)
        return min(left, draw(st.one_of(st.integers(0, 6), st.integers(0, 40), st.integers(0, nmax))))
    ops = []
    if not huge and draw(st.integers(0, 3)):
        ops.append(["w", 0, total, draw(gen.SEED)])
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["w", "w", "w", "wc", "r", "r", "r", "rc", "rc", "rs", "fl", "re", "re", "buf", "sk", "hw", "hr", "hc"]))
        p = draw(gen.positions(fs))
        if k in ("w", "r", "rs", "hw", "hr"):
            ops.append([k, p, span(p)] + ([draw(gen.SEED)] if k in ("w", "hw") else []))
        elif k in ("wc", "rc"):
            ops.append([k, draw(st.integers(0, 30))] + ([draw(gen.SEED)] if k == "wc" else []))
        elif k == "buf":
            ops.append([k, draw(gen.buffers(row))])
        elif k == "sk":
            ops.append([k, p])
        else:
            ops.append([k])
    return {"dt": dt, "nm": nm, "fs": fs, "buf": buf, "ops": ops}


def corners(tier):
    out = []
    for dt in ("<f8", ">i4", "<u1"):
        out.append({"dt": dt, "nm": 1, "fs": [100, 0, 0, 37, 1], "buf": gen.item(dt) * 7,
                    "ops": [["w", 0, 138, 1], ["r", 0, 138], ["re"], ["r", 99, 39], ["w", 98, 5, 2], ["re"], ["r", 90, 48]]})
    out.append({"dt": "<i4", "nm": 1, "fs": [2**31 + 10, 0, 5], "buf": 0,
                "ops": [["w", 2**31 - 2, 17, 3], ["re"], ["r", 2**31 - 2, 17], ["w", 2**31 + 9, 3, 4], ["r", 2**31, 15]]})
    out.append({"dt": "<f8", "nm": 3, "fs": [1000003], "buf": 0, "ops": [["w", 0, 1000003, 5], ["re"], ["r", 999999, 4], ["r", 1, 5000]]})
    if tier == "thorough":
        out.append({"dt": "<f8", "nm": 1, "fs": [5, 9000000, 3, 100], "buf": 0,
                    "ops": [["w", 0, 9000108, 6], ["re"], ["r", 0, 9000108]]})
    return out


ARMS = [Arm("model", "serial", "c01", lambda tier: case(tier), quick=12000, thorough=120000, shards=8, corners=corners)]
