from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C14"
LEVEL = "fault_enumeration"
TECHNIQUE = "property-based testing with injected faults on chosen ranks: random collective histories, agreement of all ranks as the oracle"
NOTE = ("Random collective histories on 1-6 ranks with faults of the operating system on chosen ranks or files and arguments that cannot be served; every call must "
        "return everywhere, agree, leave a message on every rank, and what succeeded must be on disk.")
RULE = ("a case is a history of collective creates, opens, grows, writes, reads, flushes, closes and record calls, each perhaps under a fault: a file size or "
        "descriptor limit on some ranks only, a full, missing, unopenable or truncated file, an array of a type that cannot be converted on one rank, a range beyond the "
        "end; all ranks must return, agree and hold a message, and the position may move only with the rows; calls without a cause to fail must succeed and successes, those of record calls too, are checked on disk; non-trivial when a call "
        "failed on more than one rank")
ASSUMPTIONS = ["faults of the operating system, not of MPI itself", "a handle is discarded after a failed grow, as the call leaves it undefined"]


@st.composite
def fault(draw, data=True):
    if draw(st.integers(0, 2)) == 0:
        return ["call", draw(st.sampled_from(["open", "open", "write", "write", "close", "read", "seek", "mkdir"])), draw(st.one_of(st.integers(0, 1), st.integers(0, 3), st.integers(0, 12))),
                draw(st.one_of(st.just([0, 1, 2, 3, 4, 5]), st.lists(st.integers(0, 5), min_size=1, max_size=3)))]
    kind = draw(st.sampled_from(["fsize", "fsize", "nofile", "nofile", "full", "missing", "dir", "loop", "dangling", "trunc", "eio"]))
    t = draw(st.one_of(st.integers(0, 5), st.sampled_from(["header", "attr-v2"]))) if data else draw(st.sampled_from(["header", "attr-v2", 0]))
    if kind == "trunc" and not isinstance(t, int):
        t = 0
    if t == "attr-v2" and kind in ("missing", "eio", "dangling"):
        kind = "dir"
    k = draw(st.one_of(st.integers(0, 60), st.integers(0, 400)))
    ranks = draw(st.lists(st.integers(0, 5), min_size=1, max_size=3))
    return [kind, t, k, ranks]


@st.composite
def case(draw, tier):
    dt = draw(st.sampled_from(["<i4", ">f8", "<u1", "<i4", "<f8"]))
    nm = draw(st.sampled_from([1, 1, 2, 3]))
    fs = draw(st.lists(st.integers(0, 12), min_size=1, max_size=8))
    row = gen.item(dt) * nm
    maybe = st.one_of(st.none(), fault())
    ops = []
    if draw(st.integers(0, 3)):
        ops.append({"k": "w", "at": 0, "n": 10**5, "split": draw(st.integers(0, 2**30)), "conc": 0, "seed": 1, "bad": None, "fault": None})
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["w", "w", "w", "r", "r", "r", "create", "open", "open", "none", "grow", "attr", "rec"]))
        op = {"k": k, "fault": draw(maybe)}
        if k in ("w", "r"):
            op.update(at=draw(st.integers(0, 40)), n=draw(st.one_of(st.integers(0, 30), st.just(10**5), st.integers(10**6 + 1, 10**6 + 8))), split=draw(st.integers(0, 2**30)),
                      conc=draw(st.sampled_from([0, 0, 1, 2, 3, 100])), seed=draw(gen.SEED), bad=draw(st.one_of(st.none(), st.none(), st.integers(0, 5))))
        elif k == "create":
            op.update(fs=draw(st.lists(st.integers(0, 5), min_size=1, max_size=8)), isfile=draw(st.integers(0, 4)) == 0)
            if op["isfile"]:
                op["fault"] = None
        elif k == "none":
            op["name"] = draw(st.sampled_from(["nope", "no/pe", "b1/x"]))
        elif k == "grow":
            op["fs"] = draw(st.lists(st.integers(0, 5), max_size=7))
            if op["fault"] and isinstance(op["fault"][1], int):
                op["fault"] = draw(st.one_of(fault(data=False), st.builds(lambda r: ["nofile", 0, 0, r], st.lists(st.integers(0, 5), min_size=1, max_size=3))))
        elif k == "attr":
            op.update(n=draw(st.integers(0, 30)), seed=draw(gen.SEED))
            if [o for o in ops if o["k"] == "attr"]:
                op["n"] = [o for o in ops if o["k"] == "attr"][0]["n"]
        elif k == "rec":
            op.update(mode=draw(st.sampled_from(["w+", "w+", "a+", "write", "write", "read", "read", "x"])), at=draw(st.integers(0, 5)), n=draw(st.integers(0, 20)),
                      split=draw(st.integers(0, 2**30)), conc=draw(st.sampled_from([0, 1, 2])), seed=draw(gen.SEED))
        ops.append(op)
    return {"dt": dt, "nm": nm, "np": draw(st.integers(1, 6)), "fs": fs, "buf": draw(st.sampled_from([0, 0, row, row * 3])), "simple": draw(st.integers(0, 3)) == 0,
            "threshold": draw(st.sampled_from([0, 0, 1, 3, 10, 32 * 2**20])), "notdir": draw(st.integers(0, 6)) == 0, "ops": ops, "last": draw(st.one_of(st.none(), st.none(), fault()))}


def corners(tier):
    """records while each call fails in turn, on one rank or on all"""
    out = []
    rec = {"k": "rec", "at": 0, "n": 7, "split": 5, "conc": 0, "seed": 3, "fault": None}
    pre = [dict(rec, mode="w+"), dict(rec, mode="write")]
    for c in ("open", "write", "close", "read", "seek", "mkdir"):
        for k in range(10 if c == "open" else 16 if c in ("write", "close") else 6):
            for i, (mode, ranks) in enumerate((m, r) for m in ("w+", "a+", "write", "read") for r in ([0], [1])):
                f = ["call", c, k, ranks]
                ops = pre + [dict(rec, mode=mode, fault=f), dict(rec, mode="w+"), dict(rec, mode="write", at=2, n=4), dict(rec, mode="read")]
                out.append({"dt": "<i4", "nm": 1, "np": 2, "fs": [2], "buf": 0, "simple": False, "threshold": [0, 32 * 2**20][k % 2], "notdir": False, "ops": ops, "last": None})
    return out


ARMS = [Arm("mpi", "mpi6", "c14", lambda tier: case(tier), quick=1800, thorough=24000, shards=2, corners=corners, timeout=60)]
