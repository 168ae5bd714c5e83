from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C10"
LEVEL = "fault_enumeration"
TECHNIQUE = "property-based testing with injected operating system faults, enumerated over every byte of small histories and random over generated ones"
NOTE = ("Every byte limit of fixed histories is enumerated, and generated histories run with real faults of the operating system (file size limit, full "
        "device, missing, truncated, unopenable files, read errors, no file descriptors) and with single calls of the operating system failing, each in turn; the oracle is the disk content against what calls reported.")
RULE = ("a case is a history of creates, writes, reads, attribute changes, flushes, grows, closes and reopens (or an open and read of a block by another writer, or one call on records or on the attributes of a file or group) in which one fault at a time is in place; whatever "
        "calls reported as done must be on disk, and calls may fail only while a fault is in place; non-trivial when at least one operation reported a fault")
ASSUMPTIONS = ["faults are those the kernel reports through the calls the library makes; bytes accepted by the kernel, and by close, count as durable",
               "a missing attribute file cannot be told from a block without attributes"]

TARGETS = st.one_of(st.integers(0, 8), st.sampled_from(["header", "header", "attr-v2", "attr-v2", "attr"]))


CALLS = ["open", "write", "close", "read", "seek", "mkdir"]


@st.composite
def fault(draw, calls=False):
    if calls:
        return ["call", draw(st.sampled_from(["open", "write", "write", "close", "close", "read", "read", "seek", "mkdir"])), draw(st.one_of(st.integers(0, 6), st.integers(0, 40)))]
    kind = draw(st.sampled_from(["fsize", "fsize", "fsize", "full", "full", "missing", "dir", "loop", "dangling", "nofile", "trunc", "eio"]))
    t = draw(TARGETS)
    if kind == "trunc":
        t = draw(st.integers(0, 8))
    if kind == "missing" and t == "attr-v2":
        t = "header"
    k = draw(st.one_of(st.integers(0, 120), st.integers(0, 1200), st.sampled_from([4095, 4096, 4097, 8192, 5000])))
    return [kind, t, k]


@st.composite
def case(draw, tier, calls=False):
    dt = draw(gen.dtypes(["u1", "i4", "f8", "S5", "c16"]))
    nm = draw(st.sampled_from([1, 1, 2, 7]))
    row = gen.item(dt) * nm
    prof = draw(st.sampled_from(["few", "few", "few", "many"]))
    if prof == "few":
        fs = draw(st.lists(st.integers(0, 12), min_size=1, max_size=4))
    else:
        fs = [draw(st.integers(0, 3))] * draw(st.integers(60, 200))
    total = sum(fs)
    keys = ["a", "b", "c"]
    ops = []
    if draw(st.integers(0, 3)):
        ops.append(["w", 0, total, draw(gen.SEED)])
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["fault", "fault", "fault", "lift", "w", "w", "r", "attr", "attr", "rm", "fl", "fl", "re", "re", "grow"]))
        if k == "fault":
            ops.append(["fault"] + draw(fault(calls)))
        elif k == "w":
            ops.append(["w", draw(gen.positions(fs)), draw(st.integers(1, 20)), draw(gen.SEED)])
        elif k == "r":
            ops.append(["r", draw(gen.positions(fs)), draw(st.integers(1, 40))])
        elif k == "attr":
            ops.append(["attr", draw(st.sampled_from(keys)), draw(st.one_of(st.integers(0, 40), st.sampled_from([1000, 2100, 5000]))), draw(gen.SEED)])
        elif k == "rm":
            ops.append(["rm", draw(st.sampled_from(keys))])
        elif k == "grow":
            g = draw(st.lists(st.integers(0, 4), max_size=3))
            ops.append(["grow", g])
            fs = fs + g
        else:
            ops.append([k])
    first = [x for x in ops if x[0] == "grow"]
    for g in first:
        fs = fs[:len(fs) - len(g[1])]
    return {"dt": dt, "nm": nm, "fs": fs, "buf": draw(st.sampled_from([0, row, row * 3, row * 7 + 1])), "ops": ops,
            "keep": draw(st.booleans()), "cfault": draw(st.one_of(st.none(), st.none(), st.none(), st.just(["parent", 0, 0]), fault(calls)))}


def corners(tier):
    """every byte limit of a few histories, and every kind of fault on every kind of file at every step"""
    out = []
    step = 1
    base = {"dt": "<i4", "nm": 2, "fs": [3, 0, 7], "buf": 24, "keep": True}
    hist = {"create": lambda k: dict(base, cfault=["fsize", 0, k], ops=[["w", 0, 10, 1], ["fl"]]),
            "write": lambda k: dict(base, ops=[["w", 0, 10, 1], ["fault", "fsize", 0, k], ["w", 0, 10, 2], ["lift"], ["r", 0, 10], ["w", 0, 10, 3], ["re"], ["r", 0, 10]]),
            "first": lambda k: dict(base, ops=[["fault", "fsize", 0, k], ["w", 0, 10, 2]]),
            "flush": lambda k: dict(base, ops=[["w", 0, 10, 1], ["attr", "a", 30, 1], ["attr", "b", 9, 2], ["fault", "fsize", 0, k], ["fl"], ["lift"], ["fl"], ["re"]]),
            "close": lambda k: dict(base, ops=[["attr", "a", 30, 1], ["attr", "b", 9, 2], ["fault", "fsize", 0, k], ["re"]]),
            "close2": lambda k: dict(base, ops=[["w", 0, 10, 1], ["fault", "fsize", 0, k]]),
            "grow": lambda k: dict(base, ops=[["w", 0, 10, 1], ["fault", "fsize", 0, k], ["grow", [4, 1]], ["w", 10, 5, 4], ["fl"], ["lift"], ["fl"]])}
    top = {"create": 110, "write": 64, "first": 64, "flush": 160, "close": 160, "close2": 110, "grow": 140}
    for h, mk in hist.items():
        for k in range(0, top[h], step):
            out.append(mk(k))
    for k in (4000, 4090, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9000):
        out.append(dict(base, ops=[["attr", "a", 5000, 1], ["fault", "fsize", 0, k], ["fl"], ["lift"], ["fl"], ["re"]]))
        out.append(dict(base, fs=[1] * 300, ops=[["w", 0, 300, 1], ["fault", "fsize", 0, k], ["fl"], ["lift"], ["fl"], ["re"]]))
    for kind in ("full", "missing", "dir", "loop", "dangling", "nofile", "trunc", "eio"):
        for t in (0, 1, 2, "header", "attr-v2", "attr"):
            f = ["fault", kind, t, 8]
            pre = [["w", 0, 10, 1], ["attr", "a", 20, 1]]
            for body in ([["w", 0, 10, 2], ["lift"], ["r", 0, 10], ["fl"]], [["r", 0, 10], ["r", 0, 3], ["r", 5, 3]], [["fl"], ["lift"], ["fl"]],
                         [["re"]], [["attr", "b", 10, 3], ["fl"], ["lift"], ["fl"]], [["grow", [2]], ["fl"], ["lift"], ["fl"]]):
                for mid in ([], [["fl"]], [["re"]]):
                    for keep in (True, False):
                        out.append(dict(base, keep=keep, ops=pre + mid + [f] + body))
            out.append(dict(base, cfault=[kind, t, 8], ops=pre))
            out.append(dict(base, cfault=[kind, t, 8], fs=[], ops=[]))
    return out


def calls(tier):
    """every call of a few histories fails, each in turn"""
    out = []
    base = {"dt": "<i4", "nm": 2, "fs": [3, 0, 7], "buf": 24, "keep": True}
    pre = [["w", 0, 10, 1], ["attr", "a", 20, 1]]
    for c in CALLS:
        for k in range(40):
            f = ["fault", "call", c, k]
            for body in ([["w", 0, 10, 2], ["lift"], ["r", 0, 10], ["fl"]], [["r", 0, 10]], [["fl"], ["lift"], ["fl"]], [["w", 2, 4, 5], ["attr", "b", 10, 3], ["fl"], ["lift"], ["fl"], ["re"]],
                         [["re"], ["r", 0, 10]], [["grow", [2, 1]], ["w", 10, 3, 3], ["fl"], ["lift"], ["fl"]]):
                for mid in ([], [["fl"]], [["re"]]):
                    out.append(dict(base, ops=pre + mid + [f] + body))
            out.append(dict(base, cfault=f[1:], ops=pre))
        for k in (0, 12, 24, 36):
            for v1, v2 in (([], []), ([5, 900, 5], []), ([], [3, 900, 2]), ([3000, 3000], [3000, 3000]), ([0, 1], [0, 7])):
                out.append(opens(c, k, v1, v2))
    fields = [["x", "<i4", 1], ["y", "<f8", 3], ["z", ">i2", 1]]
    for c in CALLS:
        for k in range(60):
            for op in RECORD:
                out.append(rec(c, k, op, fields, [3, 0, 4], [2, 1], 2, 4, 0))
        for k in range(12):
            for op in META:
                for name in (".", "g/.", "g"):
                    out.append(rec(c, k, op, fields, [3, 0, 4], [2, 1], 2, 4, 0, name))
    return out


RECORD = ["create", "append", "write", "read"]
META = ["meta", "metaattr", "metaopen", "file"]


def rec(c, k, op, fields, fs, grow, at, n, buf, name=".", seed=5):
    return {"rec": op, "call": [c, k], "fields": fields, "fs": fs, "grow": grow, "at": at, "n": n, "buf": buf, "name": name, "seed": seed}


@st.composite
def mixed(draw, tier):
    """histories of a block, or one call on records"""
    if draw(st.integers(0, 4)):
        return draw(case(tier, True))
    fields = [[n, draw(gen.dtypes(["u1", "i4", "f8", "S5", "c16"])), draw(st.sampled_from([1, 1, 2, 7]))] for n in "abcd"[:draw(st.integers(1, 4))]]
    fs = draw(st.lists(st.integers(0, 9), min_size=0, max_size=5))
    total = sum(fs)
    return rec(draw(st.sampled_from(CALLS)), draw(st.one_of(st.integers(0, 20), st.integers(0, 120))), draw(st.sampled_from(RECORD)), fields, fs, draw(st.lists(st.integers(0, 4), max_size=3)),
               draw(st.integers(0, total)), draw(st.integers(0, total + 1)), draw(st.sampled_from([0, 16, 60])), ".", draw(gen.SEED))


def opens(c, k, v1, v2):
    return {"dt": "<i4", "nm": 2, "fs": [3, 0, 7], "buf": 24, "v1": v1, "v2": v2, "call": [c, k]}


@st.composite
def pycase(draw, tier):
    """the same under the Python binding: columns and datasets"""
    n = draw(st.integers(0, 20))
    dts = ["<i4", "<f8", ">u2", "|u1", "<c16", "<f4"]
    pool = ["a", "b"] if draw(st.booleans()) else ["a"]
    ops = []
    for x in pool:
        how = draw(st.sampled_from(["array", "array", "array", "empty"]))
        ops.append(["create", x, draw(st.sampled_from(dts)).replace("|", "<"), draw(st.sampled_from([1, 1, 3])), n if draw(st.integers(0, 7)) else draw(st.integers(0, 20)), draw(st.integers(1, 4)), draw(gen.SEED), how])
    name = st.sampled_from(pool)
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["fault", "fault", "fault", "lift", "write", "write", "read", "read", "attr", "attr", "rm", "flush", "flush", "close", "with", "append", "create",
                                  "dsread", "dswrite", "dsappend"]))
        if k == "fault":
            kind = draw(st.sampled_from(["fsize", "fsize", "dir", "missing", "trunc"]))
            t = draw(st.one_of(st.integers(0, 6), st.sampled_from(["header", "header", "attr-v2"]))) if kind in ("dir", "missing") else draw(st.integers(0, 6))
            ops.append([k, kind, draw(name), t, draw(st.one_of(st.integers(0, 40), st.integers(0, 200)))])
        elif k == "lift":
            ops.append([k])
        elif k == "write":
            ops.append([k, draw(name), draw(st.integers(0, 30)), draw(st.integers(1, 20)), draw(gen.SEED), draw(st.booleans())])
        elif k == "read":
            ops.append([k, draw(name), draw(st.integers(0, 30)), draw(st.integers(0, 40)), draw(st.booleans())])
        elif k == "attr":
            ops.append([k, draw(name), draw(st.sampled_from("xyz")), draw(st.integers(0, 30)), draw(gen.SEED)])
        elif k == "rm":
            ops.append([k, draw(name), draw(st.sampled_from("xyz"))])
        elif k == "append":
            ops.append([k, draw(name), draw(st.integers(0, 8)), draw(st.integers(1, 3)), draw(gen.SEED)])
        elif k == "create":
            ops.append([k, draw(st.sampled_from(["z", "z2", "z3"])), "<i4", draw(st.sampled_from([1, 2])), draw(st.integers(0, 20)), draw(st.integers(1, 3)), draw(gen.SEED), draw(st.sampled_from(["array", "empty"]))])
        elif k.startswith("ds"):
            ops.append([k, draw(st.integers(0, 30)), draw(st.integers(0, 20)), draw(gen.SEED)])
        else:
            ops.append([k, draw(name)])
    return {"ops": ops, "buf": draw(st.sampled_from([0, 0, 24, 64]))}


def pycorners(tier):
    """every byte limit of a few calls, and every kind of fault on every kind of file"""
    out = []
    base = [["create", "a", "<i4", 1, 6, 3, 1, "array"], ["create", "b", "<f8", 1, 6, 2, 2, "array"]]
    calls_ = [["write", "a", 0, 6, 3, True], ["write", "a", 1, 4, 3, False], ["read", "a", 0, 6, True], ["read", "a", 1, 3, False], ["append", "a", 3, 1, 4], ["append", "a", 0, 1, 4], ["append", "a", 0, 2, 4], ["flush", "a"], ["close", "a"], ["with", "a"],
              ["dsread", 0, 6, 0], ["dswrite", 0, 6, 5], ["dsappend", 1, 4, 5], ["dsappend", 1, 0, 5], ["create", "z", "<i4", 1, 6, 2, 1, "array"], ["create", "z", "<i4", 1, 6, 2, 1, "empty"]]
    pres = [[], [["attr", "a", "x", 3, 1]], [["write", "a", 0, 6, 9, True]], [["close", "a"]], [["write", "a", 0, 6, 9, True], ["flush", "a"]], [["close", "a"], ["close", "b"]]]
    for c in calls_:
        for pre in pres:
            fs = [["fault", "fsize", "a", 0, k] for k in (0, 1, 4, 8, 10, 17, 24, 40, 60, 80, 100)]
            fs += [["fault", kind, "a", t, 3] for kind, ts in (("dir", (0, 1, 2, 5, 6, "header", "attr-v2")), ("missing", (0, 1, 2, "header")), ("trunc", (0, 1, 2))) for t in ts]
            for f in fs:
                out.append({"ops": base + pre + [f, c], "buf": 0})
                out.append({"ops": base + pre + [f, c, ["lift"], c, ["read", "a", 0, 6, True]], "buf": 0})
    return out


ARMS = [Arm("serial", "serial", "c10", lambda tier: case(tier), quick=6000, thorough=90000, shards=6, corners=corners),
        Arm("calls", "serial", "c10", lambda tier: mixed(tier), quick=6000, thorough=60000, shards=5, corners=calls),
        Arm("py", "py", "c10p", lambda tier: pycase(tier), quick=6000, thorough=60000, shards=5, corners=pycorners)]
