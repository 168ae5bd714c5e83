import numpy as np
from .. import fmt, lib as L
from ..lib import need, ok


def run(case, ctx):
    dt, mt, nm = case["dt"], case["mt"], case["nm"]
    w = fmt.width(dt)
    row = w * nm
    L.set_buffer_size(case["buf"] or L.DEFAULT_BUFFER)
    root = ctx.dir + "/r"
    f = L.File(root, create=True).must()
    b = L.Block()
    fs = []
    npieces = 0
    for si, stage in enumerate(case["stages"]):
        base = sum(fs)
        full = stage_bytes(case, stage, row)
        if si == 0:
            ok(b.create(f, "b", dt, nm, stage["fs"]), "create")
        else:
            ok(b.grow(stage["fs"]), "grow")
            ctx.tag("grown")
        fs += stage["fs"]
        for op in stage["ops"]:
            if op[0] == "w":
                n = op[2]
                if full is not None:
                    raw = full[op[1] * row:(op[1] + n) * row]
                elif case["fill"] == "rnd":
                    raw = L.splitmix_bytes(case["seed"] + op[1], n * row) if mt == dt else \
                        (np.frombuffer(L.splitmix_bytes(case["seed"] + op[1], n * nm), "u1") % 120).astype(mt).tobytes()
                else:
                    raw = (b"\xff" if case["fill"] == "ff" and mt == dt else b"\0") * (n * nm * fmt.width(mt))
                b.put(base + op[1], raw, mt, (n, nm))
                npieces += n > 0
            elif op[0] == "fl":
                ok(b.flush(), "flush")
            elif op[0] == "attr":
                ok(b.set_attr("k", L.Buf(b"12345678"), "<i8", 1), "set_attr")
            else:
                ok(b.close(), "close")
                b = L.Block()
                ok(b.open(f, "b"), "open")
                ctx.tag("sessions>1")
        sums(b, root + "/b", fs)
    ok(b.close(), "close")
    b = L.Block()
    ok(b.open(f, "b"), "open")
    live = sums(b, root + "/b", fs)
    b.close()
    f.close()
    if any(s > 2**32 for s in live):
        ctx.tag("sum>2^32")
    if any(s > 65535 for s in live):
        ctx.tag("folded")
    if any((s % 2**32 & 0xffff) + (s % 2**32 >> 16) > 0xffff for s in live):
        ctx.tag("carry")
    ctx.nontrivial(npieces > 1 and sum(x > 0 for x in live) > 1)


def stage_bytes(case, stage, row):
    if case["fill"] != "carry" or case["mt"] != case["dt"]:
        return None
    return b"".join(fmt.carry(L.splitmix_bytes(case["seed"] + i, n * row)) for i, n in enumerate(stage["fs"]))


def sums(b, path, fs):
    """recorded sums, in memory and on disk, against the files -> true sums"""
    if b is not None:
        ok(b.flush(), "flush")
    h = fmt.read_header(path)
    true = []
    for i in range(len(fs)):
        with open(fmt.datafile(path, i), "rb") as fp:
            true.append(int(np.frombuffer(fp.read(), "u1").sum(dtype="u8")))
    want = [s % 2**32 for s in true]
    need(h["ck"] == want, "sums in the header %s, sums of the files %s", h["ck"], want)
    if b is not None:
        need(b.geom()[1] == want, "sums of the block %s, sums of the files %s", b.geom()[1], want)
    return true
