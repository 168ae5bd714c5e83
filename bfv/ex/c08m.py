"""the partitions of c08 written by all ranks of a communicator"""
import numpy as np
from .. import fmt, lib as L, mlib as M
from ..lib import need, ok
from .c08 import stage_bytes, sums


def run(case, ctx):
    comm = M.sub(case["np"])
    if comm is None:
        return
    me, np_ = comm.rank, comm.size
    dt, mt, nm = case["dt"], case["mt"], case["nm"]
    w = fmt.width(dt)
    mrow = fmt.width(mt) * nm
    L.set_buffer_size(case["buf"] or L.DEFAULT_BUFFER)
    M.set_threshold(case["threshold"])
    root = ctx.dir + "/r"
    T = lambda what, fn: M.together(comm, what, fn)
    f = M.File(comm, root, create=True)
    T("file", lambda: ok(f.rt, "create"))
    b = M.Block(comm)
    fs = []
    npieces = 0

    def check():
        T("flush", lambda rt=b.flush(): ok(rt, "flush"))
        T("sums", lambda: sums(None, root + "/b", fs) if me == 0 else None)

    for si, stage in enumerate(case["stages"]):
        base = sum(fs)
        full = stage_bytes(case, stage, mrow)
        if si == 0:
            T("create", lambda rt=b.create(f, "b", dt, nm, stage["fs"]): ok(rt, "create"))
        else:
            T("grow", lambda rt=b.grow(stage["fs"]): ok(rt, "grow"))
            ctx.tag("grown")
        fs += stage["fs"]
        for oi, op in enumerate(stage["ops"]):
            if op[0] == "w":
                n = op[2]
                if full is not None:
                    raw = full[op[1] * mrow:(op[1] + n) * mrow]
                elif case["fill"] == "rnd":
                    raw = L.splitmix_bytes(case["seed"] + op[1], n * mrow) if mt == dt else \
                        (np.frombuffer(L.splitmix_bytes(case["seed"] + op[1], n * nm), "u1") % 120).astype(mt).tobytes()
                else:
                    raw = (b"\xff" if case["fill"] == "ff" and mt == dt else b"\0") * (n * mrow)
                parts = M.pieces(n, np_, case["split"] + oi)
                a, mine = sum(parts[:me]), parts[me]
                p = L.Ptr()
                L.seek(b.h, p.h, base + op[1])
                rt = b.mwrite(p, L.Array(L.Buf(raw[a * mrow:(a + mine) * mrow]), mt, (mine, nm)), case["conc"])
                T("write", lambda: ok(rt, "write of %s at %d" % (parts, base + op[1])))
                npieces += n > 0
                if sum(x > 0 for x in parts) > 1:
                    ctx.tag("several-ranks")
            elif op[0] == "fl":
                check()
            elif op[0] == "attr":
                T("set_attr", lambda: ok(b.set_attr("k", L.Buf(b"12345678"), "<i8", 1), "set_attr"))
            else:
                T("close", lambda rt=b.close(): ok(rt, "close"))
                b = M.Block(comm)
                T("open", lambda rt=b.open(f, "b"): ok(rt, "open"))
                ctx.tag("sessions>1")
        if si % 2 == case["split"] % 2:
            check()
    T("close", lambda rt=b.close(): ok(rt, "close"))
    live = T("sums", lambda: sums(None, root + "/b", fs) if me == 0 else None)
    f.close()
    if me == 0:
        ctx.nontrivial(npieces > 1 and sum(x > 0 for x in live) > 1)
