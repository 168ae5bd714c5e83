import numpy as np
from .. import lib as L
from ..lib import need, ok


def run(case, ctx):
    dt, nm, fs = case["dt"], case["nm"], case["fs"]
    row = int(dt[2:]) * nm
    total = sum(fs)
    cur_buf = case["buf"] or L.DEFAULT_BUFFER
    L.set_buffer_size(cur_buf)
    f = L.File(ctx.dir + "/f", create=True).must()
    blk = L.Block()
    ok(blk.create(f, "b", dt, nm, fs), "create")
    model = {}
    ends = np.cumsum([0] + fs)
    ptr = L.Ptr()
    ok(L.seek(blk.h, ptr.h, 0), "seek 0")
    pos = 0
    compared = 0
    valid = True

    def classify(p, n):
        if n == 0:
            return
        a, z = np.searchsorted(ends, p, "right"), np.searchsorted(ends, p + n - 1, "right")
        if a != z:
            ctx.tag("crosses-file")
        if n * row > max(cur_buf // row * row, row):
            ctx.tag("crosses-chunk")
        if p + n > 2**31:
            ctx.tag("huge-offset")

    def at():
        t = L.tell(blk.h, ptr.h)
        need(t == pos, "position is row %d, expected row %d", t, pos)
        e = bool(L.eof(blk.h, ptr.h))
        need(e == (pos == total), "eof reported %s at row %d of %d", e, pos, total)

    second = []  # another open handle of the block and its position, kept over several operations

    def other():
        if not second:
            b = L.Block()
            ok(b.open(f, "b"), "open a second handle")
            second.extend([b, L.Ptr()])
        return second

    def close_other():
        if second:
            b = second[0]
            del second[:]
            ok(b.close(), "close the second handle")

    def do_write(n, seed):
        nonlocal pos
        data = L.splitmix_bytes(seed, n * row)
        buf = L.Buf(data)
        if nm == 1 and seed % 2:
            a = L.Array(buf, dt, (n,))
        else:
            a = L.Array(buf, dt, (n, nm))
        classify(pos, n)
        ok(L.write(blk.h, ptr.h, a.h), "write of %d rows at %d" % (n, pos))
        need(buf.bytes() == data, "write changed the caller's memory")
        for i in range(n):
            r = pos + i
            if r in model:
                ctx.tag("overwrite")
            model[r] = data[i * row:(i + 1) * row]
        pos += n
        if n:
            ctx.tag("write")

    def compare(got, p, n):
        for i in range(n):
            w = model.get(p + i)
            if w is not None and got[i * row:(i + 1) * row] != w:
                need(False, "row %d reads %s, last written %s", p + i, got[i * row:(i + 1) * row].hex(), w.hex())

    def do_read(n):
        nonlocal pos, valid, compared
        buf = L.Buf(n * row).fill(0xA5)
        a = L.Array(buf, dt, (n,) if nm == 1 and n % 2 else (n, nm))
        classify(pos, n)
        rt = L.read(blk.h, ptr.h, a.h)
        full = n == 0 or all((pos + i) in model for i in range(n))
        if rt != 0:
            need(not full, "read of %d written rows at %d failed: %s", n, pos, L.errmsg())
            ctx.tag("unwritten-read-error")
            ok(L.seek(blk.h, ptr.h, pos), "seek back")
            return
        compare(buf.bytes(), pos, n)
        compared += n > 0
        pos += n

    for op in case["ops"]:
        k = op[0]
        if k in ("w", "r", "sk"):
            pos = op[1]
            ok(L.seek(blk.h, ptr.h, pos), "seek %d of %d" % (pos, total))
            at()
        if k == "w":
            do_write(op[2], op[3])
            at()
        elif k == "r":
            do_read(op[2])
            at()
        elif k == "wc":
            do_write(min(op[1], total - pos), op[2])
            at()
            ctx.tag("continued")
        elif k == "rc":
            do_read(min(op[1], total - pos))
            at()
            ctx.tag("continued")
        elif k == "rs":
            p, n = op[1], op[2]
            a = L.Array()
            rt = L.read_simple(blk.h, p, n, a.h, None)
            full = all((p + i) in model for i in range(n))
            if rt != 0:
                need(not full, "read_simple(%d,%d) failed: %s", p, n, L.errmsg())
            else:
                got = L.C.string_at(L.array_data(a.h), n * row)
                need(L.array_dim(a.h, 0) == n, "read_simple returned %d rows, wanted %d", L.array_dim(a.h, 0), n)
                compare(got, p, n)
                compared += n > 0
                L.free(L.array_data(a.h))
        elif k in ("hw", "hr"):
            # what one handle of the block has written is what any other reads
            keep, main, mptr = pos, blk, ptr
            try:
                blk, ptr = other()
                pos = op[1]
                ok(L.seek(blk.h, ptr.h, pos), "seek %d of %d through the second handle" % (pos, total))
                if k == "hw":
                    do_write(op[2], op[3])
                else:
                    do_read(op[2])
                at()
            finally:
                pos, blk, ptr = keep, main, mptr
            ctx.tag("second-handle")
        elif k == "hc":
            close_other()
        elif k == "fl":
            ok(blk.flush(), "flush")
        elif k == "buf":
            cur_buf = op[1] or L.DEFAULT_BUFFER
            L.set_buffer_size(cur_buf)
        elif k == "re":
            ok(blk.close(), "close")
            blk = L.Block()
            ok(blk.open(f, "b"), "reopen")
            need(blk.dtype == dt and blk.nmemb == nm and blk.geom()[0] == fs, "geometry changed over reopen: %s %d %s",
                 blk.dtype, blk.nmemb, blk.geom()[0])
            ok(L.seek(blk.h, ptr.h, pos), "seek")
            ctx.tag("reopen")
    # everything written must be there at the end, too
    close_other()
    ok(blk.close(), "final close")
    blk = L.Block()
    ok(blk.open(f, "b"), "final open")
    rows = sorted(model)
    runs = []
    for r in rows:
        if runs and runs[-1][1] == r:
            runs[-1][1] = r + 1
        else:
            runs.append([r, r + 1])
    for a0, z in runs:
        ok(L.seek(blk.h, ptr.h, a0), "final seek")
        pos = a0
        do_read(z - a0)
        at()
    blk.close()
    f.close()
    ctx.tag("dtype-" + dt)
    if len(fs) > 16:
        ctx.tag("files>16")
    if 0 in fs[1:-1]:
        ctx.tag("empty-file-inside")
    ctx.nontrivial(compared >= 2 and any(t in ctx.tags for t in ("crosses-file", "crosses-chunk", "overwrite")))
