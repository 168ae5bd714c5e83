"""collective writes and reads against serial ones of the concatenated rows"""
from .. import fmt, lib as L, mlib as M
from ..lib import need, ok
from .c03 import values


def run(case, ctx):
    comm = M.sub(case["np"])
    if comm is None:
        return
    me, np_ = comm.rank, comm.size
    dt, nm, fs = case["dt"], case["nm"], case["fs"]
    w = fmt.width(dt)
    total = sum(fs)
    L.set_buffer_size(case["buf"] or L.DEFAULT_BUFFER)
    M.set_threshold(case["threshold"])
    root = ctx.dir + "/r"
    f = M.File(comm, root, create=True)
    M.together(comm, "create file", lambda: ok(f.rt, "create"))
    b = M.Block(comm)
    M.together(comm, "create", lambda rt=b.create(f, "m", dt, nm, fs): ok(rt, "create"))
    p = L.Ptr()
    if me == 0:
        sb, sp = L.Block(), L.Ptr()
    M.together(comm, "create serially", lambda: me or ok(sb.create(f, "s", dt, nm, fs), "create"))
    pos = 0
    moved = shared = 0
    if case["fill"]:
        rows = L.splitmix_bytes(5, total * nm * w)
        parts = M.pieces(total, np_, case["fill"])
        a, n = sum(parts[:me]), parts[me]
        rt = b.mwrite(p, L.Array(L.Buf(rows[a * nm * w:(a + n) * nm * w]), dt, (n, nm)), 0)
        M.together(comm, "fill", lambda: ok(rt, "write of all rows"))
        M.together(comm, "fill serially", lambda: sb.put(0, rows, dt, (total, nm)) if me == 0 else None)
        pos = total
    for op in case["ops"]:
        k = op["k"]
        if k == "re":
            M.together(comm, "close", lambda rt=b.close(): ok(rt, "close"))
            b = M.Block(comm)
            M.together(comm, "open", lambda rt=b.open(f, "m"): ok(rt, "open"))
            if me == 0:
                sb.close()
                sb = L.Block()
                sb.open(f, "s")
            ctx.tag("reopen")
            continue
        if k == "fl":
            M.together(comm, "flush", lambda rt=b.flush(): ok(rt, "flush"))
            continue
        if op["at"] is not None:
            pos = op["at"]
            M.together(comm, "seek", lambda: ok(L.seek(b.h, p.h, pos), "seek"))
        n = min(op["n"], total - pos)
        mt, conc = op["mt"], op["conc"]
        mw = fmt.width(mt)
        parts = M.pieces(n, np_, op["split"])
        base = sum(parts[:me])
        mine = parts[me]
        lay = op["lay"][me % len(op["lay"])]
        if k == "w":
            rows = values(mt, dt, n * nm, op["seed"], op["mode"])
            buf, dims, strides, off, idx = M.layout(lay, mine, nm, mw, rows[base * nm * mw:(base + mine) * nm * mw])
            before = buf.bytes()
            rt = b.mwrite(p, L.Array(buf, mt, dims, strides, off), conc)
            M.together(comm, "collective write", lambda: ok(rt, "write of %s at %d" % (parts, pos)))
            M.together(comm, "collective write", lambda: need(buf.bytes() == before, "writing changed the memory it came from"))

            def serially():
                if me == 0:
                    sb.put(pos, rows, mt, (n, nm))
            M.together(comm, "serial write", serially)
        else:
            buf, dims, strides, off, idx = M.layout(lay, mine, nm, mw)
            rt = b.mread(p, L.Array(buf, mt, dims, strides, off), conc)
            want = None
            if me == 0:
                q, sbuf = L.Ptr(), L.Buf(n * nm * mw).fill(0xA5)
                L.seek(sb.h, q.h, pos)
                srt = sb.read(q, L.Array(sbuf, mt, (n, nm)))
                want = (srt, sbuf.bytes(), L.errmsg())
            want = comm.bcast(want)
            if want[0] != 0:
                # rows that were never written: neither can read them
                M.together(comm, "collective read", lambda: need(rt != 0, "read of %s at %d succeeded, the serial one says %s", parts, pos, want[2]))
                pos = 0
                M.together(comm, "seek", lambda: ok(L.seek(b.h, p.h, pos), "seek"))
                ctx.tag("rows-missing")
                continue
            want = want[1]
            M.together(comm, "collective read", lambda: ok(rt, "read of %s at %d" % (parts, pos)))

            def same():
                got, clean = M.pick(buf, idx, mw)
                need(clean, "reading changed memory outside the array")
                exp = want[base * nm * mw:(base + mine) * nm * mw]
                need(got == exp, "rows [%d,%d) of the collective read at %d (%s) differ from the serial one: %s, %s", base, base + mine, pos, parts, got.hex()[:200], exp.hex()[:200])
            M.together(comm, "collective read", same)
        pos += n
        M.together(comm, "position", lambda: need(L.tell(b.h, p.h) == pos and bool(L.eof(b.h, p.h)) == (pos == total), "position %d after moving %s, expected %d of %d", L.tell(b.h, p.h), parts, pos, total))
        if n:
            moved += 1
        if sum(x > 0 for x in parts) > 1:
            shared += 1
            ctx.tag("several-ranks")
        if 0 in parts and n:
            ctx.tag("rank-without-rows")
        if 0 < conc < np_:
            ctx.tag("throttled")
        if mt != dt:
            ctx.tag("converted")
        if lay not in ("c", "flat"):
            ctx.tag("strided")
    M.together(comm, "close", lambda rt=b.close(): ok(rt, "close"))
    comm.barrier()

    def compare():
        if me == 0:
            sb.close()
            a, c = fmt.snapshot(root + "/m"), fmt.snapshot(root + "/s")
            need(sorted(a) == sorted(c), "the collective block has the files %s, the serial one %s", sorted(a), sorted(c))
            for x in sorted(a):
                need(a[x] == c[x], "file %s differs: collectively written %r, serially %r", x, a[x][:300], c[x][:300])
    M.together(comm, "comparison", compare)
    M.together(comm, "close", lambda rt=f.close(): ok(rt, "close"))
    if 0 < case["threshold"] < 1 << 20:
        ctx.tag("small-segments")
    elif case["threshold"]:
        ctx.tag("aggregated")
    ctx.nontrivial(shared and moved > 1)
