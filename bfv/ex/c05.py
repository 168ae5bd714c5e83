from .. import fmt, lib as L
from ..lib import need, ok


def run(case, ctx):
    dt, nm, fs, meta = case["dt"], case["nm"], case["fs"], case["meta"]
    w = fmt.width(dt)
    row = w * nm
    total = sum(fs)
    L.set_buffer_size(case["buf"] or L.DEFAULT_BUFFER)
    root = ctx.dir + "/r"
    data = bytearray(L.splitmix_bytes(case["seed"], total * row))
    fmt.write_block(root + "/b", dt, nm, fs, bytes(data), {b"a": ("<i4", 1, b"abcd")})
    f = L.File(root).must()
    name = "." if meta else "b"
    if meta:
        total = 0
        ctx.tag("meta-block")
    b = L.Block()
    ok(b.open(f, name), "open")
    need(b.size == total, "size %d, expected %d", b.size, total)
    p = L.Ptr()
    pos = 0
    ok(L.seek(b.h, p.h, 0), "seek 0")
    good = bad = 0
    buflen = 0

    def at(what):
        need(L.tell(b.h, p.h) == pos, "after %s the position is row %d, expected %d of %d", what, L.tell(b.h, p.h), pos, total)
        need(bool(L.eof(b.h, p.h)) == (pos == total), "after %s end-of-file is %d at row %d of %d", what, L.eof(b.h, p.h), pos, total)

    def state():
        return fmt.snapshot(root), b.geom(), L.tell(b.h, p.h), b.attrs()

    at("open")
    for op in case["ops"]:
        k = op[0]
        if k in ("seek", "rel"):
            o = op[1]
            if k == "seek":
                t = o if o >= 0 else o + total
                accept = 0 <= o <= total or -total <= o < 0
                before = p.raw()
                rt = L.seek(b.h, p.h, o)
            else:
                t = pos + o
                accept = 0 <= t <= total
                before = p.raw()
                rt = L.seek_rel(b.h, p.h, o)
            if accept:
                need(rt == 0, "%s %d at row %d of %d was refused: %s", k, o, pos, total, L.errmsg())
                pos = t
                good += 1
            else:
                need(rt != 0, "%s %d at row %d of %d was accepted", k, o, pos, total)
                need(p.raw() == before, "the refused %s %d changed the position", k, o)
                bad += 1
            at("%s %d" % (k, o))
        elif k == "simple":
            start, n = op[1], op[2]
            if meta:
                continue
            a = L.Array()
            t = start if start >= 0 else start + total
            accept = 0 <= t <= total and n >= 0
            st0 = state()
            rt = L.read_simple(b.h, start, n, a.h, None)
            if accept:
                m = min(n, total - t)
                need(rt == 0, "clipped read of %d rows at %d of %d failed: %s", n, start, total, L.errmsg())
                need(L.array_dim(a.h, 0) == m and L.array_size(a.h) == m * nm, "clipped read of %d rows at %d of %d reports %d rows", n, start, total, L.array_dim(a.h, 0))
                got = L.C.string_at(L.array_data(a.h), m * row) if m else b""
                L.free(L.array_data(a.h))
                need(got == bytes(data[t * row:(t + m) * row]), "clipped read of %d rows at %d returned other rows", n, start)
                good += 1
            else:
                need(rt != 0, "clipped read of %d rows at %d of %d was accepted", n, start, total)
                bad += 1
            need(state() == st0, "a clipped read changed something")
        elif k in ("read", "write"):
            n = total - pos if op[1] is None else op[1]
            if n * row > 4000000:
                continue
            src = L.splitmix_bytes(op[2], n * row)
            buf = L.Buf(src)
            arr = L.Array(buf, dt, (n, nm))
            accept = n <= total - pos
            if meta and n == 0:
                continue
            st0 = state()
            praw = p.raw()
            rt = b.read(p, arr) if k == "read" else b.write(p, arr)
            if accept and not meta:
                need(rt == 0, "%s of %d rows at %d of %d failed: %s", k, n, pos, total, L.errmsg())
                if k == "read":
                    need(buf.bytes() == bytes(data[pos * row:(pos + n) * row]), "read of %d rows at %d returned other rows", n, pos)
                else:
                    data[pos * row:(pos + n) * row] = src
                pos += n
                good += 1
                at(k)
            else:
                need(rt != 0, "%s of %d rows at %d of %d was accepted", k, n, pos, total)
                need(state() == st0 and p.raw() == praw, "the refused %s of %d rows at %d of %d had an effect", k, n, pos, total)
                need(buf.bytes() == src, "the refused %s of %d rows at %d changed the caller's memory", k, n, pos)
                bad += 1
                if k == "write":
                    ok(b.flush(), "flush")
                    after = fmt.snapshot(root)
                    if meta:
                        need(after == st0[0], "flushing after a refused write to the meta block created files")
                    else:
                        need(fmt.read_header(root + "/b")["fs"] == fs, "header after a refused write")
                        need(fmt.read_header(root + "/b")["ck"] == b.geom()[1], "checksums after a refused write")
        elif k == "badtype":
            n = op[1]
            if meta or n > total - pos:
                continue
            src = L.splitmix_bytes(7, n * nm * 2)
            buf = L.Buf(src)
            mt = "f2" if dt[1:] != "f2" else "i2"
            arr = L.Array(buf, mt, (n, nm))
            st0 = state()
            rt = b.write(p, arr) if op[2] else b.read(p, arr)
            need(rt != 0, "transfer between %s and %s was accepted", mt, dt)
            need(state() == st0, "the refused conversion had an effect")
            need(buf.bytes() == src, "the refused conversion changed the caller's memory")
            bad += 1
        elif k == "reopen":
            ok(b.close(), "close")
            b = L.Block()
            ok(b.open(f, name), "open")
            need(b.size == total, "size after reopening")
        else:
            ok(L.seek(b.h, p.h, total), "seek to the end")
            pos = total
            at("seek to the end")
    ok(b.close(), "close")
    if not meta:
        got = fmt.read_block(root + "/b")
        need(got["fs"] == fs and got["dt"] == dt and got["nm"] == nm, "header changed")
        need(got["data"] == bytes(data), "rows changed")
        need(got["attrs"] == {b"a": ("<i4", 1, b"abcd")}, "attributes changed")
    f.close()
    ctx.nontrivial(good and bad)
    if total == 0:
        ctx.tag("no-rows")
    if bad:
        ctx.tag("refused")
