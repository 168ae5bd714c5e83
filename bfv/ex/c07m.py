"""the histories of c07 by all ranks of a communicator"""
from .. import fmt, lib as L, mlib as M
from ..lib import need, ok


def run(case, ctx):
    comm = M.sub(case["np"])
    if comm is None:
        return
    me, np_ = comm.rank, comm.size
    dt, nm, fs = case["dt"], case["nm"], list(case["fs"])
    w = fmt.width(dt)
    row = w * nm
    L.set_buffer_size(case["buf"] or L.DEFAULT_BUFFER)
    M.set_threshold(case["threshold"])
    root = ctx.dir + "/r"
    path = root + "/b"
    T = lambda what, fn: M.together(comm, what, fn)
    f = M.File(comm, root, create=True)
    T("file", lambda: ok(f.rt, "create"))
    b = M.Block(comm)
    T("create", lambda rt=b.create(f, "b", dt, nm, fs): ok(rt, "create"))
    rows = {}
    attrs = {}
    grown_from = None
    litter = set()
    flags = set()

    def check_geom(what):
        def fn():
            g = b.geom()[0]
            need(g == fs and b.size == sum(fs) and b.nfile == len(fs), "%s: geometry %s (%d), expected %s", what, g, b.size, fs)
            need(b.dtype == dt and b.nmemb == nm, "%s: type %s x%d", what, b.dtype, b.nmemb)
        T(what, fn)

    def check_rows(a, z, split=0):
        i = a
        while i < z:
            if i not in rows:
                i += 1
                continue
            j = i
            while j < z and j in rows:
                j += 1
            parts = M.pieces(j - i, np_, split)
            base, n = i + sum(parts[:me]), parts[me]
            buf, p = L.Buf(n * row).fill(0xA5), L.Ptr()
            L.seek(b.h, p.h, i)
            rt = b.mread(p, L.Array(buf, dt, (n, nm)), split % 3)

            def fn():
                ok(rt, "read of %s at %d" % (parts, i))
                got = buf.bytes()
                for x in range(n):
                    g = got[x * row:(x + 1) * row]
                    need(g == rows[base + x], "row %d of %s reads %s, last written %s", base + x, fs, g.hex(), rows[base + x].hex())
            T("read", fn)
            if grown_from and i < grown_from[0]:
                flags.add("old-after-grow")
            i = j

    def put(a, n, seed):
        data = L.splitmix_bytes(seed, n * row)
        parts = M.pieces(n, np_, seed)
        base, mine = sum(parts[:me]), parts[me]
        p = L.Ptr()
        L.seek(b.h, p.h, a)
        rt = b.mwrite(p, L.Array(L.Buf(data[base * row:(base + mine) * row]), dt, (mine, nm)), seed % 3)
        T("write", lambda: ok(rt, "write of %s at %d" % (parts, a)))
        if any(a + x in rows for x in range(n)):
            flags.add("rewritten")
        for x in range(n):
            rows[a + x] = data[x * row:(x + 1) * row]
        if grown_from and n and a + n > grown_from[0]:
            flags.add("new-written")

    def check_sums(what):
        """every row written once: the sums are those of the data, whatever was grown since"""
        def fn():
            if me == 0 and "rewritten" not in flags:
                want, x = [], 0
                for n in fs:
                    want.append(sum(sum(rows[i]) for i in range(x, x + n) if i in rows) % 2**32)
                    x += n
                h = fmt.read_header(path)
                need(h["ck"] == want, "%s: sums %s, of the rows written %s", what, h["ck"], want)
        T("sums", fn)

    for op in case["ops"]:
        k = op[0]
        total = sum(fs)
        if k == "grow":
            before = None
            if me == 0:
                before = {p: v for p, v in fmt.snapshot(path).items() if p not in ("header", "attr-v2")}
            comm.barrier()
            if op[2] and op[1]:
                rt = b.grow_simple(len(op[1]), sum(op[1]))
                n, s = len(op[1]), sum(op[1])
                op[1] = [s * (i + 1) // n - s * i // n for i in range(n)]
            else:
                rt = b.grow(op[1])
            T("grow", lambda: ok(rt, "grow"))
            if rows and op[1]:
                grown_from = grown_from or (total,)
            nold = len(fs)
            fs += op[1]
            litter -= set(range(nold, len(fs)))
            check_geom("after the grow")

            def unchanged():
                if me == 0:
                    after = fmt.snapshot(path)
                    new = {"%06X" % i for i in range(nold, len(fs))}
                    for p, v in before.items():
                        if p not in new:
                            need(after.get(p) == v, "the grow changed file %s", p)
                    for p in new:
                        need(after.get(p) == b"", "the new file %s holds %r before any row was written", p, after.get(p))
                    for i in range(len(fs)):
                        need(fmt.os.path.exists(fmt.datafile(path, i)), "file %06X is missing after the grow", i)
            T("files", unchanged)
            ctx.tag("grow")
            if len(fs) > 16:
                ctx.tag("files>16")
        elif k == "w":
            n = min(op[2], total - op[1])
            if n > 0:
                put(op[1], n, op[3])
        elif k == "all":
            put(0, total, op[1])
        elif k == "litter":
            i = len(fs) + op[1]

            def drop():
                if me == 0:
                    with open(fmt.datafile(path, i), "wb") as fp:
                        fp.write(b"#" * op[2])
            T("litter", drop)
            litter.add(i)
            ctx.tag("litter")
        elif k == "tail":
            t = min(total, 20)
            put(total - t, t, op[1])
        elif k == "r":
            check_rows(op[1], min(total, op[1] + op[2]), op[1])
        elif k == "attr":
            raw = L.splitmix_bytes(op[3], 4 * op[2])
            ab = op[1].encode()
            if ab in attrs and attrs[ab][1] != op[2]:
                L.remove_attr(b.h, ab)
            T("set_attr", lambda: ok(b.set_attr(op[1], L.Buf(raw), "<i4", op[2]), "set_attr"))
            attrs[ab] = ("<i4", op[2], raw)
        elif k == "fl":
            T("flush", lambda rt=b.flush(): ok(rt, "flush"))
            check_sums("flush")
            T("header", lambda: need(me or fmt.read_header(path)["fs"] == fs, "flushed header says %s, geometry is %s", fmt.read_header(path)["fs"], fs))
        elif k == "re":
            T("close", lambda rt=b.close(): ok(rt, "close"))
            b = M.Block(comm)
            T("open", lambda rt=b.open(f, "b"): ok(rt, "open"))
            flags.add("reopen")
            check_sums("reopening")
        check_geom("after " + k)
        T("attributes", lambda: need({a: (d, n, r) for a, d, n, r in b.attrs()} == attrs, "attributes after %s: %r, expected %r", k, b.attrs(), attrs))
    check_rows(0, sum(fs), 1)
    T("close", lambda rt=b.close(): ok(rt, "close"))

    check_sums("close")

    def last():
        if me:
            return
        h = fmt.read_header(path)
        need(h["fs"] == fs, "final header %s", h)
        need(fmt.read_attrs(path) == attrs, "final attributes")
        extra = set(fmt.extra_files(path, h)) - {"%06X" % i for i in litter}
        need(not extra, "extra files %s", sorted(extra))
        s, f2 = L.Block(), L.File(root).must()
        ok(s.open(f2, "b"), "serial open")
        for x in rows:
            need(s.get(x, 1, dt, w) == rows[x], "row %d reads differently when opened serially", x)
        s.close()
        f2.close()
    T("last", last)
    f.close()
    ctx.tag(*sorted(flags))
    ctx.nontrivial({"old-after-grow", "new-written"} <= flags)
