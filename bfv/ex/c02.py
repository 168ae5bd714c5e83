import os
from .. import fmt, lib as L
from ..lib import need, ok


def mkattrs(spec):
    out = {}
    for name, dt, nm, seed in spec:
        out[name.encode()] = (dt, nm, L.splitmix_bytes(seed, fmt.width(dt) * nm))
    return out


def huge(case, ctx):
    """more rows than 32 bits count, in sparse files: a few rows around the ends of each file"""
    L.set_buffer_size(L.DEFAULT_BUFFER)
    dt, nm, fs = case["dt"], case["nm"], case["fs"]
    row = fmt.width(dt) * nm
    root = ctx.dir + "/root"
    f = L.File(root, create=True).must()
    b = L.Block()
    ok(b.create(f, "b", dt, nm, fs), "create")
    want = {}
    start = 0
    for i, n in enumerate(fs):
        if n == 0:
            continue
        k = min(3, n)
        d = L.splitmix_bytes(case["seed"] + i, k * row)
        b.put(start + n - k, d, dt, (k, nm))
        want[i] = d
        start += n
    geom = b.geom()
    ok(b.close(), "close")
    d = root + "/b"

    def look(where):
        try:
            h = fmt.read_header(d)
        except (fmt.Bad, OSError) as e:
            need(False, "an independent reader cannot decode the header %s: %s", where, e)
        sums = [sum(want[i]) if i in want else 0 for i in range(len(fs))]
        need((h["dt"], h["nm"], h["fs"], h["ck"]) == (dt, nm, fs, sums), "header %s: %s x%d %s sums %s, expected %s sums %s", where, h["dt"], h["nm"], h["fs"], h["ck"], fs, sums)
        for i, n in enumerate(fs):
            with open(fmt.datafile(d, i), "rb") as fp:
                fp.seek(0, 2)
                need(fp.tell() == n * row, "file %d has %d bytes %s, %d rows of %d", i, fp.tell(), where, n, row)
                fp.seek(n * row - len(want.get(i, b"")))
                need(fp.read() == want.get(i, b""), "end of file %d %s", i, where)
    look("after creation")
    # as another writer would lay it out
    fmt.write_header(d, dt, nm, fs, geom[1], style=1)
    b = L.Block()
    ok(b.open(f, "b"), "open")
    need(b.geom() == geom and b.size == sum(fs), "opened with %s", b.geom())
    start = 0
    for i, n in enumerate(fs):
        if i in want:
            k = len(want[i]) // row
            need(b.get(start + n - k, k, dt, fmt.width(dt)) == want[i], "rows at the end of file %d", i)
        start += n
    ok(b.grow([2]), "grow")
    ok(b.close(), "close")
    fs = fs + [2]
    open(fmt.datafile(d, len(fs) - 1), "ab").truncate(2 * row)
    look("after growing")
    f.close()
    ctx.tag("huge")
    ctx.nontrivial()


def run(case, ctx):
    L.set_buffer_size(L.DEFAULT_BUFFER)
    dt, nm, fs, name = case["dt"], case["nm"], case["fs"], case["name"]
    row = fmt.width(dt) * nm
    total = sum(fs)
    if case["dir"] == "huge":
        return huge(case, ctx)
    data = L.splitmix_bytes(case["seed"], total * row)
    attrs = mkattrs(case["attrs"])
    root = ctx.dir + "/root"
    ctx.nontrivial(total > 0 and (len(fs) > 1 or attrs))
    ctx.tag(case["dir"], "dtype-" + dt)
    if len(fs) > 255:
        ctx.tag("three-hex-digits")
    if case["dir"] == "lib2disk":
        full = case["group"] + name
        f = L.File(root, create=True).must()
        b = L.Block()
        ok(b.create(f, full, (case["spell"] + dt[1:]) if dt[0] == "<" and case["spell"] else dt, nm, fs), "create")
        p = L.Ptr()
        ok(L.seek(b.h, p.h, 0), "seek")
        o = 0
        k = 0
        while o < total:
            n = min(total - o, case["pieces"][k] if k < len(case["pieces"]) else total)
            k += 1
            buf = L.Buf(data[o * row:(o + n) * row])
            ok(b.write(p, L.Array(buf, dt, (n, nm))), "write")
            o += n
        for an, (adt, anm, raw) in attrs.items():
            buf = L.Buf(raw)
            ok(L.set_attr(b.h, an, buf.p, adt.encode(), anm), "set_attr")
            need(buf.bytes() == raw, "set_attr changed the caller's memory")
        ok(b.close(), "close")
        f.close()
        d = os.path.join(root, full)
        try:
            got = fmt.read_block(d)
        except (fmt.Bad, OSError) as e:
            need(False, "an independent reader cannot decode the block: %s", e)
        need(got["dt"] == dt and got["nm"] == nm and got["fs"] == fs, "header says %s x%d %s", got["dt"], got["nm"], got["fs"])
        need(got["data"] == data, "data files differ from the rows written")
        need(not fmt.extra_files(d, got), "undocumented files %s", fmt.extra_files(d, got))
        for i, b0 in enumerate(got["raw"]):
            need(got["ck"][i] == sum(b0) & 0xffffffff, "sum of file %d is %d, recorded %d", i, sum(b0), got["ck"][i])
        need(got["attrs"] == attrs, "attributes on disk %r, set %r", got["attrs"], attrs)
        return
    os.makedirs(root)
    d = os.path.join(root, name)
    v1 = mkattrs(case["v1"]) if case["attrmode"] in ("v1", "both") else {}
    v2 = attrs if case["attrmode"] in ("v2", "both") else None
    ck = case.get("ck")
    if ck is not None:
        ck = [ck[i % len(ck)] for i in range(len(fs))]
        ctx.tag("sums-given")
    ck = fmt.write_block(d, dt, nm, fs, data, v2, case["order"], 0, case["humane"], v1, ck)
    ctx.tag("attr-" + case["attrmode"])
    want = dict(v1)
    want.update(v2 or {})
    if case["order"] != sorted(case["order"]):
        ctx.tag("permuted-lines")
    f = L.File(root).must()
    need(f.list() == [name.encode()], "listing %r", f.list())
    b = L.Block()
    ok(b.open(f, name), "open")
    need(b.dtype == dt and b.nmemb == nm, "type %s x%d, written %s x%d", b.dtype, b.nmemb, dt, nm)
    gfs, gck = b.geom()
    need(gfs == fs and b.size == total, "rows per file %s (%d), written %s", gfs, b.size, fs)
    need(gck == ck, "checksums %s, written %s", gck, ck)
    got = {}
    order = []
    for an, adt, anm, raw in b.attrs():
        got[an] = (adt, anm, raw)
        order.append(an)
    need(got == want, "attributes %r, written %r", got, want)
    need(order == sorted(order), "attributes are listed in the order %r", order)
    buf = L.Buf(total * row).fill(0x5a)
    p = L.Ptr()
    ok(L.seek(b.h, p.h, 0), "seek")
    ok(b.read(p, L.Array(buf, dt, (total, nm))), "read")
    need(buf.bytes() == data, "rows read differ from the bytes on disk")
    for an, (adt, anm, raw) in want.items():
        buf = L.Buf(len(raw)).fill(0x5a)
        ok(L.get_attr(b.h, an, buf.p, adt.encode(), anm), "get_attr")
        need(buf.bytes() == raw, "attribute %r reads %r, written %r", an, buf.bytes(), raw)
    before = fmt.snapshot(root)
    ok(b.close(), "close")
    need(fmt.snapshot(root) == before, "opening and closing changed the files")
    if case.get("grow") is not None:
        # the library writes the header of a block it did not create
        b = L.Block()
        ok(b.open(f, name), "open")
        g = case["grow"]
        ok(b.grow(g), "grow")
        ok(b.set_attr("new~", L.Buf(b"12345678"), "<f8", 1), "set_attr")
        ok(b.close(), "close")
        try:
            h = fmt.read_block(d, strict=False)
        except (fmt.Bad, OSError) as e:
            need(False, "an independent reader cannot decode the grown block: %s", e)
        need((h["dt"], h["nm"], h["fs"], h["ck"]) == (dt, nm, fs + g, ck + [0] * len(g)), "header of the grown block: %s x%d %s sums %s, expected %s sums %s",
             h["dt"], h["nm"], h["fs"], h["ck"], fs + g, ck + [0] * len(g))
        need(h["raw"][:len(fs)] == [data[sum(fs[:i]) * row:sum(fs[:i + 1]) * row] for i in range(len(fs))] and not any(h["raw"][len(fs):]), "growing changed the data files")
        need(h["attrs"] == want | {b"new~": ("<f8", 1, b"12345678")}, "attributes after rewriting %r", h["attrs"])
        ctx.tag("rewritten")
    f.close()
