"""prefixes of complete metadata and data files are rejected or read correctly"""
import os
from .. import fmt, lib as L
from ..lib import need, ok


def run(case, ctx):
    dt, nm, fs = case["dt"], case["nm"], case["fs"]
    w = fmt.width(dt)
    row = w * nm
    total = sum(fs)
    L.set_buffer_size(case["buf"] or L.DEFAULT_BUFFER)
    root = ctx.dir + "/r"
    path = root + "/b"
    f = L.File(root, create=True).must()
    b = L.Block()
    first = case.get("first", len(fs))
    ok(b.create(f, "b", dt, nm, fs[:first]), "create")
    if first < len(fs):
        ok(b.flush(), "flush")
        ok(b.grow(fs[first:]), "grow")
    data = L.splitmix_bytes(case["seed"], total * row)
    if total:
        b.put(0, data, dt, (total, nm))
    attrs = {}
    for n, adt, k, seed in case["attrs"]:
        raw = L.splitmix_bytes(seed, fmt.width(adt) * k)
        attrs[n.encode()] = (adt, k, raw)
        if not case["v1"]:
            ok(b.set_attr(n, L.Buf(raw), adt, k), "set_attr")
    ok(b.close(), "close")
    if case["v1"]:
        # bytes 0..7 of the type field are NUL padded, as the old library wrote them
        os.unlink(path + "/attr-v2")
        fmt.write_attrs_v1(path, attrs)
        ctx.tag("v1")
    target = {"attr": "attr" if case["v1"] else "attr-v2"}.get(case["what"], case["what"])
    ctx.tag("tear:" + case["what"])
    if target == "data":
        return torn_data(case, ctx, f, path, data, row, total)
    with open(path + "/" + target, "rb") as fp:
        full = fp.read()
    n = len(full)
    sums = fmt.read_header(path)["ck"]
    cuts = range(n) if n <= 700 else sorted({c for c in case["cuts"] if c < n} | {i + d for i in range(n) if full[i:i + 1] == b"\n" for d in (0, 1, 2)} | set(range(60)) | set(range(n - 60, n)))
    acc = rej = 0
    for c in cuts:
        if c >= n:
            continue
        with open(path + "/" + target, "wb") as fp:
            fp.write(full[:c])
        b = L.Block()
        if b.open(f, "b") != 0:
            rej += 1
            L.free(b.h)
            continue
        acc += 1
        what = "%d of %d bytes of %s" % (c, n, target)
        need(b.geom()[1] == sums, "with %s the sums are %s, they are %s", what, b.geom()[1], sums)
        need(b.dtype == dt and b.nmemb == nm and b.geom()[0] == fs and b.size == total and b.nfile == len(fs), "with %s the block is %s x%d %s, it is %s x%d %s", what,
             b.dtype, b.nmemb, b.geom()[0], dt, nm, fs)
        for an, ad, ak, raw in b.attrs():
            need(an in attrs and attrs[an] == (ad, ak, raw), "with %s the attribute %r is (%s, %d, %s), it is %s", what, an, ad, ak, raw.hex(), attrs.get(an))
        if target == "header":
            need(len(b.attrs()) == len(attrs), "with %s attributes are lost", what)
        if total and row and acc <= 3:
            need(b.get(0, total, dt, w) == data, "with %s the rows differ", what)
        b.close()
        with open(path + "/" + target, "rb") as fp:
            need(fp.read() == full[:c], "opening and closing changed the file (%s)", what)
    with open(path + "/" + target, "wb") as fp:
        fp.write(full)
    b = L.Block()
    ok(b.open(f, "b"), "open of the complete block")
    need({a: (d, k, r) for a, d, k, r in b.attrs()} == attrs, "complete attributes")
    b.close()
    f.close()
    if acc:
        ctx.tag("accepted-prefix")
    ctx.nontrivial(rej > 0 and (len(fs) > 0 or attrs))


def torn_data(case, ctx, f, path, data, row, total):
    fs, dt, nm = case["fs"], case["dt"], case["nm"]
    w = fmt.width(dt)
    if not total:
        return
    i = max(range(len(fs)), key=lambda j: (fs[j] > 0, (j * 7 + case["seed"]) % 5))
    base = sum(fs[:i])
    size = fs[i] * row
    b = L.Block()
    ok(b.open(f, "b"), "open")
    for c in sorted({x % size for x in case["cuts"]} | {0, size - 1}, reverse=True):
        os.truncate(fmt.datafile(path, i), c)
        whole = c // row
        for a, z in ((base, base + whole), (base, base + fs[i]), (base + whole, base + whole + 1), (0, total), (max(0, base + whole - 1), base + whole + 1)):
            n = z - a
            if n <= 0:
                continue
            p, buf = L.Ptr(), L.Buf(n * row).fill(0xA5)
            ok(L.seek(b.h, p.h, a), "seek")
            rt = b.read(p, L.Array(buf, dt, (n, nm)))
            miss = z > base + whole and a < base + fs[i]
            if miss:
                need(rt != 0, "rows [%d,%d) of %s were read although file %06X has only %d of %d bytes", a, z, fs, i, c, size)
            else:
                ok(rt, "read of the complete rows [%d,%d)" % (a, z))
                need(buf.bytes() == data[a * row:z * row], "complete rows differ")
            arr = L.Array()
            rt = L.read_simple(b.h, a, n, arr.h, None)
            need((rt != 0) == miss, "clipped read of [%d,%d) returned %d, missing %s", a, z, rt, miss)
            if rt == 0:
                L.free(L.array_data(arr.h))
    b.close()
    ctx.nontrivial()
