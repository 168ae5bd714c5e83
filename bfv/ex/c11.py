"""any bytes as header, attr-v2 and attr: a clean error or a consistent block"""
import re
import ctypes as C
from .. import fmt, lib as L
from ..lib import need, ok

TYPE = re.compile(r"[<>=|]?[a-zA-Z]([0-9]+)$")


def consistent(b, what):
    dt = b.dtype
    m = TYPE.match(dt)
    need(m and int(m.group(1)) > 0, "%s: the type of the block is %r", what, dt)
    need(L.dtype_itemsize(dt.encode()) == int(m.group(1)), "%s: item size of %r", what, dt)
    need(b.nmemb >= 0, "%s: nmemb is %d", what, b.nmemb)
    need(b.nfile >= 0, "%s: nfile is %d", what, b.nfile)
    fs, ck = b.geom()
    need(all(0 <= x < 2**63 for x in fs) and sum(fs) < 2**63 and sum(fs) == b.size, "%s: files %s, size %d", what, fs, b.size)


def attributes(b, what):
    out = []
    for i in range(L.nattr(b.h)):
        a = L.attr_at(b.h, i)
        n, d, nm = L.attr_name(a), L.attr_dtype(a).decode("latin1"), L.attr_nmemb(a)
        w = L.dtype_itemsize(L.attr_dtype(a))
        need(w > 0, "%s: attribute %r has the type %r", what, n, d)
        need(nm >= 0, "%s: attribute %r has %d members", what, n, nm)
        # the bytes are in memory of the library; AddressSanitizer watches this copy
        raw = C.string_at(L.attr_data(a), w * nm)
        out.append((n, d, nm, raw))
    need([x[0] for x in out] == sorted({x[0] for x in out}), "%s: the attributes are not a sorted set: %s", what, [x[0] for x in out])
    return out


def stated(b, t):
    """an accepted header has all its parts, and plain ones are taken as they stand"""
    need(re.search(rb"DTYPE:.*NMEMB:\s*[+-]?[0-9].*NFILE:\s*[+-]?[0-9]", t, re.S), "accepted although the header lacks a part: %r", t)
    n = len({int(x, 16) for x in re.findall(rb"([0-9A-Fa-f]{1,16})\s*:\s*[+-]?[0-9]+\s*:", t)})
    need(b.nfile <= n, "accepted with %d files, the header has lines for %d: %r", b.nfile, n, t)
    m = re.match(rb"DTYPE: [<>=|]?([a-zA-Z][0-9]{1,4})\s+NMEMB: ([0-9]{1,9})\s+NFILE: ([0-9]{1,6})\s+((?:[0-9A-F]{6}: [0-9]{1,18} : [0-9]{1,9} : [0-9]{1,9}\s+)*)$", t)
    if m:
        lines = re.findall(rb"([0-9A-F]{6}): ([0-9]+) : ([0-9]+) : ([0-9]+)", m.group(4))
        at = {int(x[0], 16): (int(x[1]), int(x[2])) for x in lines}
        if len(at) == len(lines) == int(m.group(3)):
            fs, ck = b.geom()
            need(b.dtype[1:].encode() == m.group(1) and b.nmemb == int(m.group(2)) and fs == [at[i][0] for i in range(len(at))] and ck == [at[i][1] for i in range(len(at))],
                 "header %r is read as %s x%d %s sums %s", t, b.dtype, b.nmemb, fs, ck)


def run(case, ctx):
    L.set_buffer_size(1 << 16)
    root = ctx.dir + "/r"
    path = root + "/b"
    f = L.File(root, create=True).must()
    data = L.splitmix_bytes(5, 4 * 20)
    fmt.write_block(path, "<i4", 1, [10, 10], data, {b"a": ("<i4", 2, b"12345678"), b"t": ("|S1", 3, b"xyz")})
    for name in ("header", "attr-v2", "attr"):
        if name in case:
            with open(path + "/" + name, "wb") as fp:
                fp.write(case[name].encode("latin1"))
            ctx.tag("fuzz:" + name)
    b = L.Block()
    L.set_error(None)
    if b.open(f, "b") != 0:
        need(L.errmsg() != "<none>", "the open failed without a message")
        ctx.tag("rejected")
        # the library stays usable
        need(f.list() in ([b"b"], []), "listing %s", f.list())
        L.free(b.h)
        b = L.Block()
        need(b.open(f, "b") != 0, "opening twice gives different answers")
        L.free(b.h)
        f.close()
        ctx.nontrivial(case.get("struct"))
        return
    ctx.tag("accepted")
    ctx.nontrivial(True)
    consistent(b, "after the open")
    if "header" in case:
        stated(b, case["header"].encode("latin1"))
    at = attributes(b, "after the open")
    for n, d, nm, raw in at:
        need(L.lookup_attr(b.h, n), "attribute %r is listed but not found", n)
        buf = L.Buf(len(raw)).fill(0x5a)
        ok(b.get_attr(n, buf, d.encode("latin1"), nm), "get_attr of %r" % n)
        need(buf.bytes() == raw, "attribute %r reads back differently", n)
        for other in ("<f8", "<i4"):
            b.get_attr(n, L.Buf(8 * max(nm, 1)), other, nm)
    size = b.size
    row = b.nmemb * int(TYPE.match(b.dtype).group(1))
    # reads, clipped and not
    for start, n in ((0, 1), (0, 3), (9, 3), (max(size - 1, 0), 1), (size, 1), (size + 1, 1), (0, 1 << 40)):
        if n == 1 << 40 and min(size, n) * max(row, 1) > 1 << 24:
            continue
        a = L.Array()
        if L.read_simple(b.h, start, n, a.h, None) == 0:
            L.free(L.array_data(a.h))
    p = L.Ptr()
    for at_ in (0, size // 2, size):
        ok(L.seek(b.h, p.h, at_), "seek %d" % at_)
        need(bool(L.eof(b.h, p.h)) == (at_ == size), "end of file at %d of %d", at_, size)
    need(L.seek(b.h, p.h, size + 1) != 0, "seek beyond the end")
    if 0 < row < 1 << 20 and size:
        buf = L.Buf(row)
        L.seek(b.h, p.h, 0)
        b.read(p, L.Array(buf, b.dtype, (1, b.nmemb)))
    fs, ck = b.geom()
    keep = (b.dtype, b.nmemb, fs, ck)
    need(f.list() == [b"b"], "listing %s", f.list())
    ops = case.get("ops", 0)
    if ops & 1:
        if ops & 2 and at:
            ok(L.remove_attr(b.h, at[0][0]), "remove_attr")
            at = at[1:]
        ok(b.set_attr("zz~new", L.Buf(b"87654321"), "<i8", 1), "set_attr")
        at = sorted([x for x in at if x[0] != b"zz~new"] + [(b"zz~new", "<i8", 1, b"87654321")])
        if ops & 4:
            ok(b.flush(), "flush")
        ok(b.close(), "close")
        b = L.Block()
        ok(b.open(f, "b"), "reopening a block that was opened and closed")
        need((b.dtype, b.nmemb) + b.geom() == keep, "geometry after reopening")
        got = attributes(b, "after reopening")
        if "attr" not in case:  # the version 1 file is never rewritten
            need(got == at, "attributes after reopening %s, before %s", got, at)
    else:
        need(attributes(b, "at the end") == at, "attributes changed")
    ok(b.close(), "close")
    f.close()
