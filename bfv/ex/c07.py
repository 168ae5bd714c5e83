from .. import fmt, lib as L
from ..lib import need, ok


def run(case, ctx):
    dt, nm, fs = case["dt"], case["nm"], list(case["fs"])
    w = fmt.width(dt)
    row = w * nm
    L.set_buffer_size(case["buf"] or L.DEFAULT_BUFFER)
    root = ctx.dir + "/r"
    path = root + "/b"
    f = L.File(root, create=True).must()
    b = L.Block()
    ok(b.create(f, "b", dt, nm, fs), "create")
    rows = {}
    attrs = {}
    grown_from = None
    litter = set()
    flags = set()

    def check_geom(what):
        g = b.geom()[0]
        need(g == fs and b.size == sum(fs) and b.nfile == len(fs), "%s: geometry %s (%d), expected %s", what, g, b.size, fs)
        need(b.dtype == dt and b.nmemb == nm, "%s: type %s x%d", what, b.dtype, b.nmemb)

    def check_rows(a, z):
        """compare the known rows of [a,z) in runs"""
        i = a
        while i < z:
            if i not in rows:
                i += 1
                continue
            j = i
            while j < z and j in rows:
                j += 1
            got = b.get(i, j - i, dt, w)
            for x in range(i, j):
                g = got[(x - i) * row:(x - i + 1) * row]
                need(g == rows[x], "row %d of %s reads %s, last written %s", x, fs, g.hex(), rows[x].hex())
            if grown_from and i < grown_from[0]:
                flags.add("old-after-grow")
            i = j

    def put(a, n, seed):
        data = L.splitmix_bytes(seed, n * row)
        b.put(a, data, dt, (n, nm))
        for x in range(n):
            rows[a + x] = data[x * row:(x + 1) * row]
        if grown_from and n and a + n > grown_from[0]:
            flags.add("new-written")

    for op in case["ops"]:
        k = op[0]
        total = sum(fs)
        if k == "grow":
            before_files = {p: v for p, v in fmt.snapshot(path).items() if p not in ("header", "attr-v2")}
            before_ck = b.geom()[1]
            total_files = len(fs)
            ok(b.grow(op[1]), "grow")
            litter -= set(range(total_files, total_files + len(op[1])))
            if rows and op[1]:
                grown_from = grown_from or (total,)
            fs += op[1]
            check_geom("after the grow")
            need(b.geom()[1] == before_ck + [0] * len(op[1]), "checksums after the grow %s, before %s", b.geom()[1], before_ck)
            after = fmt.snapshot(path)
            new = {"%06X" % i for i in range(total_files, len(fs))}
            for p, v in before_files.items():
                if p not in new:
                    need(after.get(p) == v, "the grow changed file %s", p)
            for p in new:
                need(after.get(p) == b"", "the new file %s holds %r before any row was written", p, after.get(p))
            ctx.tag("grow")
            if not sum(op[1]):
                ctx.tag("grow-by-no-rows")
            if len(fs) > 16:
                ctx.tag("files>16")
        elif k == "w":
            n = min(op[2], total - op[1])
            if n > 0:
                put(op[1], n, op[3])
        elif k == "all":
            put(0, total, op[1])
        elif k == "litter":
            i = len(fs) + op[1]
            with open(fmt.datafile(path, i), "wb") as fp:
                fp.write(b"#" * op[2])
            litter.add(i)
            ctx.tag("litter")
        elif k == "tail":
            t = min(total, 20)
            put(total - t, t, op[1])
        elif k == "r":
            check_rows(op[1], min(total, op[1] + op[2]))
        elif k == "attr":
            raw = L.splitmix_bytes(op[3], 4 * op[2])
            ok(b.set_attr(op[1], L.Buf(raw), "<i4", op[2]), "set_attr")
            attrs[op[1].encode()] = ("<i4", op[2], raw)
        elif k == "fl":
            ok(b.flush(), "flush")
            h = fmt.read_header(path)
            need(h["fs"] == fs, "flushed header says %s, geometry is %s", h["fs"], fs)
        elif k == "re":
            ck = b.geom()[1]
            ok(b.close(), "close")
            b = L.Block()
            ok(b.open(f, "b"), "open")
            need(b.geom()[1] == ck, "checksums changed over reopening")
            flags.add("reopen")
        check_geom("after " + k)
        need({a: (d, n, r) for a, d, n, r in b.attrs()} == attrs, "attributes after %s: %r, expected %r", k, b.attrs(), attrs)
    check_rows(0, sum(fs))
    ck = b.geom()[1]
    ok(b.close(), "close")
    h = fmt.read_header(path)
    need(h["fs"] == fs and h["ck"] == ck, "final header %s", h)
    need(fmt.read_attrs(path) == attrs, "final attributes")
    extra = set(fmt.extra_files(path, h)) - {"%06X" % i for i in litter}
    need(not extra, "extra files %s", sorted(extra))
    for i in range(len(fs)):
        need(fmt.os.path.exists(fmt.datafile(path, i)), "file %06X is missing", i)
    b = L.Block()
    ok(b.open(f, "b"), "open")
    check_rows(0, sum(fs))
    b.close()
    f.close()
    ctx.tag(*sorted(flags))
    ctx.nontrivial({"old-after-grow", "new-written"} <= flags)
