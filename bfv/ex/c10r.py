"""records, groups' attributes and files while a call of the operating system fails"""
import os
from .. import fmt, lib as L
from ..lib import need, ok


def hold(root, fields, fs, cols, what):
    """the columns on disk, by the independent reader"""
    for i, (n, dt, nm) in enumerate(fields):
        got = fmt.read_block(root + "/" + n)
        need(got["dt"] == dt and got["nm"] == nm and got["fs"] == fs, "%s succeeded and column %r is %s x%d %s, expected %s x%d %s", what, n, got["dt"], got["nm"], got["fs"], dt, nm, fs)
        need(got["data"] == cols[i], "%s succeeded and column %r holds %s, expected %s", what, n, got["data"].hex(), cols[i].hex())


def run(case, ctx, CALLS, ERRNO):
    L.set_buffer_size(case["buf"] or L.DEFAULT_BUFFER)
    root = ctx.dir + "/r"
    i, k = CALLS.index(case["call"][0]), case["call"][1]
    fields, fs, op = case["fields"], case["fs"], case["rec"]
    total = sum(fs)
    seed = case["seed"]
    f = L.File(root, create=True).must()
    rt = L.rec_new()
    for n, dt, nm in fields:
        L.rec_add(rt, n.encode(), dt.encode(), nm)
    L.rec_complete(rt)
    item = L.rec_itemsize(rt)
    rows = L.splitmix_bytes(seed, total * item)
    more = L.splitmix_bytes(seed + 1, total * item)

    def columns(rows, n):
        out, o = [], 0
        for _, dt, nm in fields:
            w = fmt.width(dt) * nm
            out.append(b"".join(rows[x * item + o:x * item + o + w] for x in range(n)))
            o += w
        return out

    if op in ("read", "write", "append"):
        ok(L.rec_create(f.h, rt, b"w+", len(fs), L.sizes(fs)), "create")
        src = L.Buf(rows)
        ok(L.rec_write(f.h, rt, 0, total, src.p), "write")
        hold(root, fields, fs, columns(rows, total), "preparation")
    if op == "metaopen":
        b = L.Block()
        ok(b.create(f, ".", None, 0, []), "create of the attributes of the file")
        ok(b.set_attr("k", L.Buf(b"abcd"), "<i4", 1), "set_attr")
        ok(b.close(), "close")
    before = fmt.snapshot(root)
    a = case["at"] % (total + 1)
    n = min(case["n"], total - a)
    b = None
    buf = None
    L.fault(i, k, ERRNO[i][k % 3])
    if op == "create":
        r = L.rec_create(f.h, rt, b"w+", len(fs), L.sizes(fs))
    elif op == "append":
        r = L.rec_create(f.h, rt, b"a+", len(case["grow"]), L.sizes(case["grow"]))
    elif op == "write":
        src = L.Buf(more[:n * item])
        r = L.rec_write(f.h, rt, a, n, src.p)
    elif op == "read":
        buf = L.Buf(n * item).fill(0xA5)
        r = L.rec_read(f.h, rt, a, n, buf.p)
    elif op == "meta":
        b = L.Block()
        r = b.create(f, case["name"], None, 0, [])
    elif op == "metaattr":
        b = L.Block()
        r = b.create(f, case["name"], None, 0, [])
        if r == 0:
            ok(b.set_attr("k", L.Buf(b"abcd"), "<i4", 1), "set_attr")
            r = b.close()
            b = None
    elif op == "metaopen":
        b = L.Block()
        r = b.open(f, ".")
    elif op == "file":
        g = L.File(root + "/sub/x", create=True)
        r = g.rt
    what = "%s while call %d of %s fails" % (op, k, case["call"][0])
    fired, msg = L.fired(), L.errmsg()
    L.fault(-1, -1, 0)
    if fired:
        ctx.tag(op + ":" + case["call"][0] + (":reported" if r else ":harmless"))
    if r != 0:
        need(fired, "%s failed although no call failed: %s", op, msg)
        need(msg != "<none>", "%s failed without a message", what)
        ctx.nontrivial()
    if op == "create":
        if r == 0:
            empty = [fmt.read_header(root + "/" + x[0]) for x in fields]
            need(all(e["fs"] == fs and (e["dt"], e["nm"]) == (dt, nm) for e, (_, dt, nm) in zip(empty, fields)), "%s succeeded and left %s", what, empty)
            for x, _, _ in fields:
                need(all(os.path.isfile(fmt.datafile(root + "/" + x, j)) for j in range(len(fs))), "%s succeeded and files of column %r are missing", what, x)
        else:
            ok(L.rec_create(f.h, rt, b"w+", len(fs), L.sizes(fs)), "create after the failure")
        src = L.Buf(rows)
        ok(L.rec_write(f.h, rt, 0, total, src.p), "write after " + what)
        hold(root, fields, fs, columns(rows, total), "write after " + what)
    elif op == "append":
        if r == 0:
            for x, dt, nm in fields:
                h = fmt.read_header(root + "/" + x)
                need(h["fs"] == fs + case["grow"], "%s succeeded and column %r has files %s", what, x, h["fs"])
                need(all(os.path.isfile(fmt.datafile(root + "/" + x, j)) for j in range(len(h["fs"]))), "%s succeeded and files of column %r are missing", what, x)
        for x, c in zip(fields, columns(rows, total)):
            got = b"".join(open(fmt.datafile(root + "/" + x[0], j), "rb").read() for j in range(len(fs)))
            need(got == c, "%s: column %r held %s, now %s", what, x[0], c.hex(), got.hex())
    elif op == "write":
        want = rows[:a * item] + more[:n * item] + rows[(a + n) * item:]
        new, old = columns(want, total), columns(rows, total)
        if r == 0:
            hold(root, fields, fs, new, what)
        else:
            for (x, dt, nm), c in zip(fields, old):
                got = b"".join(open(fmt.datafile(root + "/" + x, j), "rb").read() for j in range(len(fs)))
                w = fmt.width(dt) * nm
                need(len(got) == len(c) and got[:a * w] == c[:a * w] and got[(a + n) * w:] == c[(a + n) * w:], "%s changed rows of column %r beyond [%d,%d)", what, x, a, a + n)
    elif op == "read":
        if r == 0:
            need(buf.bytes() == rows[a * item:(a + n) * item], "%s succeeded and gave %s, expected %s", what, buf.bytes().hex(), rows[a * item:(a + n) * item].hex())
        need(fmt.snapshot(root) == before, "%s changed files", what)
    elif op in ("meta", "metaattr"):
        d = os.path.join(root, case["name"])
        if r == 0:
            want = {b"k": ("<i4", 1, b"abcd")} if op == "metaattr" else {}
            need(os.path.isfile(d + "/attr-v2"), "%s succeeded and there is no attribute file", what)
            need(fmt.read_attrs(d) == want, "%s succeeded and left the attributes %r", what, fmt.read_attrs(d))
            if b:
                ok(b.close(), "close")
        elif b:
            L.free(b.h)
    elif op == "metaopen":
        if r == 0:
            need(b.attrs() == [(b"k", "<i4", 1, b"abcd")], "%s succeeded and shows %r", what, b.attrs())
            b.close()
        else:
            L.free(b.h)
        need(fmt.snapshot(root) == before, "%s changed files", what)
    elif op == "file":
        if r == 0:
            need(os.path.isdir(root + "/sub/x"), "%s succeeded and there is no directory", what)
            g.close()
    L.rec_clear(rt)
    L.free(rt)
    f.close()
