import numpy as np
from .. import fmt, lib as L
from ..lib import need, ok
from . import c03


def norm(dt):
    if dt[0] in "=|":
        return "<" + dt[1:]
    return dt if dt[0] in "<>" else "<" + dt


def value(dt, n, seed, style):
    d = norm(dt)
    k = n * fmt.width(d)
    raw = L.splitmix_bytes(seed, k)
    if style == "text":
        alpha = b"abc XYZ%]#\n\t\0[\xc3\xa9"
        return bytes(alpha[x % len(alpha)] for x in raw)
    if style == "num" and d[1:] in c03.NUM:
        return (np.frombuffer(L.splitmix_bytes(seed, 8 * n), "<u8") % 120).astype(d).tobytes()
    return raw


def run(case, ctx):
    L.set_buffer_size(L.DEFAULT_BUFFER)
    root = ctx.dir + "/r"
    f = L.File(root, create=True).must()
    b = L.Block()
    meta = case["meta"]
    name = "." if meta else "b"
    path = root + ("" if meta else "/b")
    ok(b.create(f, name, None if meta else "<i4", 0 if meta else 1, [] if meta else [2, 0]), "create")
    if meta:
        ctx.tag("meta-block")
    model = {}
    changed = reopened = 0

    def compare(blk, what):
        got = blk.attrs()
        names = [g[0] for g in got]
        need(names == sorted(names), "%s: attributes are listed in the order %r", what, names)
        need(len(set(names)) == len(names), "%s: duplicate names %r", what, names)
        g = {n: (dt, nm, raw) for n, dt, nm, raw in got}
        for n in set(g) | set(model):
            need(g.get(n) == model.get(n), "%s: attribute %r is %r, expected %r", what, n, g.get(n), model.get(n))

    def disk(what):
        try:
            d = fmt.read_attrs(path)
        except fmt.Bad as e:
            need(False, "%s: attr-v2 does not decode: %s", what, e)
        need(d == model, "%s: attributes on disk %r, expected %r", what, d, model)

    for op in case["ops"]:
        k = op[0]
        if k == "set":
            n, dt, nm, seed, style = op[1:]
            raw = value(dt, nm, seed, style)
            buf = L.Buf(raw)
            ok(b.set_attr(n, buf, dt, nm), "set_attr %r" % n)
            need(buf.bytes() == raw, "set_attr changed the caller's memory")
            if n.encode() in model:
                changed += 1
                ctx.tag("overwrite")
            model[n.encode()] = (norm(dt), nm, raw)
            if nm == 0:
                ctx.tag("no-members")
        elif k == "del":
            rt = L.remove_attr(b.h, op[1].encode())
            if op[1].encode() in model:
                ok(rt, "remove_attr")
                del model[op[1].encode()]
                changed += 1
                ctx.tag("remove")
            else:
                need(rt != 0, "removing the unknown attribute %r succeeded", op[1])
        elif k in ("get", "getas"):
            n = op[1].encode()
            a = L.lookup_attr(b.h, n)
            need(bool(a) == (n in model), "lookup of %r: %s, expected %s", n, bool(a), n in model)
            if n not in model:
                buf = L.Buf(64).fill(3)
                need(b.get_attr(n, buf, "<i4", 1) != 0, "getting the unknown attribute %r succeeded", n)
                need(buf.bytes() == b"\x03" * 64, "a failed get_attr wrote to the caller's memory")
            else:
                dt, nm, raw = model[n]
                need(L.attr_name(a) == n and L.attr_dtype(a).decode() == dt and L.attr_nmemb(a) == nm, "lookup of %r finds another attribute", n)
                to = dt if k == "get" else op[2]
                buf = L.Buf(nm * fmt.width(to)).fill(0x3c)
                rt = b.get_attr(n, buf, to, nm)
                if k == "get" or (c03.supported(dt, to) and dt[1:] in c03.NUM and all(0 <= x < 120 for x in np.frombuffer(raw, dt))) or dt[1:] == to[1:]:
                    ok(rt, "get_attr %r" % n)
                    want = c03.convert(raw, dt, to)
                    need(buf.bytes() == want, "attribute %r of type %s reads as %s: %r, expected %r", n, dt, to, buf.bytes(), want)
        elif k == "badget":
            n = op[1].encode()
            if n not in model:
                continue
            dt, nm, raw = model[n]
            buf = L.Buf(max(64, 2 * len(raw) + 64)).fill(3)
            blank = buf.bytes()
            how = op[2]
            if how == "type":
                rt = b.get_attr(n, buf, "<f2" if dt[1:] != "f2" else "<i2", nm)
            elif how == "more":
                rt = b.get_attr(n, buf, dt, nm + 1)
            elif how == "less":
                rt = b.get_attr(n, buf, dt, nm - 1)
            else:
                rt = b.get_attr(n + b"_", buf, dt, nm) if n + b"_" not in model else -1
            need(rt != 0, "get_attr of %r with a wrong %s succeeded", n, how)
            need(buf.bytes() == blank, "a failed get_attr wrote to the caller's memory")
            ctx.tag("refused-get")
        elif k == "badname":
            buf = L.Buf(b"12345678")
            need(b.set_attr(op[1], buf, "<i4", 2) != 0, "setting the attribute %r succeeded", op[1])
            ctx.tag("bad-name")
        elif k == "badtype":
            # there is no room for the type string
            buf = L.Buf(1000001)
            need(b.set_attr(op[1], buf, op[2], op[3]) != 0, "setting an attribute of type %r succeeded", op[2])
            ctx.tag("bad-type")
        elif k == "flush":
            ok(b.flush(), "flush")
            disk("flush")
        elif k == "reopen":
            ok(b.close(), "close")
            disk("close")
            b = L.Block()
            ok(b.open(f, name), "open")
            reopened += 1
        elif k == "other":
            ok(b.flush(), "flush")
            o = L.Block()
            ok(o.open(f, name), "open of a second handle")
            compare(o, "second handle")
            o.close()
        elif k == "grow" and not meta:
            ok(b.grow([1]), "grow")
        compare(b, "after " + k)
    ok(b.close(), "close")
    disk("final close")
    b = L.Block()
    ok(b.open(f, name), "open")
    compare(b, "at the end")
    b.close()
    if not meta:
        need(f.list() == [b"b"], "listing %r", f.list())
    f.close()
    ctx.nontrivial(changed and reopened)
    if len(model) > 16:
        ctx.tag("attrs>16")
    if any(len(v[2]) > 4096 for v in model.values()):
        ctx.tag("big-attr")
