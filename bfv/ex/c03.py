import numpy as np
from .. import fmt, lib as L
from ..lib import need, ok

NUM = ["i4", "u4", "i8", "u8", "f4", "f8"]
np.seterr(all="ignore")


def supported(a, b):
    a, b = a[1:], b[1:]
    if a == b:
        return True
    if a in NUM and b in NUM:
        return True
    if a == "b1" and b in NUM:
        return True
    return (a, b) in (("c8", "c16"), ("c16", "c8"))


def npdt(dt):
    if dt[1:] == "b1":
        return np.dtype("i1")
    if dt[1:] == "f16":
        return np.dtype("V16")
    if dt[1:] in ("i16",):
        return np.dtype("V16")
    return np.dtype(dt)


INTMAX = {"i4": 2**31 - 1, "u4": 2**32 - 1, "i8": 2**63 - 1, "u8": 2**64 - 1}


def values(src, dst, n, seed, mode):
    """n elements of type src whose conversion to dst is defined in C"""
    s, d = src[1:], dst[1:]
    raw = L.splitmix_bytes(seed, 8 * n)
    r = np.frombuffer(raw, "<u8").copy()
    if s == d or not supported(src, dst):
        return L.splitmix_bytes(seed, n * fmt.width(src))
    if s == "b1":
        return (r % 256).astype("u1").tobytes()
    if s[0] == "c":
        f = np.frombuffer(L.splitmix_bytes(seed + 1, n * fmt.width(src)), "<i4").astype("f8")
        half = "f4" if s == "c8" else "f8"
        f = (f * (2.0 ** ((np.arange(len(f)) % 60) - 30)))[:2 * n]
        return f.astype(src[0] + half).tobytes()
    if s[0] in "iu":
        w = int(s[1:])
        if mode == "round":
            # just beside the middle of two neighbouring floats: rounding twice goes wrong
            m = (r >> np.uint64(41)) | np.uint64(2**23)
            k = (r % np.uint64(8 * w - 25)) if w > 3 else r % np.uint64(1)
            v = (m << (k + np.uint64(1))) + (np.uint64(1) << k) + ((r >> np.uint64(8)) % np.uint64(3)) - np.uint64(1)
            if s[0] == "i":
                v &= np.uint64(2**(8 * w - 1) - 1)
                v = np.where(r & np.uint64(2**20), (~v) + np.uint64(1), v)
        elif mode == "small":
            v = (r % 200).astype("i8")
            v = np.where(r & 256, -v, v) if s[0] == "i" else v
            return v.astype(src).tobytes()
        elif mode == "edge":
            edges = np.array([0, 1, -1 % 2**64, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**24 + 1, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**63 + 2**39], dtype="u8")
            v = edges[r % len(edges)]
        else:
            v = r >> (np.arange(n, dtype="u8") % 64).astype("u8")
        v = v & np.uint64(2**(8 * w) - 1)
        return v.astype("<u%d" % w).view("<" + s).astype(src).tobytes()
    # floats
    if d[0] == "f":
        if mode == "round":
            m = ((r >> np.uint64(41)) | np.uint64(2**23)).astype("f8") + 0.5
            v = (m + ((r % np.uint64(3)).astype("f8") - 1) * 2.0**-28) * 2.0 ** (-(np.arange(n) % 90))
            v = np.where(r & np.uint64(2**20), -v, v)
        elif mode == "edge":
            edges = np.array([0.0, -0.0, 1.5, np.inf, -np.inf, np.nan, 1e-310, 1e-40, 3.4028235e38, 1 + 2**-24, 1 + 2**-23 * 1.5, -1e38, 2.0**-150, 1e300])
            v = edges[r % len(edges)]
        else:
            v = (r.astype("i8") >> 11).astype("f8") * 2.0 ** (-(np.arange(n) % 90))
        return v.astype(src).tobytes()
    lim = float(INTMAX[d])
    if mode == "small":
        v = (r % 4000).astype("f8") / 16
    elif mode == "edge":
        v = lim * ((r % 1000).astype("f8") / 1001)
    else:
        v = 2.0 ** ((r % 31).astype("f8")) * 0.999
    if d[0] == "i":
        v = np.where(r & np.uint64(2**40), -v, v)
    elif mode == "edge":
        v = np.where(r % 7 == 0, -0.5, v)
    return v.astype(src).tobytes()


def convert(raw, src, dst):
    s, d = src[1:], dst[1:]
    if s == d:
        if s[0] == "S" or src[0] == dst[0]:
            return raw
        w = fmt.width(src) // (2 if s[0] == "c" else 1)
        return np.frombuffer(raw, "u1").reshape(-1, w)[:, ::-1].tobytes()
    a = np.frombuffer(raw, npdt(src))
    return a.astype(a.dtype.newbyteorder("=")).astype(np.dtype(d)).astype(npdt(dst)).tobytes()


def same(x, y, dst):
    if x == y:
        return True
    if dst[1] in "fc" and dst[1:] not in ("f16", "f2"):
        t = np.dtype(dst[0] + {"f4": "f4", "f8": "f8", "c8": "f4", "c16": "f8"}[dst[1:]])
        a, b = np.frombuffer(x, t), np.frombuffer(y, t)
        return bool(np.all((a == b) & (np.signbit(a) == np.signbit(b)) | (np.isnan(a) & np.isnan(b))))
    return False


def spell(dt, how):
    if how == "e" or dt[0] == ">":
        return dt
    return how + dt[1:]


def layout(kind, n, nm, w, raw):
    """(memory, offset, strides): a memory layout for n x nm elements holding raw in index order"""
    e = np.frombuffer(raw, "V%d" % w).reshape(n, nm)
    if kind == "pad":
        m = np.full((n, nm * w + 5), 0x77, "u1")
        m[:, :nm * w] = np.frombuffer(raw, "u1").reshape(n, nm * w)
        return m.tobytes(), 0, (nm * w + 5, w)
    if kind == "rev":
        return e[::-1, ::-1].tobytes(), (n * nm - 1) * w, (-nm * w, -w)
    return raw, 0, None


def run(case, ctx):
    src, dst, nm, fs = case["src"], case["dst"], case["nm"], case["fs"]
    n = sum(fs)
    sup = supported(src, dst)
    route = case["route"]
    L.set_buffer_size(case["brows"] * nm * fmt.width(dst if route == "write" else src))
    ctx.tag("route-" + route, "pair-%s-%s" % (src[1:], dst[1:]) if sup else "refused")
    ctx.tag("swap-%s%s" % (src[0], dst[0]))
    ctx.nontrivial(src != dst and n * nm > 1)
    raw = values(src, dst, n * nm, case["seed"], case["mode"])
    ws, wd = fmt.width(src), fmt.width(dst)
    assert len(raw) == n * nm * ws, (len(raw), n, nm, ws)
    kind = case["lay"]
    if kind == "bcast":
        if route == "write":
            raw = raw[:nm * ws] * n
        else:
            kind = "c"
    want = convert(raw, src, dst) if sup else None
    root = ctx.dir + "/r"
    f = L.File(root, create=True).must()
    b = L.Block()
    if route == "write":
        ok(b.create(f, "b", spell(dst, case["spell"]), nm, fs), "create")
        # rows are there before, so that a refused write shows
        old = L.splitmix_bytes(case["seed"] + 9, n * nm * wd)
        b.put(0, old, dst, (n, nm))
        ok(b.flush(), "flush")
        if kind == "bcast":
            mem, off, strides = raw[:nm * ws], 0, (0, ws)
        else:
            mem, off, strides = layout(kind, n, nm, ws, raw)
        buf = L.Buf(mem)
        p = L.Ptr()
        ok(L.seek(b.h, p.h, 0), "seek")
        before = fmt.snapshot(root)
        geom = b.geom()
        rt = b.write(p, L.Array(buf, spell(src, case["spell"]), (n, nm), strides, off))
        need(buf.bytes() == mem, "the write changed the caller's memory")
        if not sup:
            need(rt != 0, "a write of %s into a block of %s succeeded", src, dst)
            need(fmt.snapshot(root) == before and b.geom() == geom and L.tell(b.h, p.h) == 0, "the refused write had an effect")
        else:
            ok(rt, "write of %s to %s" % (src, dst))
            need(L.tell(b.h, p.h) == n, "position after write is %d", L.tell(b.h, p.h))
        ok(b.close(), "close")
        got = fmt.read_block(root + "/b")["data"]
        need(same(got, want if sup else old, dst), "stored %s, expected %s, from %s %s", got.hex()[:400], (want if sup else old).hex()[:400], src, raw.hex()[:400])
    elif route == "attr":
        ok(b.create(f, "b", "i4", 1, [0]), "create")
        k = n * nm
        buf = L.Buf(raw)
        ok(b.set_attr("x", buf, spell(src, case["spell"]), k), "set_attr")
        need(buf.bytes() == raw, "set_attr changed the caller's memory")
        for again in range(3):
            out = L.Buf(k * wd).fill(0x3c)
            rt = b.get_attr("x", out, spell(dst, case["spell"]), k)
            if sup:
                ok(rt, "get_attr of %s as %s" % (src, dst))
                need(same(out.bytes(), want, dst), "attribute of type %s read as %s gives %s, expected %s", src, dst, out.bytes().hex()[:400], want.hex()[:400])
            else:
                need(rt != 0, "an attribute of type %s was read as %s", src, dst)
                need(out.bytes() == b"\x3c" * (k * wd), "the refused get_attr wrote to the caller's memory")
            need(b.attrs() == [(b"x", src, k, raw)], "reading the attribute changed it")
            if again == 0:
                ok(b.close(), "close")
                b = L.Block()
                ok(b.open(f, "b"), "open")
        b.close()
    else:
        fmt.write_block(root + "/b", src, nm, fs, raw)
        ok(b.open(f, "b"), "open")
        before = fmt.snapshot(root)
        if route == "simple":
            a = L.Array()
            rt = L.read_simple(b.h, 0, n, a.h, spell(dst, case["spell"]).encode())
            if sup:
                ok(rt, "read_simple of %s as %s" % (src, dst))
                got = L.C.string_at(L.array_data(a.h), n * nm * wd)
                L.free(L.array_data(a.h))
        else:
            blank = b"\xcd" * (n * nm * wd)
            mem, off, strides = layout(kind, n, nm, wd, blank)
            buf = L.Buf(mem)
            p = L.Ptr()
            ok(L.seek(b.h, p.h, 0), "seek")
            rt = b.read(p, L.Array(buf, spell(dst, case["spell"]), (n, nm), strides, off))
            if sup:
                ok(rt, "read of %s as %s" % (src, dst))
                m2, _, _ = layout(kind, n, nm, wd, want)
                if kind == "pad":
                    g = np.frombuffer(buf.bytes(), "u1").reshape(n, nm * wd + 5)
                    need(bool(np.all(g[:, nm * wd:] == 0x77)), "padding between the rows was overwritten")
                    got = g[:, :nm * wd].tobytes()
                elif kind == "rev":
                    got = np.frombuffer(buf.bytes(), "V%d" % wd)[::-1].tobytes()
                else:
                    got = buf.bytes()
        if sup:
            need(same(got, want, dst), "read %s, expected %s, stored %s %s", got.hex()[:400], want.hex()[:400], src, raw.hex()[:400])
        else:
            need(rt != 0, "a read of %s as %s succeeded", src, dst)
        ok(b.close(), "close")
        need(fmt.snapshot(root) == before, "reading changed the files")
    f.close()
