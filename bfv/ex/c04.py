import numpy as np
from .. import fmt, lib as L
from ..lib import need, ok
from .c03 import npdt


def small(n, seed, dt):
    """n elements of dt with values every numeric type represents"""
    k = dt[1:]
    if k in ("c8", "c16", "i2", "u1", "S5", "i16"):
        return L.splitmix_bytes(seed, n * fmt.width(dt))
    v = np.frombuffer(L.splitmix_bytes(seed, n * 8), "<u8") % 120
    return v.astype(dt).tobytes()


def build(case):
    """-> strides, offset, bytes of memory: the axes nest in reverse order of `perm', innermost first"""
    dims = case["dims"]
    w = fmt.width(case["mt"]) + case["unit"]
    cur = w
    strides = [0] * len(dims)
    off = 0
    span = fmt.width(case["mt"])
    for i in reversed(case["perm"]):
        d, step, neg, pad = dims[i]
        if i in case["zero"]:
            strides[i] = 0
            continue
        if cur > 50000:
            step, pad = 1, 0
        s = cur * step
        strides[i] = -s if neg else s
        if d <= 1:
            continue
        if d > 0:
            span += s * (d - 1)
            if neg:
                off += s * (d - 1)
        cur = s * max(d, 1) + pad * w
    return strides, off, span


def run(case, ctx):
    shape = tuple(d[0] for d in case["dims"])
    total = int(np.prod(shape, dtype=object))
    mt, bt, nm = case["mt"], case["bt"], case["nm"]
    wm, wb = fmt.width(mt), fmt.width(bt)
    strides, off, span = build(case)
    rows = total // nm
    size = case["pre"] + rows + case["post"]
    fs = []
    left = size
    for c in case["cut"]:
        fs.append(min(left, c))
        left -= fs[-1]
    fs.append(left)
    L.set_buffer_size(case["brows"] * nm * wb or L.DEFAULT_BUFFER)
    cont = all(s == x for s, x in zip(strides, np.cumprod([wm] + list(shape[:0:-1]))[::-1]))
    ctx.nontrivial(total > 1 and not cont)
    ctx.tag(case["op"], "ndim-%d" % len(shape), "zero-stride" if case["zero"] else "", "negative" if any(s < 0 for s in strides) else "",
            "converts" if mt != bt else "same-type", "empty" if total == 0 else "")
    lib_shape, lib_strides = shape, strides
    old = small(size * nm, case["seed"] + 1, bt)
    root = ctx.dir + "/r"
    fmt.write_block(root + "/b", bt, nm, fs, old)
    f = L.File(root).must()
    b = L.Block()
    ok(b.open(f, "b"), "open")
    p = L.Ptr()
    ok(L.seek(b.h, p.h, case["pre"]), "seek")
    lo, hi = case["pre"] * nm * wb, (case["pre"] + rows) * nm * wb

    def conv(raw, a, c):
        if a[1:] == c[1:]:
            x = np.frombuffer(raw, "u1")
            if a[0] == c[0] or a[1] == "S":
                return raw
            k = fmt.width(a) // (2 if a[1] == "c" else 1)
            return x.reshape(-1, k)[:, ::-1].tobytes()
        return np.frombuffer(raw, npdt(a)).astype(npdt(c)).tobytes()

    def view(mem):
        if total == 0:
            return np.empty(shape, "V%d" % wm)
        return np.lib.stride_tricks.as_strided(mem[off:off + wm].view("V%d" % wm)[:1].reshape(()), shape=shape, strides=strides, writeable=True)

    if case["op"] == "write":
        mem = np.frombuffer(L.splitmix_bytes(case["seed"], span), "u1").copy()
        if mt[1:] in ("i4", "u4", "i8", "u8", "f4", "f8"):
            v = view(mem)
            v[...] = np.frombuffer(small(total, case["seed"], mt), "V%d" % wm).reshape(shape)
        elems = np.ascontiguousarray(view(mem)).tobytes()
        buf = L.Buf(mem)
        ok(b.write(p, L.Array(buf, mt, lib_shape, lib_strides, off)), "write")
        need(buf.bytes() == mem.tobytes(), "the write changed the caller's memory")
        need(L.tell(b.h, p.h) == case["pre"] + rows, "position after write: %d", L.tell(b.h, p.h))
        geom = b.geom()
        ok(b.close(), "close")
        got = fmt.read_block(root + "/b")
        want = old[:lo] + conv(elems, mt, bt) + old[hi:]
        need(got["data"][lo:hi] == want[lo:hi], "stored %s, expected %s", got["data"][lo:hi].hex()[:600], want[lo:hi].hex()[:600])
        need(got["data"] == want, "rows outside the written range changed")
        # the same transfer from a contiguous copy
        fmt.write_block(root + "/c", bt, nm, fs, old)
        c = L.Block()
        ok(c.open(f, "c"), "open")
        c.put(case["pre"], elems, mt, (rows, nm))
        need(c.geom() == geom, "checksums %s, from a contiguous copy %s", geom, c.geom())
        ok(c.close(), "close")
    else:
        mem = np.full(span, 0x69, "u1")
        buf = L.Buf(mem)
        ok(b.read(p, L.Array(buf, mt, lib_shape, lib_strides, off)), "read")
        need(L.tell(b.h, p.h) == case["pre"] + rows, "position after read: %d", L.tell(b.h, p.h))
        v = view(mem)
        if total:
            v[...] = np.frombuffer(conv(old[lo:hi], bt, mt), "V%d" % wm).reshape(shape)
        got = buf.bytes()
        need(np.ascontiguousarray(view(np.frombuffer(got, "u1").copy())).tobytes() == np.ascontiguousarray(v).tobytes(), "elements read differ from the rows stored")
        need(got == mem.tobytes(), "bytes outside the array's elements were changed")
        ok(b.close(), "close")
    f.close()
