"""exchange helpers against what was sent"""
import ctypes as C
import numpy as np
from .. import lib as L, mlib as M
from ..lib import need


def ints(v):
    return (C.c_int * max(1, len(v)))(*v)


def data(seed, i, j, n):
    return L.splitmix_bytes(seed + 31 * i + 977 * j, n)


def place(counts, how, seed):
    """displacements for parts of these sizes: in order, in another order, with gaps -> (displs, extent)"""
    n = len(counts)
    order = list(range(n))
    if how == 2:
        order = order[::-1]
    elif how == 3:
        order = sorted(order, key=lambda i: (i * 7 + seed) % 11)
    d, x = [0] * n, 0
    for i in order:
        if how >= 1:
            x += (seed >> i) % 3
        d[i] = x
        x += counts[i]
    return d, x + (how >= 1)


class Elems:
    """n elements of es bytes each, with off bytes before and pad behind"""
    def __init__(self, n, es, shape, fill):
        self.es, (self.off, self.pad) = es, shape
        self.ext = self.off + es + self.pad
        self.raw = bytearray(bytes([fill]) * (n * self.ext))

    def put(self, at, n, b):
        for k in range(n) if self.ext > self.es else ():
            x = (at + k) * self.ext + self.off
            self.raw[x:x + self.es] = b[k * self.es:(k + 1) * self.es]
        if self.ext == self.es:
            self.raw[at * self.es:(at + n) * self.es] = b

    def get(self, at, n, raw):
        if self.ext == self.es:
            return raw[at * self.es:(at + n) * self.es]
        return b"".join(raw[(at + k) * self.ext + self.off:(at + k) * self.ext + self.off + self.es] for k in range(n))


def exchange(c, ctx, comm):
    me, n = comm.rank, comm.size
    counts = [[c["counts"][i][j] for j in range(n)] for i in range(n)]
    u, a, b = c["unit"], c["ses"], c["res"]
    if not c["rcnt"]:
        a = b
    # counts are in units of a*b*u bytes, so that both element sizes divide them
    send = [x * b for x in counts[me]]
    recv = [counts[i][me] * a for i in range(n)]
    ses, res = u * a, u * b
    sd, sx = place(send, c["sdis"][me % len(c["sdis"])], c["seed"])
    rd, rx = place(recv, c["rdis"][me % len(c["rdis"])], c["seed"] >> 3)
    shape = c.get("shape") or [0, 0, 0, 0]
    S, R = Elems(sx, ses, shape[:2], 0x5A), Elems(rx, res, shape[2:], 0xA5)
    sraw, want = S.raw, R.raw
    for j in range(n):
        S.put(sd[j], send[j], data(c["seed"], me, j, send[j] * ses))
    for i in range(n):
        R.put(rd[i], recv[i], data(c["seed"], i, me, recv[i] * res))
    # no displacements: computed ones
    s_none = c["sdis"][me % len(c["sdis"])] == 0 and c["none"] & 1
    r_none = c["rdis"][me % len(c["rdis"])] == 0 and c["none"] & 2
    H = M.H(comm)
    for policy, name in ((0, "AUTO"), (1, "DISABLED"), (2, "REQUIRED")):
        if not c["rcnt"]:
            sb = L.Buf(bytes(sraw))
            tot = M.alltoallv(sb.p, ints(send), None, ses, None, None, None, res, H, policy, *shape)
            M.together(comm, "size", lambda: need(tot == sum(recv), "the exchange reports %d elements to receive, it is %d (%s)", tot, sum(recv), name))
        sb, rb = L.Buf(bytes(sraw)), L.Buf(len(want)).fill(0xA5)
        rt = M.alltoallv(sb.p, ints(send), None if s_none else ints(sd), ses, rb.p, ints(recv) if c["rcnt"] else None, None if r_none else ints(rd), res, H, policy, *shape)

        def check():
            need(rt == 0, "exchange (%s) returned %d", name, rt)
            need(sb.bytes() == bytes(sraw), "the exchange (%s) changed the send buffer", name)
            got = rb.bytes()
            for i in range(n):
                g, w = R.get(rd[i], recv[i], got), R.get(rd[i], recv[i], bytes(want))
                need(g == w, "rank %d got %s from rank %d, sent were %s (%s)", me, g.hex()[:120], i, w.hex()[:120], name)
            need(got == bytes(want), "rank %d: bytes between the parts were changed (%s)", me, name)
        M.together(comm, "exchange", check)
    ctx.tag("exchange", "padded" if any(shape) else "packed", "different-types" if ses != res else "same-types")
    flat = [x for r in counts for x in r]
    ctx.nontrivial(n > 1 and any(counts[i][j] for i in range(n) for j in range(n) if i != j) and 0 in flat)


def gather(c, ctx, comm):
    me, n = comm.rank, comm.size
    counts = [c["counts"][0][i] for i in range(n)]
    es, root = c["unit"] * c["ses"], c["root"] % n
    H = M.H(comm)
    total = sum(counts)
    mine = data(c["seed"], me, 0, counts[me] * es)
    alls = b"".join(data(c["seed"], i, 0, counts[i] * es) for i in range(n))
    sb = L.Buf(mine)
    rb = L.Buf(total * es).fill(0xA5) if c["none"] & 1 else None
    tot = C.c_int(-5) if c["none"] & 2 else None
    p = M.gather(H, root, sb.p, rb.p if rb else None, counts[me], es, C.addressof(tot) if tot is not None else None)

    def check():
        if me == root:
            need(total == 0 or p, "nothing gathered")
            need(not rb or p == rb.p, "gather did not use the buffer given")
            got = C.string_at(p, total * es) if total else b""
            need(got == alls, "gathered %s on %d, expected %s", got.hex()[:200], root, alls.hex()[:200])
        need(tot is None or tot.value == (total if me == root else 0), "gather reports %s elements on rank %d", tot, me)
        need(sb.bytes() == mine, "gather changed what was sent")
    M.together(comm, "gather", check)
    ob = L.Buf(counts[me] * es).fill(0xA5) if c["none"] & 4 else None
    tot = C.c_int(-5) if c["none"] & 2 else None
    q = M.scatter(H, root, p if me == root else None, ob.p if ob else None, counts[me], es, C.addressof(tot) if tot is not None else None)

    def check2():
        need(not ob or q == ob.p, "scatter did not use the buffer given")
        got = C.string_at(q, counts[me] * es) if counts[me] else b""
        need(got == mine, "scattering what was gathered gives rank %d %s, it sent %s", me, got.hex()[:200], mine.hex()[:200])
        need(tot is None or tot.value == (total if me == root else 0), "scatter reports %s elements on rank %d", tot, me)
        if me == root and total:
            need(C.string_at(p, total * es) == alls, "scatter changed what was sent")
    M.together(comm, "scatter", check2)
    if not rb and me == root:
        M.mpiu_free(p)
    if not ob:
        M.mpiu_free(q)
    ctx.tag("gather-scatter")
    ctx.nontrivial(n > 1 and total and 0 in counts)


TYPES = [("l", "i8"), ("i", "i4"), ("d", "f8"), ("B", "u1"), ("f", "f4")]


def getloc(c, ctx, comm):
    me, n = comm.rank, comm.size
    t = c["type"] % 5
    dt = np.dtype(TYPES[t][1])
    vals = [v % 256 if t == 3 else v for v in c["vals"][:n]]
    if t in (2, 4):
        vals = [v * 0.37 if v else 0.0 for v in vals]
    elif t == 0:
        vals = [v * 2**20 for v in vals]
    arr = np.array(vals, dtype=dt)
    buf = L.Buf(arr[me:me + 1].tobytes())
    got = M.getloc(buf.p, t, c["op"], M.H(comm))
    best = arr.max() if c["op"] else arr.min()
    want = list(arr).index(best)
    M.together(comm, "location", lambda: need(got == want, "the %s of %s is first on rank %d, the call says %d", "maximum" if c["op"] else "minimum", vals, want, got))
    ctx.tag("location")
    if list(arr).count(best) > 1:
        ctx.tag("tie")
    ctx.nontrivial(n > 1 and len(set(vals)) > 1)


def segment(c, ctx, comm):
    me, n = comm.rank, comm.size
    sizes = c["sizes"][:n]
    H = M.H(comm)
    got, off = (C.c_size_t * n)(), C.c_size_t()
    total = M.collect(sizes[me], got, C.addressof(off), H)
    M.together(comm, "sizes", lambda: need(total == sum(sizes) and list(got) == sizes and off.value == sum(sizes[:me]), "collected %s, total %d, offset %d; they are %s", list(got), total, off.value, sizes))
    second = c["sizes2"][:n] if c["sizes2"] else None
    ng, avg = c["ngroup"], c["avg"]
    out = (C.c_long * 16)()
    M.segment(L.sizes(sizes), L.sizes(second) if second else None, avg, ng, H, out)
    names = ("Ngroup", "Nsegments", "GroupID", "ThisSegment", "start", "end", "is_leader", "group_leader", "segment_leader", "grank", "gsize", "srank", "ssize", "lsize")
    rows = comm.allgather(dict(zip(names, list(out))))

    def check():
        has = [i for i in range(n) if sizes[i] or (second and second[i])]
        what = "sizes %s, %s, %d per segment, %d groups: %s" % (sizes, second, avg, ng, [(r["GroupID"], r["ThisSegment"]) for r in rows])
        for i in has:
            r = rows[i]
            need(0 <= r["GroupID"] < ng, "rank %d is in group %d: %s", i, r["GroupID"], what)
            need(0 <= r["ThisSegment"] < r["Nsegments"], "rank %d is in segment %d of %d: %s", i, r["ThisSegment"], r["Nsegments"], what)
        for i, j in zip(has, has[1:]):
            need(rows[i]["ThisSegment"] <= rows[j]["ThisSegment"] and rows[i]["GroupID"] <= rows[j]["GroupID"], "segments or groups are out of order: %s", what)
            need(rows[i]["ThisSegment"] != rows[j]["ThisSegment"] or rows[i]["GroupID"] == rows[j]["GroupID"], "a segment is in two groups: %s", what)
        for g in {rows[i]["GroupID"] for i in has}:
            m = [i for i in range(n) if rows[i]["GroupID"] == g]
            need(set(m) <= set(has), "a rank without data is in group %d: %s", g, what)
            for k, i in enumerate(m):
                r = rows[i]
                need(r["gsize"] == len(m) and r["grank"] == k, "rank %d is %d of %d in group %d, expected %d of %d: %s", i, r["grank"], r["gsize"], g, k, len(m), what)
                need(r["group_leader"] == rows[m[0]]["group_leader"] and 0 <= r["group_leader"] < len(m) and r["is_leader"] == (k == r["group_leader"]), "leaders of group %d: %s", g, what)
                need(r["start"] == min(rows[x]["ThisSegment"] for x in m) and r["end"] == max(rows[x]["ThisSegment"] for x in m) + 1, "group %d works on segments [%d,%d): %s", g, r["start"], r["end"], what)
        for s in {rows[i]["ThisSegment"] for i in has}:
            m = [i for i in range(n) if rows[i]["ThisSegment"] == s and i in has]
            for k, i in enumerate(m):
                r = rows[i]
                need(r["ssize"] == len(m) and r["srank"] == k, "rank %d is %d of %d in segment %d: %s", i, r["srank"], r["ssize"], s, what)
                need(r["segment_leader"] == rows[m[0]]["segment_leader"] and 0 <= r["segment_leader"] < len(m), "leaders of segment %d: %s", s, what)
            for v in (sizes, second):
                if v:
                    need(sum(v[i] for i in m[:-1]) <= avg, "segment %d has %s, wanted are %d: %s", s, [v[i] for i in m], avg, what)
        return len({rows[i]["ThisSegment"] for i in has})
    k = M.together(comm, "segmenter", check)
    ctx.tag("segmenter")
    ctx.nontrivial(k > 1 and n > 2)


def run(case, ctx):
    comm = M.sub(case["np"])
    if comm is None:
        return
    {"exchange": exchange, "gather": gather, "getloc": getloc, "segment": segment}[case["k"]](case, ctx, comm)
