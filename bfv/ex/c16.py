"""records against a model of columns; serially, or by all ranks of a communicator"""
import os
import numpy as np
from .. import fmt, lib as L
from ..lib import need, ok

NUM = ["i4", "u4", "i8", "u8", "f4", "f8"]


class Serial:
    rank, size = 0, 1

    def together(self, what, fn):
        return fn()

    def barrier(self):
        pass

    def create(self, f, r, mode, fs):
        return L.rec_create(f.h, r, mode, len(fs), L.sizes(fs))

    def write(self, f, r, off, n, buf, conc):
        return L.rec_write(f.h, r, off, n, buf.p)

    def read(self, f, r, off, n, buf, conc):
        return L.rec_read(f.h, r, off, n, buf.p)

    def file(self, path):
        return L.File(path, create=True).must()

    def pieces(self, n, seed):
        return [n]


class Parallel:
    def __init__(self, comm):
        from .. import mlib
        self.M, self.comm, self.rank, self.size = mlib, comm, comm.rank, comm.size

    def together(self, what, fn):
        return self.M.together(self.comm, what, fn)

    def barrier(self):
        self.comm.barrier()

    def create(self, f, r, mode, fs):
        return self.M.rec_create(f.h, r, mode, len(fs), L.sizes(fs), self.M.H(self.comm))

    def write(self, f, r, off, n, buf, conc):
        return self.M.rec_write(f.h, r, off, n, buf.p, conc, self.M.H(self.comm))

    def read(self, f, r, off, n, buf, conc):
        return self.M.rec_read(f.h, r, off, n, buf.p, conc, self.M.H(self.comm))

    def file(self, path):
        f = self.M.File(self.comm, path, create=True)
        self.together("create file", lambda: ok(f.rt, "create"))
        return f

    def pieces(self, n, seed):
        return self.M.pieces(n, self.size, seed)


def elements(dt, n, seed):
    """n elements of a type; numbers are small integers, the same whatever the type"""
    if dt[1:] in NUM:
        return (np.frombuffer(L.splitmix_bytes(seed, n), "u1") % 120).astype(dt).tobytes()
    return L.splitmix_bytes(seed, n * fmt.width(dt))


def convert(raw, src, dst):
    return raw if src == dst else np.frombuffer(raw, src).astype(dst).tobytes() if src[1:] in NUM else swap(raw, fmt.width(src))


def swap(raw, w):
    return np.frombuffer(raw, "u1").reshape(-1, w)[:, ::-1].tobytes()


def rectype(fields, how):
    """-> (handle, itemsize, offsets)"""
    r = L.rec_new()
    order = list(range(len(fields)))
    if how == 0:
        for n, dt, nm in fields:
            i = L.rec_add(r, L.b(n), dt.encode(), nm)
            need(0 <= i < len(fields) and fields[i] == [n, dt, nm], "rec_add returned %d for field %r", i, n)
    else:
        order = [(i * how + how) % len(fields) for i in order] if np.gcd(how, len(fields)) == 1 else order[::-1]
        if how % 2:
            L.rec_set(r, order[0], b"wrong", b"<i4", 3)
        for i in order:
            L.rec_set(r, i, L.b(fields[i][0]), fields[i][1].encode(), fields[i][2])
    L.rec_complete(r)
    dtype = np.dtype([("f%d" % i, "V%d" % fmt.width(dt), (nm,)) for i, (n, dt, nm) in enumerate(fields)])
    offs = [dtype.fields["f%d" % i][1] for i in range(len(fields))]
    need(L.rec_nfield(r) == len(fields) and L.rec_itemsize(r) == dtype.itemsize, "%d fields of %d bytes, expected %d of %d", L.rec_nfield(r), L.rec_itemsize(r), len(fields), dtype.itemsize)
    for i in range(len(fields)):
        need(L.rec_offset(r, i) == offs[i] and L.rec_elsize(r, i) == fmt.width(fields[i][1]), "field %d lies at %d (%d bytes), in a packed struct at %d", i,
             L.rec_offset(r, i), L.rec_elsize(r, i), offs[i])
    return r, dtype.itemsize, offs


def run(case, ctx):
    if case.get("np"):
        from .. import mlib
        comm = mlib.sub(case["np"])
        if comm is None:
            return
        env = Parallel(comm)
        mlib.set_threshold(case["threshold"])
    else:
        env = Serial()
    me = env.rank
    L.set_buffer_size(case["buf"] or L.DEFAULT_BUFFER)
    root = ctx.dir + "/r"
    f = env.file(root)
    fields = case["fields"]
    # a column that is no field
    bystander = {"dt": "<i8", "nm": 2, "fs": [3, 2], "raw": L.splitmix_bytes(9, 80)}

    def other():
        if me == 0:
            fmt.write_block(root + "/bystander!", "<i8", 2, [3, 2], bystander["raw"], {b"k": ("<i4", 1, b"1234")})
    env.together("bystander", other)
    full, item, offs = rectype(fields, case["how"])
    cols = [None] * len(fields)   # [data, known] once created
    fs = []
    flags = set()

    def files(what):
        def check():
            if me:
                return
            for i, (n, dt, nm) in enumerate(fields):
                if cols[i] is None:
                    need(not os.path.exists(root + "/" + n), "%s created column %r", what, n)
                    continue
                h = fmt.read_header(root + "/" + n)
                need(h["dt"] == dt and h["nm"] == nm and h["fs"] == fs, "after %s column %r is %s, expected %s x%d %s", what, n, h, dt, nm, fs)
                row = fmt.width(dt) * nm
                x = 0
                for k, z in enumerate(fs):
                    with open(fmt.datafile(root + "/" + n, k), "rb") as fp:
                        got = fp.read()
                    need(len(got) <= z * row, "file %d of column %r has %d bytes for %d rows", k, n, len(got), z)
                    for j in range(z):
                        if cols[i][1][x + j]:
                            need(got[j * row:(j + 1) * row] == bytes(cols[i][0][(x + j) * row:(x + j + 1) * row]), "after %s row %d of column %r is %s, expected %s", what, x + j, n,
                                 got[j * row:(j + 1) * row].hex(), bytes(cols[i][0][(x + j) * row:(x + j + 1) * row]).hex())
                    x += z
            got = fmt.read_block(root + "/bystander!")
            need(got["data"] == bystander["raw"] and got["attrs"] == {b"k": ("<i4", 1, b"1234")}, "%s changed a column that is no field", what)
            extra = set(os.listdir(L.b(root))) - {L.b(n) for n, _, _ in fields} - {b"bystander!", b"header", b"attr-v2"}
            need(not extra, "%s left %s", what, extra)
        env.together(what, check)

    for op in case["ops"]:
        k = op[0]
        total = sum(fs)
        if k in ("create", "append"):
            if k == "append" and cols[0] is None:
                continue
            rt = env.create(f, full, b"w+" if k == "create" else b"a+", op[1])
            env.together(k, lambda: ok(rt, k))
            if k == "create":
                fs = list(op[1])
                cols = [[bytearray(sum(fs) * fmt.width(dt) * nm), [False] * sum(fs)] for n, dt, nm in fields]
                if total:
                    flags.add("recreated")
            else:
                fs = fs + op[1]
                for i, (n, dt, nm) in enumerate(fields):
                    cols[i][0] += bytes(sum(op[1]) * fmt.width(dt) * nm)
                    cols[i][1] += [False] * sum(op[1])
                flags.add("append")
            env.barrier()
            files(k)
            continue
        if k == "mode":
            before = fmt.snapshot(root) if me == 0 else None
            env.barrier()
            rt = env.create(f, full, op[1].encode(), [3])
            env.barrier()
            env.together("mode", lambda: need(rt != 0, "mode %r was accepted", op[1]))
            env.together("mode", lambda: need(me or fmt.snapshot(root) == before, "mode %r changed files", op[1]))
            continue
        if k == "one":
            # single fields of a buffer of rows; no files
            nrows = 4
            src = L.splitmix_bytes(op[3], nrows * item)
            buf = L.Buf(src)
            c = op[2] % len(fields)
            i = op[1] % nrows
            w = fmt.width(fields[c][1]) * fields[c][2]
            new = L.splitmix_bytes(op[3] + 1, w)
            nb = L.Buf(new)
            L.rec_put(full, buf.p, i, c, nb.p)
            want = src[:i * item + offs[c]] + new + src[i * item + offs[c] + w:]
            need(buf.bytes() == want, "setting field %d of row %d changed the record to %s, expected %s", c, i, buf.bytes().hex(), want.hex())
            for j in range(nrows):
                for d in range(len(fields)):
                    wd = fmt.width(fields[d][1]) * fields[d][2]
                    out = L.Buf(wd).fill(0)
                    L.rec_get(full, buf.p, j, d, out.p)
                    need(out.bytes() == want[j * item + offs[d]:j * item + offs[d] + wd], "field %d of row %d reads %s", d, j, out.bytes().hex())
            need(buf.bytes() == want, "getting fields changed the record")
            flags.add("single-fields")
            continue
        # transfers through a record type made of some of the fields, in some order and types
        sub = op[1]
        picked = []
        for fi, conv in sub:
            fi %= len(fields)
            if fi in [x[0] for x in picked]:
                continue
            dt = fields[fi][1]
            if conv is not None:
                e, kind = "<>"[conv % 2], NUM[conv // 2 % len(NUM)]
                dt = e + kind if dt[1:] in NUM else e + dt[1:] if dt[1] in "iuf" else dt
            picked.append((fi, dt))
        rf = [[fields[fi][0], dt, fields[fi][2]] for fi, dt in picked]
        if not rf:
            continue
        if op[5] == "absent":
            rf.append(["absent!", "<i4", 1])
        r, ritem, roffs = rectype(rf, op[4] % 3)
        n = op[3]
        at = op[2]
        start = at if at >= 0 else at + total
        n = n if op[5] == "beyond" else max(0, min(n, total - start)) if 0 <= start <= total else n
        fits = 0 <= start <= total and start + n <= total
        parts = env.pieces(n, op[4])
        base, mine = sum(parts[:me]), parts[me]
        conc = op[4] % 4
        what = "%s of rows %s at %d of %d through %s" % ("write" if k == "w" else "read", parts, at, total, [x[:2] for x in rf])
        missing = cols[0] is None or op[5] == "absent"
        if k == "w":
            recs = bytearray(n * ritem)
            colraw = []
            for (nme, dt, nm), o in zip(rf, roffs):
                w = fmt.width(dt) * nm
                raw = elements(dt, n * nm, op[4] + o)
                colraw.append(raw)
                for x in range(n):
                    recs[x * ritem + o:x * ritem + o + w] = raw[x * w:(x + 1) * w]
            buf = L.Buf(bytes(recs[base * ritem:(base + mine) * ritem]))
            rt = env.write(f, r, at, mine, buf, conc)
            if missing or not fits:
                env.together(what, lambda: need(rt != 0, "%s succeeded", what))
                flags.add("refused")
                if fits:  # the fields before the missing one were written
                    for fi, dt in picked:
                        if cols[fi]:
                            cols[fi][1][start:start + n] = [False] * n
                elif env.size > 1 and cols[0] and 0 <= start < total:  # the parts of some ranks fit
                    for fi, dt in picked:
                        cols[fi][1][start:] = [False] * (total - start)
            else:
                env.together(what, lambda: ok(rt, what))
                env.together(what, lambda: need(buf.bytes() == bytes(recs[base * ritem:(base + mine) * ritem]), "%s changed the records", what))
                for (fi, dt), raw in zip(picked, colraw):
                    d, nm = fields[fi][1], fields[fi][2]
                    w = fmt.width(d) * nm
                    cols[fi][0][start * w:(start + n) * w] = convert(raw, dt, d)
                    cols[fi][1][start:start + n] = [True] * n
                flags.add("moved" if n and len(rf) > 1 else "moved-1")
        else:
            unknown = fits and cols[0] is not None and not all(all(cols[fi][1][start:start + n]) for fi, dt in picked)
            buf = L.Buf((mine + 2) * ritem).fill(0xA5)
            rt = env.read(f, r, at, mine, buf, conc)
            if missing or not fits:
                env.together(what, lambda: need(rt != 0, "%s succeeded", what))
                flags.add("refused")
            elif not unknown:
                env.together(what, lambda: ok(rt, what))
                want = bytearray(n * ritem)
                for (fi, dt), o in zip(picked, roffs):
                    d, nm = fields[fi][1], fields[fi][2]
                    w, rw = fmt.width(d) * nm, fmt.width(dt) * nm
                    raw = convert(bytes(cols[fi][0][start * w:(start + n) * w]), d, dt)
                    for x in range(n):
                        want[x * ritem + o:x * ritem + o + rw] = raw[x * rw:(x + 1) * rw]
                exp = bytes(want[base * ritem:(base + mine) * ritem])
                env.together(what, lambda: need(buf.bytes()[:mine * ritem] == exp, "%s gave %s, expected %s", what, buf.bytes()[:mine * ritem].hex()[:400], exp.hex()[:400]))
                flags.add("read" if n and len(rf) > 1 else "read-1")
            env.together(what, lambda: need(buf.bytes()[mine * ritem:] == b"\xa5" * (2 * ritem), "%s wrote behind the records", what))
        if len(rf) < len(fields):
            flags.add("sub-record")
        if any(dt != fields[fi][1] for fi, dt in picked):
            flags.add("converted")
        L.rec_clear(r)
        L.free(r)
        env.barrier()
        files(what)
    L.rec_clear(full)
    need(L.rec_nfield(full) == 0, "a cleared record type has fields")
    L.free(full)
    f.close()
    ctx.tag(*sorted(flags))
    ctx.nontrivial({"moved", "read"} <= flags)
