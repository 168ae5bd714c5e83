"""collective calls with faults on some ranks: all fail together, with a message, and the communicator stays usable"""
import os
from .. import fmt, lib as L, mlib as M
from ..lib import need, ok
from .c10 import Fault, LIMITS

SENT = "nothing was reported"


class Run:
    def __init__(self, case, ctx, comm):
        self.c, self.ctx, self.comm = case, ctx, comm
        self.me = comm.rank
        self.dt, self.nm = case["dt"], case["nm"]
        self.w = fmt.width(self.dt)
        self.row = self.w * self.nm
        self.root = ctx.dir + "/r"
        self.nfault = self.nblock = 0
        self.failed = self.okafter = 0
        self.b = None

    # ---- one collective call, perhaps under a fault
    def call(self, what, fn, fault=None, path=None):
        """-> rt; all ranks agree on it"""
        comm, me = self.comm, self.me
        fobj = err = None
        self.replaced = None
        if fault and fault[0] == "trunc" and what != "read":
            fault = None  # taking it away would take away what was written
        if fault:
            kind, target, k, ranks = fault
            if kind == "full" and what in ("read", "open", "read records"):
                kind = "loop"  # a full device reads as zeros
            self.nfault += 1
            try:
                if kind in LIMITS:
                    if me in [r % comm.size for r in ranks]:
                        fobj = Fault(None, None, kind, target, k)
                elif me == 0:
                    fobj = self.place(path, kind, target, k)
            except Exception as e:
                err = repr(e)
        self.sync("placing a fault", err)
        self.excuse = bool(fault)
        L.set_error(SENT.encode())
        comm.barrier()
        rt = fn()
        self.fired = L.fired() if fobj and fobj.kind == "call" else 0
        msg = L.error()
        self.sync("return of " + what, None)
        lost = None
        if fault and fault[0] == "call":
            n = comm.allreduce(self.fired)
            if n:
                self.ctx.tag("fired:" + fault[1])
            else:
                self.excuse = False
        if fobj:
            fobj.lift()
            if fobj.path and os.path.lexists(fobj.path) and fobj.had and os.path.lexists(fobj.saved):
                lost = fault[1]
        self.replaced = self.sync("lifting", None, lost)[0]
        msg = None if msg is None else msg.decode(errors="replace")
        every = comm.allgather((rt != 0, msg))
        bad = [i for i, x in enumerate(every) if x[0]]
        txt = "%s on %d ranks%s" % (what, comm.size, " with %s" % fault if fault else "")
        need(len(bad) in (0, comm.size), "%s failed on ranks %s only: %r", txt, bad, [x[1] for x in every])
        if bad:
            for i, x in enumerate(every):
                need(x[1] and x[1] != SENT, "%s failed, but rank %d has no message about it (%r)", txt, i, x[1])
            need(comm.allreduce(me + 1) == comm.size * (comm.size + 1) // 2, "the communicator is unusable after %s", txt)
            self.failed += 1
            self.ctx.tag("failed:" + what)
        else:
            if self.failed:
                self.okafter += 1
        return rt

    def place(self, path, kind, target, k):
        fs = self.fs if path == self.path else None
        if isinstance(target, int) and fs:
            target %= len(fs)
        if kind == "trunc" and not os.path.exists(fmt.datafile(path, target)):
            return None
        return Fault(path, "%s/side%d" % (self.ctx.dir, self.nfault), kind, target, k)

    def sync(self, what, err, value=None):
        every = self.comm.allgather((err, value))
        bad = [(i, x[0]) for i, x in enumerate(every) if x[0]]
        if bad:
            raise L.Fail("%s: %r" % (what, bad))
        return [x[1] for x in every]

    def zero(self, what, fn):
        """on rank 0, the others learn of a failure"""
        M.together(self.comm, what, lambda: fn() if self.me == 0 else None)

    # ---- the block under test
    def newblock(self, fault=None, fs=None, isfile=False):
        self.nblock += 1
        name = "b%d" % self.nblock
        path = os.path.join(self.root, name)
        fs = self.c["fs"] if fs is None else fs
        old = self.b, getattr(self, "fs", None), getattr(self, "path", None)
        if fault and fault[0] not in LIMITS:
            self.zero("mkdir", lambda: os.makedirs(path))
        if isfile:
            self.zero("mkfile", lambda: open(path, "w").close())
        b = M.Block(self.comm)
        self.path = path
        self.fs = list(fs)
        if self.c["simple"]:
            total = sum(fs)
            rt = self.call("create", lambda: b.create_size(self.f, name, self.dt, self.nm, len(fs), total), fault, path)
            n = len(fs)
            fs = [total * (i + 1) // n - total * i // n for i in range(n)]
        else:
            rt = self.call("create", lambda: b.create(self.f, name, self.dt, self.nm, fs), fault, path)
        if isfile:
            need(rt != 0, "a block was created where there is a regular file")
        if rt != 0:
            need(self.excuse or isfile, "create failed: %s", L.errmsg())
            self.b, self.fs, self.path = old
            return
        if old[0] is not None:
            self.call("close", old[0].close)

        def check():
            for i in range(len(fs)):
                need(self.replaced is not None or os.path.isfile(fmt.datafile(path, i)), "create with %s succeeded without file %06X", fault, i)
        self.zero("created files", check)
        self.b, self.name, self.fs, self.path = b, name, list(fs), path
        self.data = bytearray(sum(fs) * self.row)
        self.known = [False] * sum(fs)
        self.attrs = {}
        if self.call("flush", self.b.flush) != 0:
            raise L.Fail("flush after create failed: " + L.errmsg())
        self.zero("created header", self.header)
        self.dfs = list(self.fs)

    def header(self):
        h = fmt.read_header(self.path)
        need(h["fs"] == self.fs and h["dt"] == self.dt and h["nm"] == self.nm, "the header is %s, expected %s", h, self.fs)
        need(fmt.read_attrs(self.path) == self.attrs, "attributes on disk %s, expected %s", fmt.read_attrs(self.path), self.attrs)

    def reopen(self, fault=None):
        """open a second handle, which replaces the first if that works"""
        b = M.Block(self.comm)
        rt = self.call("open", lambda: b.open(self.f, self.name), fault, self.path)
        if rt != 0:
            need(self.excuse, "open failed: %s", L.errmsg())
            return False
        g = M.together(self.comm, "opened", lambda: need((b.geom()[0], b.dtype, b.nmemb) == (self.dfs, self.dt, self.nm), "opened with %s: %s", fault, b.geom()))
        self.b = b
        self.fs = list(self.dfs)
        M.together(self.comm, "attributes", lambda: need({a: (d, n, r) for a, d, n, r in b.attrs()} == self.attrs, "opened with %s, attributes %r", fault, b.attrs()))
        return True

    def grow(self, g, fault):
        rt = self.call("grow", lambda: self.b.grow(g), fault, self.path)
        if rt != 0:
            need(self.excuse, "grow failed: %s", L.errmsg())
            if not self.reopen():
                raise L.Fail("reopening failed")
            self.data = self.data[:sum(self.fs) * self.row]
            self.known = self.known[:sum(self.fs)]
            return
        n0 = len(self.fs)
        self.fs += g

        def check():
            for i in range(n0, len(self.fs)):
                need(self.replaced is not None or os.path.isfile(fmt.datafile(self.path, i)), "grow with %s succeeded without file %06X", fault, i)
        self.zero("grown files", check)
        self.data += bytes(sum(g) * self.row)
        self.known += [False] * sum(g)
        self.flush(None)

    def flush(self, fault):
        rt = self.call("flush", self.b.flush, fault, self.path)
        if rt != 0:
            need(self.excuse, "flush failed: %s", L.errmsg())
            if self.call("flush", self.b.flush) != 0:
                raise L.Fail("flush after a failed flush failed: " + L.errmsg())
        self.dfs = list(self.fs)
        if self.replaced not in ("header", "attr-v2"):
            self.zero("flushed", self.header)

    def span(self, op):
        total = sum(self.fs)
        at = min(op["at"], total)
        n = op["n"] if op["n"] > 10**6 else min(op["n"], total - at)
        if n > 10**6:
            n = total - at + n % 7 + 1
        parts = M.pieces(n, self.comm.size, op["split"])
        return at, n, parts, sum(parts[:self.me]), parts[self.me]

    def forget(self, target):
        if isinstance(target, int):
            i = target % len(self.fs)
            a = sum(self.fs[:i])
            self.known[a:a + self.fs[i]] = [False] * self.fs[i]

    def transfer(self, op):
        k, fault = op["k"], op["fault"]
        at, n, parts, base, mine = self.span(op)
        total = sum(self.fs)
        beyond = at + n > total
        badtype = None
        mt, w = self.dt, self.w
        if op["bad"] is not None and self.dt[1:] in ("i4", "f8"):
            badtype = op["bad"] % self.comm.size
            need_fail = parts[badtype] > 0
            if self.me == badtype:
                mt, w = "f2", 2
        else:
            need_fail = False
        p = L.Ptr()
        L.seek(self.b.h, p.h, at)
        src = L.splitmix_bytes(op["seed"], n * self.row)
        if k == "w":
            buf = L.Buf(src[base * self.row:(base + mine) * self.row]) if w == self.w else L.Buf(mine * self.nm * w).fill(1)
            rt = self.call("write", lambda: self.b.mwrite(p, L.Array(buf, mt, (mine, self.nm)), op["conc"]), fault, self.path)
        else:
            buf = L.Buf(mine * self.nm * w).fill(0xA5)
            rt = self.call("read", lambda: self.b.mread(p, L.Array(buf, mt, (mine, self.nm)), op["conc"]), fault, self.path)
        what = "%s of %s at %d of %s (fault %s)" % (k, parts, at, self.fs, fault)
        # what failed can be repeated: the position moves only with the rows
        there = L.tell(self.b.h, p.h)
        need(there == (at if rt != 0 else at + n), "%s %s and left the position at %d", what, "failed" if rt != 0 else "succeeded", there)
        if beyond:
            need(rt != 0, "%s reaches beyond the end and succeeded", what)
            self.ctx.tag("beyond")
        if need_fail:
            need(rt != 0, "%s: rank %d passed a type that cannot be converted, and the call succeeded", what, badtype)
            self.ctx.tag("badtype")
        missing = not beyond and not all(self.known[at:at + n])
        if rt != 0:
            need(beyond or badtype is not None or self.excuse or (k == "r" and missing), "%s failed: %s", what, L.errmsg())
            if k == "w":
                e = min(total, at + n)
                self.known[at:e] = [False] * (e - at)
            self.forget(self.replaced)
            return
        if k == "w":
            self.forget(self.replaced)
            self.data[at * self.row:(at + n) * self.row] = src
            self.known[at:at + n] = [True] * n
            self.zero("after " + what, self.disk)
        elif w == self.w and not missing:
            M.together(self.comm, "rows read", lambda: need(buf.bytes() == bytes(self.data[(at + base) * self.row:(at + base + mine) * self.row]), "%s returned other rows", what))

    def disk(self):
        """known rows against the files"""
        x = 0
        for i, n in enumerate(self.fs):
            got = open(fmt.datafile(self.path, i), "rb").read() if os.path.exists(fmt.datafile(self.path, i)) else b""
            for j in range(n):
                if self.known[x + j]:
                    need(got[j * self.row:(j + 1) * self.row] == bytes(self.data[(x + j) * self.row:(x + j + 1) * self.row]), "row %d is not in file %06X", x + j, i)
            x += n

    def records(self, op):
        fault = op["fault"]
        r = L.rec_new()
        L.rec_set(r, 0, b"f0", b"<i4", 1)
        L.rec_set(r, 1, b"f1", b"<f8", 2)
        L.rec_complete(r)
        item = L.rec_itemsize(r)
        n = op["n"] % 20
        parts = M.pieces(n, self.comm.size, op["split"])
        mine = parts[self.me]
        fld = os.path.join(self.root, "f%d" % (op["seed"] % 2))
        if fault and fault[0] not in LIMITS:
            self.zero("mkdir", lambda: os.makedirs(fld, exist_ok=True))
        cols = [("f0", "<i4", 4), ("f1", "<f8", 16)]
        before = self.comm.bcast([self.column(*x) for x in cols] if self.me == 0 else None, 0)
        good = None not in before
        if op["mode"] in ("w+", "a+", "x"):
            fs = [n // 2, n - n // 2]
            rt = self.call("create records", lambda: M.rec_create(self.f.h, r, op["mode"].encode(), 2, L.sizes(fs), M.H(self.comm)), fault, fld)
            if op["mode"] == "x":
                need(rt != 0, "records were created with mode x")
            what, want = "creating records", op["mode"] == "w+"
        else:
            total = op["at"] + n
            rows = L.splitmix_bytes(op["seed"], total * item)
            base = (op["at"] + sum(parts[:self.me])) * item
            buf = L.Buf(rows[base:base + mine * item]) if op["mode"] == "write" else L.Buf(mine * item).fill(1)
            fn = M.rec_write if op["mode"] == "write" else M.rec_read
            rt = self.call(op["mode"] + " records", lambda: fn(self.f.h, r, op["at"], mine, buf.p, op["conc"], M.H(self.comm)), fault, fld)
            what, want = op["mode"] + " of records", good and all(op["at"] + n <= sum(c["fs"]) and (op["mode"] == "write" or c["whole"]) for c in before)
        if rt != 0:
            need(self.excuse or not want, "%s failed: %s", what, L.errmsg())
        elif self.replaced is None:
            need(want or good, "%s succeeded without the columns", what)
            self.zero(what, lambda: self.recorded(op, what, cols, before, rows if op["mode"] == "write" else None, fs if op["mode"] in ("w+", "a+") else None, n))
            if op["mode"] == "read" and all(c["whole"] for c in before):
                exp = b"".join(c["data"][j * x[2]:(j + 1) * x[2]] for j in range(op["at"], op["at"] + n) for c, x in zip(before, cols))
                o = sum(parts[:self.me]) * item
                M.together(self.comm, what, lambda: need(buf.bytes() == exp[o:o + mine * item], "%s gave %s, expected %s", what, buf.bytes().hex(), exp[o:o + mine * item].hex()))
                self.ctx.tag("records-read")

    def column(self, name, dt, w):
        """a column by the independent reader, or None"""
        d = os.path.join(self.root, name)
        try:
            h = fmt.read_header(d)
            if h["dt"] != dt:
                return None
            raw = [open(fmt.datafile(d, i), "rb").read() for i in range(len(h["fs"]))]
            h["whole"] = all(len(x) == k * w for x, k in zip(raw, h["fs"]))
            h["data"] = b"".join(x.ljust(k * w, b"\0") for x, k in zip(raw, h["fs"]))
            return h
        except Exception:
            return None

    def recorded(self, op, what, cols, before, rows, fs, n):
        """what was reported as done is on disk"""
        o = 0
        for (name, dt, w), old in zip(cols, before):
            h = self.column(name, dt, w)
            need(h is not None, "%s succeeded, and column %s cannot be read", what, name)
            need(h["nm"] == w // fmt.width(dt), "%s succeeded, and column %s has %d members", what, name, h["nm"])
            exp = fs if op["mode"] == "w+" else old["fs"] + (fs or [])
            need(h["fs"] == exp, "%s succeeded, and column %s has files %s, expected %s", what, name, h["fs"], exp)
            if rows is not None:
                item = sum(x[2] for x in cols)
                at = op["at"]
                exp = b"".join(rows[j * item + o:j * item + o + w] for j in range(at, at + n))
                need(h["data"][at * w:(at + n) * w] == exp, "%s succeeded, and column %s holds %s at %d, expected %s", what, name, h["data"][at * w:(at + n) * w].hex(), at, exp.hex())
                self.ctx.tag("records-written")
            o += w

    def go(self):
        c = self.c
        comm = self.comm
        L.set_buffer_size(c["buf"] or L.DEFAULT_BUFFER)
        M.set_threshold(c["threshold"])
        self.path, self.fs = None, []
        if c["notdir"]:
            # a regular file where the directory should be; a directory that is not there
            side = self.ctx.dir + "/side"
            self.zero("side", lambda: open(side, "w").close())
            for bad, create in ((side + "/x", True), (self.ctx.dir + "/none", False), (self.ctx.dir + "/none/x/y", False)):
                f = M.File.__new__(M.File)
                f.comm, f.h = comm, L.file_new()
                rt = self.call("file create" if create else "file open", lambda: (M.file_create if create else M.file_open)(f.h, bad.encode(), M.H(comm)))
                need(rt != 0, "opening or creating %s succeeded", bad)
        f = M.File.__new__(M.File)
        f.comm, f.h, f.path = comm, L.file_new(), self.root
        need(self.call("file create", lambda: M.file_create(f.h, self.root.encode(), M.H(comm))) == 0, "creating the file failed: %s", L.errmsg())
        self.f = f
        self.newblock()
        for op in c["ops"]:
            k = op["k"]
            if k == "create":
                self.newblock(op["fault"], op["fs"], op["isfile"])
            elif k == "open":
                if self.reopen(op["fault"]):
                    self.data = self.data[:sum(self.fs) * self.row]
                    self.known = self.known[:sum(self.fs)]
            elif k == "none":
                b = M.Block(comm)
                need(self.call("open", lambda: b.open(self.f, op["name"])) != 0, "opening %s succeeded", op["name"])
            elif k == "grow":
                self.grow(op["fs"], op["fault"])
            elif k == "attr":
                raw = L.splitmix_bytes(op["seed"], 4 * op["n"])
                M.together(comm, "set_attr", lambda: ok(self.b.set_attr("a", L.Buf(raw), "<i4", op["n"]), "set_attr"))
                self.attrs[b"a"] = ("<i4", op["n"], raw)
                self.flush(op["fault"])
            elif k == "rec":
                self.records(op)
            else:
                self.transfer(op)
        rt = self.call("close", self.b.close, c["last"], self.path)
        excuse = self.excuse
        if rt == 0 and self.replaced is None:
            self.zero("closed", self.header)
        need(rt == 0 or excuse, "close failed: %s", L.errmsg())
        self.call("file close", f.close)
        self.ctx.nontrivial(self.failed and comm.size > 1)
        if self.okafter:
            self.ctx.tag("success-after-failure")


def run(case, ctx):
    comm = M.sub(case["np"])
    if comm is None:
        return
    Run(case, ctx, comm).go()
