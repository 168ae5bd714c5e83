"""histories with operating system faults: what was reported as done is on disk, what was refused is reported"""
import errno, os, resource, signal, stat
from .. import fmt, lib as L
from ..lib import need, ok

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
INF = resource.RLIM_INFINITY


# calls that can be made to fail, by class (harness/faults.c), and what they report
CALLS = ["open", "write", "close", "read", "seek", "mkdir"]
ERRNO = [[errno.EMFILE, errno.EACCES, errno.EIO], [errno.ENOSPC, errno.EIO, errno.EDQUOT], [errno.ENOSPC, errno.EIO, errno.EDQUOT], [errno.EIO, errno.EISDIR, errno.ESTALE],
         [errno.EIO, errno.ESTALE, errno.EOVERFLOW], [errno.ENOSPC, errno.EACCES, errno.EROFS]]


LIMITS = ("fsize", "nofile", "call")


class Fault:
    """one fault of the operating system, put in place and taken away"""

    def __init__(self, block, side, kind, target, k):
        self.kind, self.lifted = kind, False
        self.path = None
        if kind == "call":
            i = CALLS.index(target)
            L.fault(i, k, ERRNO[i][k % 3])
            return
        if kind == "fsize":
            self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, self.old[1]))
            return
        if kind == "nofile":
            self.old = resource.getrlimit(resource.RLIMIT_NOFILE)
            fd = os.open("/dev/null", os.O_RDONLY)
            os.close(fd)
            resource.setrlimit(resource.RLIMIT_NOFILE, (fd, self.old[1]))
            return
        self.path = fmt.datafile(block, target) if isinstance(target, int) else os.path.join(block, target)
        self.saved = side
        self.data = isinstance(target, int)
        self.had = os.path.lexists(self.path)
        if kind == "trunc":
            with open(self.path, "rb") as f:
                self.content = f.read()
            os.truncate(self.path, min(k, len(self.content)))
            return
        if self.had:
            os.rename(self.path, side)
        if kind == "missing":
            return
        if kind == "dir":
            os.mkdir(self.path)
            return
        os.symlink({"full": "/dev/full", "loop": self.path, "eio": "/proc/self/mem", "dangling": side + ".none/x"}[kind], self.path)

    def lift(self):
        if self.lifted:
            return
        self.lifted = True
        if self.kind == "call":
            L.fault(-1, -1, 0)
        elif self.kind == "fsize":
            resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        elif self.kind == "nofile":
            resource.setrlimit(resource.RLIMIT_NOFILE, self.old)
        elif self.kind == "trunc":
            with open(self.path, "wb") as f:
                f.write(self.content)
        else:
            if os.path.islink(self.path):
                os.unlink(self.path)
            elif os.path.isdir(self.path):
                os.rmdir(self.path)
            if os.path.lexists(self.path):
                return  # something new took the place
            if self.had:
                os.rename(self.saved, self.path)
            elif self.kind in ("full", "eio") and self.data:
                open(self.path, "wb").close()  # the device took the creation of the file


def opening(c, ctx):
    """blocks laid out by another writer, opened and read while a call fails: an error or everything"""
    L.set_buffer_size(c["buf"] or L.DEFAULT_BUFFER)
    root = ctx.dir + "/r"
    dt, nm, fs = c["dt"], c["nm"], c["fs"]
    row = fmt.width(dt) * nm
    data = L.splitmix_bytes(3, sum(fs) * row)
    v1 = {b"o%d" % i: ("<u1", n, L.splitmix_bytes(i, n)) for i, n in enumerate(c["v1"])}
    v2 = {b"p%d" % i: ("<u1", n, L.splitmix_bytes(9 + i, n)) for i, n in enumerate(c["v2"])}
    f = L.File(root, create=True).must()
    fmt.write_block(root + "/b", dt, nm, fs, data, v2 or None, v1=v1)
    i = CALLS.index(c["call"][0])
    for k in range(c["call"][1], c["call"][1] + 12):
        L.fault(i, k, ERRNO[i][k % 3])
        b = L.Block()
        rt = b.open(f, "b")
        fired = L.fired()
        if rt != 0:
            L.fault(-1, -1, 0)
            need(fired, "open failed although no call failed: %s", L.errmsg())
            need(L.errmsg() != "<none>", "open failed without a message")
            ctx.nontrivial()
            ctx.tag("open-reported")
            L.free(b.h)
            continue
        what = "after an open in which call %d of %s failed" % (k, c["call"][0])
        need(b.geom()[0] == fs and b.dtype == dt and b.nmemb == nm, "%s the block is %s x%d %s", what, b.dtype, b.nmemb, b.geom())
        got = {a: (d, n, r) for a, d, n, r in b.attrs()}
        need(got == {**v1, **v2}, "%s the attributes are %s, stored are %s", what, sorted((a, x[1]) for a, x in got.items()), sorted((a, x[1]) for a, x in {**v1, **v2}.items()))
        p, buf = L.Ptr(), L.Buf(len(data)).fill(0xA5)
        ok(L.seek(b.h, p.h, 0), "seek")
        rt = b.read(p, L.Array(buf, dt, (sum(fs), nm)))
        need(rt == 0 or L.fired(), "read failed although no call failed: %s", L.errmsg())
        L.fault(-1, -1, 0)
        if rt == 0:
            need(buf.bytes() == data, "a read in which a call of %s failed succeeded with other rows", c["call"][0])
        else:
            ctx.nontrivial()
            ctx.tag("read-reported")
        b.close()
    f.close()


def run(case, ctx):
    if "rec" in case:
        from . import c10r
        try:
            return c10r.run(case, ctx, CALLS, ERRNO)
        finally:
            L.fault(-1, -1, 0)
    if "call" in case:
        try:
            return opening(case, ctx)
        finally:
            L.fault(-1, -1, 0)
    r = Run(case, ctx)
    try:
        r.go()
    finally:
        if r.fault:
            r.fault.lift()


class Run:
    def __init__(self, case, ctx):
        self.c, self.ctx = case, ctx
        self.dt, self.nm, self.fs = case["dt"], case["nm"], list(case["fs"])
        self.w = fmt.width(self.dt)
        self.row = self.w * self.nm
        self.root = ctx.dir + "/r"
        self.path = self.root + "/b"
        self.fault = None
        self.nfault = 0
        self.rows = {}        # what the block must hold
        self.risky = set()    # rows written under a fault of a data file and not flushed since
        self.attrs = {}
        self.meta = None      # (geometry, attributes) on disk; None: unknown since a flush failed
        self.open = False
        self.geom_known = True
        self.bad = 0

    # ---- faults
    def put_fault(self, kind, target, k):
        self.take_fault()
        if kind not in LIMITS:
            if isinstance(target, int):
                if not self.fs:
                    return
                target = target % len(self.fs)
                if kind == "trunc":
                    pass
            if kind in ("missing", "trunc", "dangling", "eio") and target == "attr-v2":
                return
            if target == "attr" and kind not in ("eio", "loop"):
                return
            if kind == "trunc" and (not isinstance(target, int) or not os.path.exists(fmt.datafile(self.path, target))):
                return
        self.nfault += 1
        self.ctx.tag(kind + "@" + ("data" if isinstance(target, int) else target) if kind not in LIMITS else kind if kind != "call" else "call-" + target)
        self.target = target
        self.fault = Fault(self.path, "%s/side%d" % (self.ctx.dir, self.nfault), kind, target, k)

    def take_fault(self):
        if self.fault:
            self.fault.lift()
            self.fault = None
            if self.meta is not None:
                self.verify()

    def active(self, *kinds):
        return self.fault is not None and (not kinds or self.fault.kind in kinds)

    def datafault(self):
        return self.fault is not None and (self.fault.kind in LIMITS or isinstance(self.target, int))

    def failed(self, what):
        """an operation reported an error"""
        need(self.active(), "%s failed without any fault: %s", what, L.errmsg())
        need(self.fault.kind != "call" or L.fired(), "%s failed although no call failed: %s", what, L.errmsg())
        need(L.errmsg() != "<none>", "%s failed without a message", what)
        self.bad += 1
        self.ctx.tag("reported:" + what)

    # ---- what is on disk
    def verify(self):
        geom, attrs = self.meta
        h = fmt.read_header(self.path)
        need(h["dt"] == self.dt and h["nm"] == self.nm and h["fs"] == geom, "after a successful flush the header is %s, expected %s", h, geom)
        need(fmt.read_attrs(self.path) == attrs, "after a successful flush the attributes are %r, expected %r", fmt.read_attrs(self.path), attrs)
        for i in range(len(geom)):
            need(os.path.isfile(fmt.datafile(self.path, i)), "file %06X is missing after a successful flush", i)
        self.verify_rows()

    def verify_rows(self):
        base = 0
        for i, n in enumerate(self.fs):
            mine = [r for r in range(base, base + n) if r in self.rows]
            if mine:
                with open(fmt.datafile(self.path, i), "rb") as f:
                    data = f.read()
                for r in mine:
                    o = (r - base) * self.row
                    need(data[o:o + self.row] == self.rows[r], "row %d, reported as written, is %s on disk, not %s", r, data[o:o + self.row].hex(), self.rows[r].hex())
            base += n

    def synced(self):
        self.meta = (list(self.fs), dict(self.attrs))
        self.risky.clear()
        if self.active("full") and self.target == "attr-v2" and not self.attrs:
            self.fault.had = False  # the device took the empty file
        if not self.fault:
            self.verify()

    def unsynced(self):
        self.meta = None
        for r in self.risky:
            self.rows.pop(r, None)
        self.risky.clear()

    # ---- operations
    def go(self):
        c = self.c
        L.set_buffer_size(c["buf"] or L.DEFAULT_BUFFER)
        self.f = f = L.File(self.root, create=True).must()
        b = self.b = L.Block()
        cf = c.get("cfault")
        if cf:
            if cf[0] == "parent":
                with open(self.root + "/p", "w"):
                    pass
                b0 = L.Block()
                need(b0.create(f, "p/b", self.dt, self.nm, self.fs) != 0, "creating a block below a plain file succeeded")
                L.free(b0.h)
                self.ctx.tag("create:parent")
                self.bad += 1
            else:
                if cf[0] != "call":
                    os.makedirs(self.path)
                self.put_fault(*cf)
                rt = b.create(f, "b", self.dt, self.nm, self.fs)
                if rt != 0:
                    self.failed("create")
                    self.take_fault()
                    L.free(b.h)
                    b = self.b = L.Block()
                    ok(b.create(f, "b", self.dt, self.nm, self.fs), "create after the fault")
                self.synced()
                self.take_fault()
        if not cf or cf[0] == "parent":
            ok(b.create(f, "b", self.dt, self.nm, self.fs), "create")
            self.synced()
        self.open = True
        for op in c["ops"]:
            if not self.open:
                break
            self.step(op)
        if self.open:
            if not c.get("keep"):
                self.take_fault()
            self.close("close")
        self.take_fault()
        if self.geom_known or self.meta is not None:
            self.verify_rows()
        # the files can be opened again unless a flush was refused last
        b = L.Block()
        rt = b.open(f, "b")
        if self.meta is not None:
            ok(rt, "open")
            need(b.geom()[0] == self.meta[0] and b.dtype == self.dt and b.nmemb == self.nm, "reopened geometry %s", b.geom())
            need({a: (d, n, r) for a, d, n, r in b.attrs()} == self.meta[1], "reopened attributes")
        if rt == 0:
            if self.meta is not None:
                self.b = b
                total = sum(self.fs)
                if total:
                    self.read(0, total)
            b.close()
        f.close()
        self.ctx.nontrivial(self.bad > 0)

    def close(self, what):
        rt = self.b.close()
        self.open = False
        if rt != 0:
            self.failed(what)
            self.unsynced()
            return False
        self.synced()
        return True

    def step(self, op):
        k = op[0]
        total = sum(self.fs)
        if k == "fault":
            self.put_fault(*op[1:])
        elif k == "lift":
            self.take_fault()
        elif k == "w":
            a = min(op[1], total)
            n = min(op[2], total - a)
            if n == 0 or self.active("trunc"):
                return
            data = L.splitmix_bytes(op[3], n * self.row)
            p, buf = L.Ptr(), L.Buf(data)
            ok(L.seek(self.b.h, p.h, a), "seek")
            rt = self.b.write(p, L.Array(buf, self.dt, (n, self.nm)))
            if rt != 0:
                self.failed("write")
                for i in range(n):
                    self.rows.pop(a + i, None)
                return
            for i in range(n):
                self.rows[a + i] = data[i * self.row:(i + 1) * self.row]
                if self.datafault():
                    self.risky.add(a + i)
            if self.meta is not None and self.fault and self.datafault():
                pass
        elif k == "r":
            a = min(op[1], total)
            n = min(op[2], total - a)
            if n and not self.active("full"):
                self.read(a, n)
        elif k == "attr":
            raw = L.splitmix_bytes(op[3], op[2])
            ok(self.b.set_attr(op[1], L.Buf(raw), "<u1", op[2]), "set_attr")
            self.attrs[op[1].encode()] = ("<u1", op[2], raw)
        elif k == "rm":
            if op[1].encode() in self.attrs:
                ok(L.remove_attr(self.b.h, op[1].encode()), "remove_attr")
                del self.attrs[op[1].encode()]
        elif k == "fl":
            if self.b.flush() != 0:
                self.failed("flush")
                self.unsynced()
            else:
                self.synced()
        elif k == "re":
            if not self.close("close"):
                return
            if self.active("full") and not isinstance(self.target, int):
                self.take_fault()
            b = L.Block()
            if b.open(self.f, "b") != 0:
                self.failed("open")
                L.free(b.h)
                self.take_fault()
                b = L.Block()
                ok(b.open(self.f, "b"), "open after the fault")
            self.b = b
            self.open = True
            need(b.geom()[0] == self.fs and b.dtype == self.dt and b.nmemb == self.nm, "an open that succeeded shows %s, expected %s", b.geom(), self.fs)
            got = {a: (d, n, r) for a, d, n, r in b.attrs()}
            need(got == self.attrs, "an open that succeeded shows the attributes %r, expected %r", got, self.attrs)
        elif k == "grow":
            if self.b.grow(op[1]) != 0:
                self.failed("grow")
                # the geometry may be either; the old rows stay
                self.b.close()
                self.open = False
                self.unsynced()
                self.take_fault()
                return
            self.fs += op[1]
            if self.meta is not None and not self.fault:
                pass
            self.meta = None

    def read(self, a, n):
        """a read that succeeds delivers what is stored; one that cannot is refused"""
        p, buf = L.Ptr(), L.Buf(n * self.row).fill(0xA5)
        ok(L.seek(self.b.h, p.h, a), "seek")
        present = None
        if not self.fault or self.fault.kind == "call":
            present = True
            base = 0
            for i, m in enumerate(self.fs):
                lo, hi = max(a, base), min(a + n, base + m)
                if lo < hi:
                    present = present and os.path.getsize(fmt.datafile(self.path, i)) >= (hi - base) * self.row
                base += m
        rt = self.b.read(p, L.Array(buf, self.dt, (n, self.nm)))
        if rt != 0:
            if present is False:
                self.ctx.tag("reported:short file")
                self.bad += 1
                return
            self.failed("read")
            return
        need(present is not False, "reading rows [%d,%d) succeeded although the files are too short", a, a + n)
        got = buf.bytes()
        for i in range(n):
            if a + i in self.rows:
                g = got[i * self.row:(i + 1) * self.row]
                need(g == self.rows[a + i], "a read that succeeded gave %s for row %d, expected %s", g.hex(), a + i, self.rows[a + i].hex())
