"""failing calls with names of any bytes and lengths: nonzero, a message about this failure, and a library that goes on working"""
import os, shutil
from .. import fmt, lib as L
from ..lib import need, ok

MARK = b"message of the application %s %n 100%"


def err():
    m = L.error()
    return b"" if m is None else m


class World:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.n = 0
        self.top = ctx.dir.encode()
        # the file itself may be deep and have a name of any bytes
        self.root = b"/".join([self.top] + [x.encode("latin1") for x in case["root"]])
        self.f = L.File(self.root, create=True)
        need(self.f.rt == 0, "big_file_create of %r fails: %s", self.root, L.errmsg())
        self.name = case["name"].encode("latin1")
        self.blocks = {}
        self.good(0)

    def path(self, name):
        return self.root + b"/" + name

    def failed(self, rt, what, *names):
        need(rt != 0, "%s returned 0", what)
        m = err()
        need(m and m != MARK and len(m.strip()) > 4, "%s failed, the message is %r", what, m)
        for x in names:
            need(x in m, "%s failed, the message %r does not name %r", what, m, x)
        need(all(c >= 32 or c in (9, 10) for c in m) or any(x and any(c < 32 for c in x) for x in names) or any(c < 32 for c in self.root + self.name), "the message of %s is not readable: %r", what, m)
        self.ctx.tag(what.split(" ")[0])
        self.ctx.nontrivial()

    def good(self, seed):
        """correct calls succeed"""
        f = self.f
        name = self.name + b"%d" % self.n
        self.n += 1
        b = L.Block()
        rt = b.create(f, name, "<i4", 2, [3, 2])
        need(rt == 0, "creating block %r fails: %s", name, L.errmsg())
        d = L.splitmix_bytes(seed, 40)
        b.put(0, d, "<i4", (5, 2))
        ok(b.set_attr("a" + str(seed), L.Buf(b"12345678"), "<f8", 1), "set_attr")
        ok(b.close(), "close")
        self.blocks[name] = d
        for n2, d2 in self.blocks.items():
            b = L.Block()
            rt = b.open(f, n2)
            need(rt == 0, "opening block %r fails: %s", n2, L.errmsg())
            need(b.get(0, 5, "<i4", 4) == d2, "rows of block %r", n2)
            ok(b.close(), "close")
        need(sorted(f.list()) == sorted(self.blocks), "the blocks are %s, listed are %s", sorted(self.blocks), sorted(f.list()))

    def opened(self, fs=(3, 2)):
        name = list(self.blocks)[0]
        b = L.Block()
        rt = b.open(self.f, name)
        need(rt == 0, "opening block %r fails: %s", name, L.errmsg())
        return name, b

    # each failing call
    def op_openfile(self, x):
        p = self.root + b"/" + x
        f = L.File(p)
        self.failed(f.rt, "big_file_open of %r" % p, p)
        L.free(f.h)

    def op_openfile_under(self, x):
        """a plain file where a directory should be"""
        with open(self.top + b"/plain", "wb"):
            pass
        p = self.top + b"/plain/" + x
        f = L.File(p)
        self.failed(f.rt, "big_file_open of %r" % p, p)
        L.free(f.h)
        f = L.File(p, create=True)
        self.failed(f.rt, "big_file_create of %r" % p, self.top + b"/plain")
        L.free(f.h)

    def op_createlong(self, x):
        y = (x * (300 // len(x) + 1))[:300]
        p = self.root + b"/" + y
        f = L.File(p, create=True)
        self.failed(f.rt, "big_file_create of %r" % p, p)
        L.free(f.h)
        b = L.Block()
        self.failed(b.create(self.f, y, "<i4", 1, [2]), "big_file_create_block of %r" % y, self.path(y))
        L.free(b.h)

    def op_openlong(self, x):
        """longer than any path the system takes"""
        x = (x * 200)[:200]
        y = b"/".join([x] * 30)
        p = self.root + b"/" + y
        f = L.File(p)
        self.failed(f.rt, "big_file_open of a long path", p)
        L.free(f.h)
        b = L.Block()
        self.failed(b.open(self.f, y), "big_file_open_block of a long name", self.path(y))
        L.free(b.h)
        b = L.Block()
        # directories that do fit may be created
        rt = b.create(self.f, y, "<i4", 1, [2])
        self.failed(rt, "big_file_create_block of a long name")
        L.free(b.h)
        for n in os.listdir(self.root):
            if n not in self.blocks:
                p2 = self.root + b"/" + n
                shutil.rmtree(p2, ignore_errors=True)

    def op_openblock(self, x):
        b = L.Block()
        self.failed(b.open(self.f, x), "big_file_open_block of %r" % x, self.path(x))
        L.free(b.h)

    def op_blank(self, x):
        for c in (b" ", b"\t", b"\n"):
            y = x[:1] + c + x[1:]
            b = L.Block()
            self.failed(b.create(self.f, y, "<i4", 1, [2]), "big_file_create_block of %r" % y)
            L.free(b.h)
        for n in os.listdir(self.root):
            if n not in self.blocks:
                shutil.rmtree(self.root + b"/" + n, ignore_errors=True)

    def op_badtype(self, x):
        b = L.Block()
        t = b"<" + x.replace(b"0", b"")[:200]
        if t[1:2] in b"SbifucV":
            t = b"<x" + t[2:]
        rt = L.block_create(self.f.h, b.h, b"badtype", t, 1, 1, L.sizes([2]))
        self.failed(rt, "big_file_create_block of type %r" % t, self.path(b"badtype"), t)
        L.free(b.h)
        shutil.rmtree(self.path(b"badtype"), ignore_errors=True)

    def op_inway(self, x):
        """a plain file where the block should be"""
        with open(self.path(x), "wb"):
            pass
        b = L.Block()
        self.failed(b.create(self.f, x + b"/y", "<i4", 1, [2]), "big_file_create_block in a plain file", self.path(x))
        L.free(b.h)
        os.unlink(self.path(x))

    def op_header(self, x):
        """a header of anything"""
        os.mkdir(self.path(b"bad" + x[:100]))
        p = self.path(b"bad" + x[:100])
        with open(p + b"/header", "wb") as fp:
            fp.write(x)
        b = L.Block()
        self.failed(b.open(self.f, b"bad" + x[:100]), "big_file_open_block of a malformed header", p)
        L.free(b.h)
        shutil.rmtree(p)

    def op_getattr(self, x):
        name, b = self.opened()
        self.failed(b.get_attr(x, L.Buf(8), "<f8", 1), "big_block_get_attr of %r" % x)
        self.failed(L.remove_attr(b.h, x), "big_block_remove_attr of %r" % x, x)
        need(L.lookup_attr(b.h, x) is None, "attribute %r exists", x)
        self.failed(b.get_attr("a0", L.Buf(16), "<f8", 2), "big_block_get_attr with 2 members")
        self.failed(b.set_attr("a0", L.Buf(16), "<f8", 2) if False else b.get_attr("a0", L.Buf(16), "<c8", 1), "big_block_get_attr as <c8", b"f8", b"c8")
        self.failed(b.set_attr(x[:1] + b" " + x[1:], L.Buf(8), "<f8", 1), "big_block_set_attr with a blank")
        # names of any bytes work
        y = x.replace(b"\r", b"_")
        ok(b.set_attr(y, L.Buf(b"abcdefgh"), "<i8", 1), "set_attr of %r" % y)
        ok(b.flush(), "flush")
        b.close()
        name, b = self.opened()
        out = L.Buf(8)
        rt = b.get_attr(y, out, "<i8", 1)
        need(rt == 0, "attribute %r is gone: %s", y, L.errmsg())
        need(out.bytes() == b"abcdefgh", "attribute %r reads %r", y, out.bytes())
        ok(L.remove_attr(b.h, y), "remove_attr")
        b.close()

    def op_beyond(self, x):
        name, b = self.opened()
        p = L.Ptr()
        self.failed(L.seek(b.h, p.h, 6), "big_block_seek beyond the end")
        self.failed(L.seek(b.h, p.h, -6), "big_block_seek before the start")
        ok(L.seek(b.h, p.h, 3), "seek")
        buf = L.Buf(3 * 8)
        self.failed(b.read(p, L.Array(buf, "<i4", (3, 2))), "big_block_read beyond the end", self.path(name))
        self.failed(b.write(p, L.Array(buf, "<i4", (3, 2))), "big_block_write beyond the end", self.path(name))
        ok(L.seek(b.h, p.h, 0), "seek")
        self.failed(b.read(p, L.Array(buf, "<c8", (1, 2))), "big_block_read as <c8", b"i4", b"c8")
        self.failed(b.write(p, L.Array(buf, "<S3", (1, 2))), "big_block_write as <S3", b"i4", b"S3")
        a = L.Array()
        self.failed(L.read_simple(b.h, 7, 1, a.h, None), "big_block_read_simple beyond the end")
        b.close()

    def op_physical(self, x):
        """a missing and a short physical file"""
        name, b = self.opened()
        p = self.path(name)
        os.rename(p + b"/000001", p + b"/saved")
        ptr, buf = L.Ptr(), L.Buf(5 * 8)
        arr = lambda n: L.Array(buf, "<i4", (n, 2))
        ok(L.seek(b.h, ptr.h, 3), "seek")
        self.failed(b.read(ptr, arr(2)), "big_block_read of a missing file", p + b"/000001")
        with open(p + b"/000001", "wb") as fp:
            fp.write(b"1234")
        ok(L.seek(b.h, ptr.h, 3), "seek")
        self.failed(b.read(ptr, arr(2)), "big_block_read of a short file", p)
        os.unlink(p + b"/000001")
        os.mkdir(p + b"/000001")
        ok(L.seek(b.h, ptr.h, 3), "seek")
        self.failed(b.write(ptr, arr(2)), "big_block_write to a directory", p + b"/000001")
        os.rmdir(p + b"/000001")
        os.rename(p + b"/saved", p + b"/000001")
        b.close()

    def op_flush(self, x):
        name, b = self.opened()
        p = self.path(name)
        for n in (b"attr-v2",):
            os.rename(p + b"/" + n, p + b"/saved")
            os.mkdir(p + b"/" + n)
            ok(b.set_attr("zz", L.Buf(8), "<i8", 1), "set_attr")
            self.failed(b.flush(), "big_block_flush to an unwritable file", p + b"/" + n)
            os.rmdir(p + b"/" + n)
            os.rename(p + b"/saved", p + b"/" + n)
        ok(L.remove_attr(b.h, b"zz"), "remove_attr")
        ok(b.close(), "close")

    def op_set(self, x):
        """messages of the application"""
        L.set_error(x)
        need(err() == x, "the message of the application %r reads %r", x[:500], err()[:500])
        L.set_error(None)
        need(L.error() is None, "the message was cleared, it is %r", L.error())


def run(case, ctx):
    L.set_error(None)
    w = World(case, ctx)
    for k, x in case["ops"]:
        L.set_error(MARK)
        getattr(w, "op_" + k)(x.encode("latin1"))
        if case["each"]:
            w.good(w.n)
    w.good(99)
    w.f.close()
    L.set_error(None)
