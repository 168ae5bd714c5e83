"""pickled files and columns"""
import atexit, copy, os, pickle, struct, subprocess, sys
import numpy as np
import bigfile
from .. import fmt
from .pylib import *
from .c18 import make, equal

HELPER = r"""
import sys, struct, pickle, warnings
warnings.simplefilter("ignore")
import numpy as np
import bigfile
i, o = sys.stdin.buffer, sys.stdout.buffer
def enc(a):
    return (a.dtype.str, a.shape, a.tobytes()) if isinstance(a, np.ndarray) else a
def state(c):
    try:
        dt = c.dtype
    except Exception:
        dt = None
    return (c.size, dt, c.Nfile, {k: enc(c.attrs[k]) for k in c.attrs}, enc(c[:]) if c.Nfile or c.size else None, repr(c), type(c).__name__)
while True:
    h = i.read(8)
    if len(h) < 8:
        break
    req = pickle.loads(i.read(struct.unpack("<q", h)[0]))
    try:
        x = pickle.loads(req[1])
        if req[0] == "column":
            r = state(x)
            if req[2] is not None:
                what, a, b = req[2]
                if what == "write":
                    x.write(a, b)
                elif what == "attr":
                    x.attrs[a] = np.frombuffer(b[2], b[1]).reshape(b[3]) if isinstance(b, tuple) and b[:1] == ("nd",) else b
                x.flush()
            if req[3]:
                y = pickle.loads(pickle.dumps(x, req[3]))
                r = r + (state(y),)
                del y
            del x
        else:
            r = (x.basename, x.blocks, x.list_blocks(), {n: state(x[n]) for n in x.blocks}, type(x).__name__)
            del x
        r = ("ok", r)
    except Exception as e:
        r = ("error", repr(e))
    r = pickle.dumps(r, 5)
    o.write(struct.pack("<q", len(r)) + r)
    o.flush()
"""
proc = None


def remote(*req):
    global proc
    if proc is None:
        proc = subprocess.Popen([sys.executable, "-c", HELPER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd="/")
        atexit.register(proc.kill)
    b = pickle.dumps(req, 5)
    proc.stdin.write(struct.pack("<q", len(b)) + b)
    proc.stdin.flush()
    h = proc.stdout.read(8)
    if len(h) < 8:
        proc = None
        raise Fail("the other process died while using the copy")
    r = pickle.loads(proc.stdout.read(struct.unpack("<q", h)[0]))
    if r[0] == "error":
        raise Fail("in the other process the copy raised " + r[1])
    return r[1]


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for x in fs:
            with open(d + "/" + x, "rb") as f:
                out[d[len(root):] + "/" + x] = f.read()
    return out


class Block:
    """what is on disk"""

    def __init__(self, name, m, nfile):
        self.name, self.m, self.nfile = name, m, nfile
        self.disk = {}
        # while the rows were each written at most once, and only by handles that had seen all earlier writes, the checksums are those of the data
        self.once = True
        self.version = 0
        self.written = np.zeros(len(m), bool) if m is not None else None

    def wrote(self, h, st, cnt):
        if self.written[st:st + cnt].any() or h.version != self.version:
            self.once = False
        self.written[st:st + cnt] = True
        self.version += 1


class Handle:
    def __init__(self, block, col, nfile, size, attrs):
        self.b, self.col, self.nfile, self.size, self.attrs = block, col, nfile, size, dict(attrs)
        self.adirty = False
        self.version = col and getattr(block, "version", 0)

    def current(self):
        return self.b.m is None or self.size == len(self.b.m) and self.nfile == self.b.nfile

    def flush(self):
        self.col.flush()
        self.done()

    def done(self):
        if self.adirty:
            self.b.disk = dict(self.attrs)
            self.adirty = False


def run(case, ctx):
    root = ctx.dir + "/r"
    bigfile.set_buffer_size(DEFAULT)
    f = bigfile.File(root, create=True)
    blocks, handles, stored = [], [], []
    for name, dt, nm, n, nfile, first, late in case["blocks"]:
        if dt is None:
            blocks.append(Block(name, None, 0))
            c = f.create(name)
        else:
            m = data(len(name), n * nm, dt).reshape((n, nm) if nm != 1 else (n,))
            c = f.create(name, (dt, (nm,)) if nm != 1 else dt, n, nfile)
            # the rows are written by the original, and the last ones by a copy
            s = n - n // first
            if s:
                c.write(0, m[:s])
            if s < n:
                if not late:
                    c.flush()
                    c2 = pickle.loads(pickle.dumps(c))
                else:
                    # what the original has not flushed yet is known to the copy
                    c2 = pickle.loads(pickle.dumps(c))
                    c.flush()
                c2.write(s, m[s:])
                c2.flush()
                c, c2 = c2, None
            blocks.append(Block(name, m, nfile))
            blocks[-1].written[:] = True
        handles.append(Handle(blocks[-1], c, nfile, n, {}))

    def dec(a):
        return np.frombuffer(a[2], a[0]).reshape(a[1]) if isinstance(a, tuple) else a

    def verify(st, snap, what):
        # arrays come from the other process in parts: numpy may change the byte order of pickled ones
        size, dtype, nfile, attrs, rows, rep, typ = st
        attrs = {k: dec(v) for k, v in attrs.items()}
        rows = dec(rows)
        b = snap.b
        need(typ == "Column", "%s: the copy is a %s", what, typ)
        need(b.name in rep, "%s: the copy is called %s", what, rep)
        need(nfile == snap.nfile and size == snap.size, "%s: the copy has %d rows in %d files, the original %d in %d", what, size, nfile, snap.size, snap.nfile)
        need(sorted(attrs) == sorted(snap.attrs) and all(equal(attrs[k], v) for k, v in snap.attrs.items()), "%s: the copy has the attributes %r, the original %r", what, attrs, snap.attrs)
        if b.m is not None:
            need(dtype == np.dtype((b.m.dtype, b.m.shape[1:])), "%s: the copy has type %s", what, dtype)
            if rows is not None:
                need(same(rows, b.m[:size]), "%s: the copy reads other rows", what)

    def state(c):
        try:
            dt = c.dtype
        except Exception:
            dt = None
        return (c.size, dt, c.Nfile, {k: c.attrs[k] for k in c.attrs}, c[:] if c.Nfile or c.size else None, repr(c), type(c).__name__)

    def snapshot(h):
        s = Handle(h.b, None, h.nfile, h.size, h.attrs)
        s.version = h.version
        return s

    k = 0
    for o in case["ops"]:
        k += 1
        what = "operation %d (%s)" % (k, str(o)[:300])
        op = o[0]
        h = handles[o[1] % len(handles)]
        b = h.b
        if op == "copy":
            # the files and the original are unchanged by copying and dropping the copy
            how = o[2]
            before, was = tree(root), state(h.col)
            if how == "copy":
                c = copy.copy(h.col)
            elif how == "deepcopy":
                c = copy.deepcopy(h.col)
            else:
                c = pickle.loads(pickle.dumps(h.col, how))
            verify(state(c), h, what)
            need(tree(root) == before, "%s: pickling changed the files", what)
            verify(state(h.col), h, what + ", the original")
            if o[3]:
                handles.append(Handle(b, c, h.nfile, h.size, h.attrs))
                handles[-1].version = h.version
                ctx.tag("kept")
                if len(handles) > 12:
                    handles.pop(0)
                    c = h = None
                    continue
            else:
                if o[4]:
                    c.close()
                c = None
                need(tree(root) == before, "%s: dropping the copy changed the files", what)
                verify(state(h.col), h, what + ", the original")
            ctx.nontrivial()
            c = None
        elif op == "dump":
            before = tree(root)
            stored.append((pickle.dumps(h.col, o[2]), snapshot(h)))
            need(tree(root) == before, "%s: pickling changed the files", what)
        elif op == "load" and stored:
            p, s = stored[o[2] % len(stored)]
            before = tree(root)
            if o[3]:
                c = pickle.loads(p)
                verify(state(c), s, what)
                if o[4]:
                    handles.append(Handle(s.b, c, s.nfile, s.size, s.attrs))
                    handles[-1].version = s.version
                c = None
            else:
                r = remote("column", p, None, o[4] and 2)
                verify(r[:7], s, what + " in another process")
                if o[4]:
                    verify(r[7], s, what + " in another process, copy of the copy")
                ctx.tag("process")
            need(tree(root) == before, "%s: unpickling changed the files", what)
            ctx.nontrivial()
        elif op == "write" and b.m is not None and h.current():
            _, _, st, cnt, seed, other = o
            n = len(b.m)
            st %= n + 1
            cnt = min(cnt, n - st)
            for x in handles:
                x.flush()
            b.wrote(h, st, cnt)
            v = data(seed, cnt * int(np.prod(b.m.shape[1:])), b.m.dtype).reshape((cnt,) + b.m.shape[1:])
            if other % 3 == 0:
                # through a copy in another process
                r = remote("column", pickle.dumps(h.col), ("write", st, v), 0)
                verify(r, h, what + " in another process")
            else:
                if other % 3 == 1:
                    # through a copy here
                    c = pickle.loads(pickle.dumps(h.col))
                    c.write(st, v)
                    c = None
                else:
                    h.col.write(st, v)
                    h.version = b.version
            b.m[st:st + cnt] = v
            ctx.tag("write")
        elif op == "attr":
            _, _, name, val, other = o
            v, want = make(val)
            if want is None and not h.adirty:
                # refused, but what is unchanged may be written all the same
                continue
            if want is None:
                # a type the format has no room for is refused
                raises(lambda: h.col.attrs.__setitem__(name, v), what)
                ctx.tag("refused")
            elif other:
                r = remote("column", pickle.dumps(h.col), ("attr", name, ("nd", v.dtype.str, v.tobytes(), v.shape) if isinstance(v, np.ndarray) else v), 0)
                verify(r, h, what + " in another process")
                b.disk = dict(h.attrs)
                b.disk[name] = want
            else:
                h.col.attrs[name] = v
                h.attrs[name] = want
                h.adirty = True
        elif op == "delattr":
            if o[2] in h.attrs:
                del h.col.attrs[o[2]]
                del h.attrs[o[2]]
                h.adirty = True
        elif op == "append" and b.m is not None and h.current():
            for x in handles:
                x.flush()
            _, _, cnt, nfile, seed = o
            v = data(seed, cnt * int(np.prod(b.m.shape[1:])), b.m.dtype).reshape((cnt,) + b.m.shape[1:])
            nfile = max(nfile, 1 if cnt else 0)
            if h.version != b.version:
                b.once = False
            b.version += 1
            h.version = b.version
            h.col.append(v, nfile)
            h.done()
            b.written = np.append(b.written, np.ones(cnt, bool))
            b.m = np.concatenate([b.m, v]).astype(b.m.dtype)
            b.nfile += nfile
            h.size, h.nfile = len(b.m), b.nfile
            h.col.flush()
            ctx.tag("append")
        elif op == "flush":
            h.flush()
        elif op == "open":
            for x in handles:
                x.flush()
            handles.append(Handle(b, f.open(b.name), b.nfile, len(b.m) if b.m is not None else 0, b.disk))
        elif op == "file":
            for x in handles:
                x.flush()
            g = {0: f, 1: bigfile.File(root), 2: pickle.loads(pickle.dumps(f, o[2])), 3: f.subfile("g") if any(x.name.startswith("g/") for x in blocks) else f}[o[3]]
            if o[4]:
                g.blocks
            pre = "g/" if o[3] == 3 and g is not f else ""
            before = tree(root)
            want = sorted(x.name[len(pre):] for x in blocks if x.name.startswith(pre))
            p = pickle.dumps(g, o[2])
            if o[5]:
                c = pickle.loads(p)
                need(type(c) is bigfile.File, "%s: the copy is a %s", what, type(c))
                need(c.basename == g.basename and c.blocks == want and c.list_blocks() == want and list(c) == want and c.keys() == want and g.blocks == want, "%s: the copy of %s is %s and lists %s", what, g.basename, c.basename, c.blocks)
                st = {x: state(c[x]) for x in want}
                need(pre or all(x.name in c for x in blocks), "%s: membership", what)
            else:
                base, l1, l2, st, typ = remote("file", p)
                need(typ == "File" and base == g.basename and l1 == want and l2 == want, "%s: the copy of %s is %s and lists %s %s in another process", what, g.basename, base, l1, l2)
            for x in blocks:
                if x.name.startswith(pre):
                    s = st[x.name[len(pre):]]
                    verify(s, Handle(x, None, x.nfile, len(x.m) if x.m is not None else 0, x.disk), what + ", block " + x.name)
            c = st = None
            need(tree(root) == before, "%s: changed the files", what)
            ctx.tag("file")
            ctx.nontrivial()
        elif op == "drop" and len(handles) > len(blocks) + 1 and sum(x.b is b for x in handles) > 1:
            x = None
            handles.remove(h)
            h.done()
            h = None
        h = None
        for x in handles:
            verify(state(x.col), x, what + ", handle of " + x.b.name)
    # handles that are out of date hold nothing to write: they were flushed before the growth
    for x in handles:
        x.flush()
    handles = []
    x = h = c = None
    for b in blocks:
        if b.m is not None:
            d = on_disk(root, b.name, b.m, "at the end")
            if b.once:
                pos = 0
                for i, s in enumerate(d["fs"]):
                    w = s * d["nm"] * fmt.width(d["dt"])
                    need(d["ck"][i] == sum(d["data"][pos:pos + w]) % 2**32, "at the end: block %s, file %d: checksum %d of other data", b.name, i, d["ck"][i])
                    pos += w
                ctx.tag("checksum")
            need(len(d["fs"]) == b.nfile, "at the end: block %s has %d files, not %d", b.name, len(d["fs"]), b.nfile)
        c = bigfile.File(root).open(b.name)
        verify(state(c), Handle(b, None, b.nfile, len(b.m) if b.m is not None else 0, b.disk), "reopened at the end")
