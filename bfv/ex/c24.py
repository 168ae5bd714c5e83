"""the Python binding under MPI against the serial binding and the files"""
import os, shutil
import numpy as np
import bigfile
from bigfile import File, FileMPI, ColumnMPI, Dataset
from .. import fmt, mlib as M
from .pylib import data, layout, same, canon, DEFAULT
from .pylib import need
from .c17 import full, shape


def everyone_raises(comm, what, fn):
    """fn is called by all ranks and must raise on all of them"""
    try:
        r = "returned %r" % (fn(),)
    except Exception as e:
        r = None
    rs = comm.allgather(r)
    bad = ["rank %d %s" % (i, x[:100]) for i, x in enumerate(rs) if x]
    need(not bad, "%s did not raise on every rank: %s", what, "; ".join(bad))


def view(c):
    return {"size": c.size, "type": c.dtype.str if c.dtype.shape == () else [c.dtype.base.str, c.dtype.shape], "files": c.Nfile,
            "attrs": {k: (np.asarray(c.attrs[k]).dtype.str, np.asarray(c.attrs[k]).tolist()) for k in sorted(c.attrs)}}


def on_disk(path, what):
    try:
        return fmt.read_block(path, strict=False)
    except (fmt.Bad, OSError) as e:
        need(False, "%s: block %s: %s", what, path, e)


class Blk:
    def __init__(self, m, nfile, root):
        self.m, self.nfile, self.root, self.attrs = m, nfile, root, {}
        self.done = None    # rows written so far per rank: None when complete


def run(case, ctx):
    comm = M.sub(case["np"])
    if comm is None:
        return
    me, np_ = comm.rank, comm.size
    root, sroot = ctx.dir + "/r", ctx.dir + "/s"
    bigfile.set_buffer_size(case["buf"] or DEFAULT)
    f = M.together(comm, "create file", lambda: FileMPI(comm, root, create=True))
    sf = File(sroot, create=True) if me == 0 else None
    blocks = {}
    if np_ > 1:
        ctx.tag("ranks")

    def listed(what):
        want = sorted(blocks)

        def check():
            need(sorted(f.blocks) == want and sorted(f.keys()) == want and sorted(f) == want, "blocks are %s, should be %s", sorted(f.blocks), want)
            need(all(b in f for b in want) and "no" not in f, "membership differs from the list")
            need(sorted(File(root).blocks) == want, "the serial binding lists %s, should be %s", File(root).blocks, want)
        M.together(comm, what + ": list", check)

    def agree(c, b, what):
        v = comm.allgather(view(c))

        def check():
            m = b.m
            t = m.dtype.str if m.ndim == 1 else [m.dtype.str, (m.shape[1],)]
            want = {"size": len(m), "type": t, "files": b.nfile, "attrs": {k: (np.asarray(x).dtype.str, np.asarray(x).tolist()) for k, x in b.attrs.items()}}
            for i, x in enumerate(v):
                need(x == want, "rank %d of %d sees %s, expected %s", i, np_, x, want)
        M.together(comm, what + ": view", check)

    def disk(name, what, also=None):
        """the block on disk against the model, its own bytes, and the block that the serial binding wrote"""
        def check():
            if me:
                return
            b = blocks[name]
            d = on_disk(root + "/" + name, what)
            m = b.m
            need((np.dtype(d["dt"]), d["nm"], sum(d["fs"]), len(d["fs"])) == (m.dtype, m.shape[1] if m.ndim > 1 else 1, len(m), b.nfile), "block %s is %s x %d, rows %s", name, d["dt"], d["nm"], d["fs"])
            need(d["ck"] == [sum(x) & 0xffffffff for x in d["raw"]], "checksums of block %s are %s, of its bytes %s", name, d["ck"], [sum(x) & 0xffffffff for x in d["raw"]])
            if b.done is None:
                need(canon(np.frombuffer(d["data"], m.dtype)) == canon(m.ravel()), "block %s holds other rows", name)
                if also is not None:
                    also()
                    e = on_disk(sroot + "/" + name, what)
                    for k in ("dt", "nm", "fs", "ck", "data", "attrs"):
                        need(d[k] == e[k], "%s of block %s is %s, the serial binding wrote %s", k, name, d[k], e[k])
        comm.barrier()
        M.together(comm, what, check)

    def serial(name):
        def make():
            b = blocks[name]
            with sf.create(name, np.dtype(full(b.m.dtype, b.m.shape[1] if b.m.ndim > 1 else 1)), len(b.m), b.nfile) as c:
                if len(b.m):
                    c.write(0, b.m)
                for k, v in b.attrs.items():
                    c.attrs[k] = v
        return make

    def attr(seed):
        k = ["u", "name", "x y".replace(" ", "_"), "empty"][seed % 4]
        return k, [np.array([seed % 100], "i4"), np.array([1.5, seed % 7, -2], ">f8"), "text %d" % seed, np.array(["ab", "c"]), np.zeros(0, "f4"), np.arange(seed % 50, dtype="u8")][seed // 4 % 6]

    def put(c, m, lo, hi, how, style):
        """write rows lo..hi of m"""
        if hi > lo or style % 2:
            v = layout(m[lo:hi], how)
            if style < 2 or hi == lo:
                c.write(lo, v)
            else:
                c[lo:hi] = v

    nth = 0
    for o in case["ops"]:
        op, nth = o[0], nth + 1
        what = "%d ranks, operation %d (%s)" % (np_, nth, o)
        old = sorted(blocks)
        if op in ("create", "fromarray"):
            name = o[1]
            if any(k.startswith(name + "/") or name.startswith(k + "/") for k in blocks):
                continue
            if os.path.exists(os.path.join(root, name)) and name not in blocks:
                continue
        if op == "create":
            _, name, dt, nm, n, nfile, seed, how, split, parts, close, attrs, style = o
            if name in blocks and blocks[name].nfile > nfile:
                # data files beyond the new ones stay; nothing refers to them
                pass
            m = data(seed, n * nm, dt).reshape(shape(n, nm))
            b = Blk(m, nfile, root)
            c = M.together(comm, what, lambda: f.create(name, full(dt, nm) if nm > 1 else dt, n, nfile))
            blocks[name] = b
            agree(c, b, what + " created")
            listed(what)
            ps = M.pieces(n, np_, split)
            lo = sum(ps[:me])
            hi = lo + ps[me]
            if sum(1 for p in ps if p) > 1:
                ctx.nontrivial()
            if 0 in ps:
                ctx.tag("empty-rank")
            at = lo
            for j in range(parts):
                to = hi if j == parts - 1 else lo + (hi - lo) * (j + 1) // parts
                M.together(comm, what + " write", lambda: put(c, m, at, to, how, style))
                at = to
                if j < parts - 1:
                    b.done = True
                    if style & 1:
                        M.together(comm, what + " flush", c.flush)
                    else:
                        M.together(comm, what + " close", c.close)
                        del c
                        c = M.together(comm, what + " open", lambda: f.open(name))
                        ctx.tag("sessions")
                        if j:
                            # nothing to write
                            M.together(comm, what + " flush", c.flush)
                    agree(c, b, what + " flushed")
                    disk(name, what + " flushed")
                    ctx.tag("flushes")
            b.done = None
            for s in attrs:
                k, v = attr(s)
                if s % 3 or me == 0:
                    # on all ranks, or only on the root
                    c.attrs[k] = v
                b.attrs[k] = v
                ctx.tag("attrs")
            if close == "close":
                M.together(comm, what, c.close)
            elif close == "with":
                def w():
                    with c:
                        pass
                M.together(comm, what, w)
            elif close == "twice":
                M.together(comm, what, c.flush)
                agree(c, b, what + " flushed")
                disk(name, what + " flushed")
                M.together(comm, what, c.close)
            else:
                M.together(comm, what, c.flush)
                agree(c, b, what + " flushed")
            disk(name, what + " closed", serial(name))
            del c
            disk(name, what + " dropped")
        elif op == "fromarray":
            _, name, dt, nm, n, nfile, seed, how, split, lim, d2 = o
            m = data(seed, n * nm, dt).reshape(shape(n, nm) if not d2 else (n, nm))
            ps = M.pieces(n, np_, split)
            lo = sum(ps[:me])
            row = m.dtype.itemsize * nm
            kw = {} if lim == "default" else {"memorylimit": {"row": row, "k": row * 3, "tiny": 1, "1023": row * 1023, "1025": row * 1025}[lim]}
            mine = layout(m[lo:lo + ps[me]], how)
            keep = mine.tobytes()
            c = M.together(comm, what, lambda: f.create_from_array(name, mine, Nfile=nfile, **kw))
            need(mine.tobytes() == keep, "%s changed its argument", what)
            b = Blk(m.reshape(shape(n, nm)), c.Nfile if nfile is None else nfile, root)
            blocks[name] = b
            listed(what)
            agree(c, b, what)
            disk(name, what, lambda: sf.create_from_array(name, m, Nfile=nfile, **kw).close())
            if nfile is None:
                need((c.Nfile > 0) == (n > 0), "%s made %d files", what, c.Nfile)
            M.together(comm, what, lambda: need(same(c[:], b.m), "%s: rank %d reads other rows", what, me))
            M.together(comm, what, c.close)
            disk(name, what + " closed")
            if sum(1 for p in ps if p) > 1:
                ctx.nontrivial()
            ctx.tag("fromarray")
        elif op == "open" and old:
            _, which, start, cnt, how, close, attrs = o
            name = old[which % len(old)]
            b = blocks[name]
            c = M.together(comm, what, lambda: [f.open, f.__getitem__][how % 2](name))
            agree(c, b, what)

            def check():
                m = b.m
                a = (start + 3 * me) % (len(m) + 1)
                need(same(c[a:a + cnt], m[a:a + cnt]), "rank %d: rows %d to %d differ", me, a, a + cnt)
                need(same(c[:], m) and same(c.read(a, -1), m[a:]), "rank %d: rows differ", me)
                if len(m):
                    need(same(np.asarray(c[a - len(m) - 1 if a else -1]), np.asarray(m[a - len(m) - 1 if a else -1])), "rank %d: a row differs", me)
            M.together(comm, what, check)
            for s in attrs:
                k, v = attr(s)
                if s % 3 or me == 0:
                    c.attrs[k] = v
                b.attrs[k] = v
            if close or attrs:
                M.together(comm, what, c.close if close else c.flush)
                agree(c, b, what + " closed")
            disk(name, what)
            if b.nfile:
                ctx.tag("open")
        elif op == "refuse":
            _, why, x = o
            g = lambda r, *a: os.path.join(ctx.dir, r)
            bad = x % np_
            if why == "openmissing":
                everyone_raises(comm, what, lambda: f["none"] if x % 2 else f.open("g/none"))
            elif why == "names" and np_ > 1:
                everyone_raises(comm, what, lambda: f.open("n%d" % (me == bad)))
            elif why == "existing" and np_ > 1 and old:
                # all but one ask for a block that is there
                everyone_raises(comm, what, lambda: f.open(old[0] if me != bad else "none"))
            elif why == "createnames" and np_ > 1:
                everyone_raises(comm, what, lambda: f.create("n%d" % (me == bad), "f8", 4, 1))
                comm.barrier()
                M.together(comm, what, lambda: need(not os.path.exists(root + "/n0") and not os.path.exists(root + "/n1"), "made a block all the same"))
            elif why == "filenames" and np_ > 1:
                everyone_raises(comm, what, lambda: FileMPI(comm, g("r" if me != bad else "q" if x & 2 else "s"), create=bool(x & 1)))
                comm.barrier()
                need(not os.path.exists(g("q")), "%s made a file all the same", what)
            elif why == "file":
                everyone_raises(comm, what, lambda: FileMPI(comm, g("none")))
            elif why == "fileplain":
                if me == 0:
                    open(g("plain"), "w").close()
                comm.barrier()
                everyone_raises(comm, what, lambda: FileMPI(comm, g("plain/x"), create=True))
            elif why == "subfile":
                everyone_raises(comm, what, lambda: f["nogroup/"])
            elif why == "files":
                everyone_raises(comm, what, lambda: f.create("zero", "f8", 3, 0 if x % 2 else -1))
            elif why == "type":
                everyone_raises(comm, what, lambda: f.create("type", [("a", "i4"), ("b", "f8")] if x % 2 else "M8[s]" if x % 3 else "nonsense", 3, 1))
            elif why == "blank":
                everyone_raises(comm, what, lambda: f.create("a b", "f8", 3, 1))
            elif why == "inblock" and old:
                # a plain file is in the way
                if me == 0:
                    open(root + "/stop", "w").close()
                comm.barrier()
                everyone_raises(comm, what, lambda: f.create("stop/b", "f8", 3, 1))
                everyone_raises(comm, what, lambda: f.create_from_array("stop/c", np.zeros(2)))
            elif why == "onerank" and old and np_ > 1:
                # a file in which the block is missing, on one rank
                other = M.together(comm, what, lambda: FileMPI(comm, g("o"), create=True))
                c = ColumnMPI(comm)
                everyone_raises(comm, what, lambda: c.open(other if me == bad else f, old[0]))
            elif why == "fileonerank" and np_ > 1:
                # one rank cannot see the file
                cwd = os.getcwd()
                if me == 0:
                    os.makedirs(g("else"), exist_ok=True)
                comm.barrier()
                try:
                    os.chdir(g("else") if me == bad else ctx.dir)
                    everyone_raises(comm, what, lambda: FileMPI(comm, "r"))
                finally:
                    os.chdir(cwd)
            elif why == "badname":
                # a block whose name is not text
                p = os.fsencode(root) + b"/\xff\xfe"
                if me == 0:
                    os.makedirs(p)
                    with open(p + b"/header", "w") as h:
                        h.write("DTYPE: <i4\nNMEMB: 1\nNFILE: 0\n")
                comm.barrier()
                everyone_raises(comm, what, f.refresh if x % 2 else lambda: FileMPI(comm, root))
                if me == 0:
                    shutil.rmtree(p)
                comm.barrier()
            elif why == "damaged" and old:
                name = old[x % len(old)]
                p = root + "/" + name + "/header"
                if me == 0:
                    os.rename(p, ctx.dir + "/keep")
                    with open(p, "w") as h:
                        h.write("DTYPE: <q4\nNMEMB: 1\nNFILE: 1\n")
                comm.barrier()
                everyone_raises(comm, what, lambda: f.open(name))
                if me == 0:
                    os.rename(ctx.dir + "/keep", p)
                comm.barrier()
            elif why == "gone" and old:
                name = old[x % len(old)]
                if blocks[name].nfile:
                    c = M.together(comm, what, lambda: f.open(name))
                    if me == 0:
                        os.rename(root + "/" + name, ctx.dir + "/keep")
                    comm.barrier()
                    c.attrs["lost"] = np.array([3])
                    everyone_raises(comm, what, c.flush)
                    if me == 0:
                        os.rename(ctx.dir + "/keep", root + "/" + name)
                    comm.barrier()
                    M.together(comm, what, c.close)
                    blocks[name].attrs["lost"] = np.array([3])
                    agree(c, blocks[name], what)
                    del c
            else:
                continue
            ctx.tag("refuse-" + why)
            M.together(comm, what, f.refresh)
            listed(what)
            for name in old[:2]:
                disk(name, what)
        elif op == "reopen":
            if o[1] == 0:
                M.together(comm, what, f.close)
                f = M.together(comm, what, lambda: FileMPI(comm, root, create=bool(o[2] % 2)))
            elif o[1] == 1:
                def w():
                    with FileMPI(comm, root) as f2:
                        need(sorted(f2.blocks) == old, "blocks are %s, should be %s", f2.blocks, old)
                M.together(comm, what, w)
            else:
                M.together(comm, what, f.refresh)
            listed(what)
        elif op == "sub":
            groups = sorted({k.split("/")[0] for k in blocks if "/" in k})
            if not groups:
                continue
            g = groups[o[1] % len(groups)]
            s = M.together(comm, what, lambda: [lambda: f[g + "/"], lambda: f.subfile(g), lambda: f.subfile("/" + g), lambda: f.subfile(g + "/")][o[2] % 4]())
            want = sorted(k[len(g) + 1:] for k in blocks if k.startswith(g + "/"))
            M.together(comm, what, lambda: need(isinstance(s, FileMPI) and sorted(s.blocks) == want, "a %s of %s, should be of %s", type(s), sorted(s.blocks), want))
            name = want[o[2] % len(want)]
            c = M.together(comm, what, lambda: s[name])
            agree(c, blocks[g + "/" + name], what)
            M.together(comm, what, lambda: need(same(c[:], blocks[g + "/" + name].m), "rows differ"))
            ctx.tag("sub")
        elif op == "dataset":
            n = o[1] % (len(old) or 1)
            names = [k for k in old if old and len(blocks[k].m) == len(blocks[old[n]].m) and blocks[k].nfile]
            if not names:
                continue
            ds = M.together(comm, what, lambda: Dataset(f, names))

            def check():
                rows = len(blocks[names[0]].m)
                need(ds.size == rows, "size %d, should be %d", ds.size, rows)
                a = (o[2] + me) % (rows + 1)
                for lo, hi in ((0, rows), (a, a + 3)):
                    got = ds[lo:hi]
                    for k in names:
                        need(same(got[k], blocks[k].m[lo:hi]), "column %s differs", k)
            M.together(comm, what, check)
            ctx.tag("dataset")
    listed("at the end")
    for name in sorted(blocks):
        disk(name, "at the end")
    bigfile.set_buffer_size(DEFAULT)
