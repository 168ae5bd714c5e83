"""what the ranks know about a block, against each other and against the files"""
import os
from .. import fmt, lib as L, mlib as M
from ..lib import need, ok
from .c08 import sums


def view(b):
    return {"type": b.dtype, "members": b.nmemb, "files": b.nfile, "sizes": b.geom()[0], "size": b.size,
            "attrs": {a: (d, n, r) for a, d, n, r in b.attrs()}}


def run(case, ctx):
    comm = M.sub(case["np"])
    if comm is None:
        return
    me, np_ = comm.rank, comm.size
    dt, nm, name = case["dt"], case["nm"], case["name"]
    w = fmt.width(dt) if dt else 0
    L.set_buffer_size(L.DEFAULT_BUFFER)
    M.set_threshold(case["threshold"])
    root = ctx.dir + "/r"
    path = root if name in (".", "") else os.path.join(root, name)
    f = M.File(comm, root, create=True)
    M.together(comm, "create file", lambda: ok(f.rt, "create"))
    fs = []
    attrs = {}     # of the root rank
    written = 0    # every row below is written once
    flags = set()

    def agree(what):
        v = view(b)
        every = comm.allgather(v)

        def same():
            want = {"type": dt if dt else every[0]["type"], "members": nm, "files": len(fs), "sizes": fs, "size": sum(fs), "attrs": attrs}
            for i, x in enumerate(every):
                need(x == want, "after %s rank %d of %d sees %s, expected %s", what, i, np_, x, want)
        M.together(comm, "view", same)
        if np_ > 1:
            flags.add("compared")

    def disk(what):
        agree(what)

        def check():
            if me:
                return
            s, f2 = L.Block(), L.File(root).must()
            ok(s.open(f2, name), "serial open after " + what)
            v = view(s)
            ck = s.geom()[1]
            s.close()
            f2.close()
            want = {"type": dt if dt else v["type"], "members": nm, "files": len(fs), "sizes": fs, "size": sum(fs), "attrs": attrs}
            need(v == want, "after %s a fresh serial open shows %s, the ranks see %s", what, v, want)
            if not case["huge"] and name != ".":
                true = sums(None, path, fs)
                need([x % 2**32 for x in true] == ck, "after %s the sums on disk are %s, those of the data %s", what, ck, true)
        M.together(comm, "disk", check)

    def spread(total, n):
        got = b.geom()[0][len(fs):]
        M.together(comm, "split", lambda: need(len(got) == n and sum(got) == total and max(got) - min(got) <= 1, "%d rows were split over %d files as %s", total, n, got))
        return got

    b = M.Block(comm)
    if case["total"] is not None:
        rt = b.create_size(f, name, dt, nm, len(case["fs"]), case["total"])
        M.together(comm, "create", lambda: ok(rt, "create"))
        fs = spread(case["total"], len(case["fs"]))
    else:
        rt = b.create(f, name, dt, nm, case["fs"])
        M.together(comm, "create", lambda: ok(rt, "create"))
        fs = list(case["fs"])
    agree("create")
    for op in case["ops"]:
        k = op[0]
        if k == "attr":
            _, who, an, adt, n, seed = op
            ab = L.b(an)
            raw = L.splitmix_bytes(seed, fmt.width(adt) * n)
            root_ok = who in ("all", "root", "differ")

            def put():
                if who == "all" or (who == "root" and me == 0) or (who == "other" and me == np_ - 1 and me):
                    ok(b.set_attr(an, L.Buf(raw), adt, n), "set_attr")
                elif who == "differ":
                    mine = raw if me == 0 else L.splitmix_bytes(seed + me, len(raw))
                    ok(b.set_attr(an, L.Buf(mine), adt, n), "set_attr")
            # an attribute that exists in another size is replaced on purpose
            if ab in attrs and attrs[ab][:2] != (adt, n):
                b_remove(comm, b, ab)
                attrs.pop(ab)
            M.together(comm, "set_attr", put)
            if root_ok:
                attrs[ab] = (adt, n, raw)
            flags.add("attr-" + who)
            if who != "all":
                M.together(comm, "flush", lambda rt=b.flush(): ok(rt, "flush"))
                disk("set_attr on %s and flush" % who)
        elif k == "rm":
            if attrs:
                an = sorted(attrs)[op[1] % len(attrs)]
                if op[2] or me == 0:
                    L.remove_attr(b.h, an)
                attrs.pop(an)
                M.together(comm, "flush", lambda rt=b.flush(): ok(rt, "flush"))
                disk("remove_attr and flush")
        elif k == "fl":
            M.together(comm, "flush", lambda rt=b.flush(): ok(rt, "flush"))
            disk("flush")
        elif k == "grow" and name not in (".", ""):
            M.together(comm, "grow", lambda rt=b.grow(op[1]): ok(rt, "grow"))
            fs = fs + op[1]
            agree("grow")
            flags.add("grow")
        elif k == "growsize" and name not in (".", ""):
            rt = b.grow_simple(op[1], op[2])
            M.together(comm, "grow", lambda: ok(rt, "grow"))
            fs = fs + spread(op[2], op[1])
            agree("grow by a total")
            flags.add("grow")
        elif k == "w" and nm and not case["huge"]:
            total = sum(fs)
            n = total - written
            if n:
                parts = M.pieces(n, np_, op[1])
                a = sum(parts[:me])
                data = L.splitmix_bytes(op[1], n * nm * w)[a * nm * w:(a + parts[me]) * nm * w]
                p = L.Ptr()
                L.seek(b.h, p.h, written)
                rt = b.mwrite(p, L.Array(L.Buf(data), dt, (parts[me], nm)), op[2])
                M.together(comm, "write", lambda: ok(rt, "write"))
                written = total
                agree("write")
        elif k == "re":
            M.together(comm, "close", lambda rt=b.close(): ok(rt, "close"))
            if case["refile"]:
                M.together(comm, "close file", lambda rt=f.close(): ok(rt, "close"))
                f = M.File(comm, root)
                M.together(comm, "open file", lambda: ok(f.rt, "open"))
            b = M.Block(comm)
            M.together(comm, "open", lambda rt=b.open(f, name): ok(rt, "open"))
            disk("open")

    def fetch():
        for an, (adt, n, raw) in attrs.items():
            buf = L.Buf(len(raw))
            ok(b.get_attr(an, buf, adt, n), "get_attr")
            need(buf.bytes() == raw, "rank %d reads attribute %r as %s, it is %s", me, an, buf.bytes().hex(), raw.hex())
    if all(op[0] != "attr" or op[1] == "all" for op in case["ops"]):
        M.together(comm, "get_attr", fetch)
    M.together(comm, "close", lambda rt=b.close(): ok(rt, "close"))
    b = M.Block(comm)
    M.together(comm, "open", lambda rt=b.open(f, name): ok(rt, "open"))
    disk("the last close and open")
    M.together(comm, "get_attr", fetch)
    b.close()
    f.close()
    ctx.tag(*sorted(flags))
    ctx.nontrivial("compared" in flags and (attrs or "grow" in flags))


def b_remove(comm, b, an):
    L.remove_attr(b.h, an)
