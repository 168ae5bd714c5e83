import os
import bigfile
from .. import fmt, lib as L
from ..lib import need, ok


def run(case, ctx):
    root = ctx.dir + "/r"
    tail = case.get("tail", "")    # the same directory, written with a trailing slash
    f = L.File(root + tail, create=True).must()
    pf = bigfile.File(root + tail)
    blocks = set()     # paths of blocks
    dirs = {""}        # paths of groups
    used = set()       # every other path taken
    sizes = {}
    other = 0

    def parents(p):
        c = p.split("/")
        return ["/".join(c[:i]) for i in range(1, len(c))]

    def free(p):
        """p can become a new block or group"""
        if p in blocks or p in used:
            return False
        # a file called header marks its directory as a block, an attr-v2 or attr file is metadata: a block or group may still have the name
        return not any(q in blocks or q in used for q in parents(p))

    def listing(what):
        got = [x.decode() for x in f.list()]
        need(len(got) == len(set(got)), "%s: a block is listed twice: %r", what, sorted(got))
        need(set(got) == blocks, "%s: listed but no block: %r; block but not listed: %r", what, sorted(set(got) - blocks), sorted(blocks - set(got)))

    listing("new file")
    for k, p in case["ops"]:
        full = os.path.join(root, p)
        if k in ("lib", "py", "hand", "slash", "libempty", "pyempty", "handempty", "lib1"):
            if not free(p) or p in dirs:
                continue
            if k == "hand":
                fmt.write_block(full, "<f4", 1, [2, 1], b"x" * 12)
            elif k == "handempty":
                fmt.write_block(full, "<f4", 1, [], b"")
            elif k == "pyempty":
                with pf.create(p) as x:
                    x.attrs["k"] = 5
            elif k in ("libempty", "lib1"):
                b = L.Block()
                ok(b.create(f, p, "u1", 1, [] if k == "libempty" else [3]), "create of %r" % p)
                ok(b.close(), "close")
            elif k == "py":
                pf.create(p, dtype="f4", size=3, Nfile=2).close()
                need(pf.blocks == sorted(blocks | {p}), "Python listing after creating %r: %r", p, pf.blocks)
            else:
                b = L.Block()
                ok(b.create(f, ("/" + p) if k == "slash" else p, "f4", 1, [2, 1]), "create of %r" % p)
                ok(b.close(), "close")
            blocks.add(p)
            sizes[p] = 0 if k.endswith("empty") else 3
            if not sizes[p]:
                ctx.tag("block-without-files")
            dirs.update(parents(p))
        elif k == "group":
            if not free(p):
                continue
            os.makedirs(full, exist_ok=True)
            dirs.update(parents(p) + [p])
            other += 1
        elif k == "plain":
            if not free(p) or p in dirs or os.path.basename(p) in ("header", "attr-v2", "attr"):
                continue
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "w") as fp:
                fp.write("DTYPE: <i4\nNMEMB: 1\nNFILE: 0\n")
            used.add(p)
            dirs.update(parents(p))
            other += 1
        elif k in ("hidden", "hiddenfile"):
            if not free(p):
                continue
            os.makedirs(full, exist_ok=True)
            dirs.update(parents(p) + [p])
            if k == "hidden":
                fmt.write_block(full + "/.hid", "<f4", 1, [1], b"xxxx")
                fmt.write_block(full + "/.hid2/inside", "<f4", 1, [1], b"xxxx")
            else:
                open(full + "/.header", "w").close()
            other += 1
        elif k in ("meta", "gattr"):
            if not free(p) or p + "/attr-v2" in dirs or p + "/attr-v2" in blocks or p + "/attr-v2" in used:
                continue
            if k == "meta":
                g = ""
                if any(x.split("/")[0] == "attr-v2" for x in dirs | blocks | used):
                    continue
            else:
                g = p
            b = L.Block()
            ok(b.create(f, (g + "/.") if g else ".", None, 0, []), "create of the meta block of %r" % g)
            ok(b.set_attr("k", L.Buf(b"abcd"), "<i4", 1), "set_attr")
            ok(b.close(), "close")
            if g:
                dirs.update(parents(g) + [g])
            used.add((g + "/" if g else "") + "attr-v2")
            b = L.Block()
            ok(b.open(f, (g + "/.") if g else "."), "open of the meta block of %r" % g)
            need(b.attrs() == [(b"k", "<i4", 1, b"abcd")], "attributes of group %r: %r", g, b.attrs())
            b.close()
            other += 1
        listing("after %s %r" % (k, p))
    # all listed blocks open, from C and Python
    for n in f.list():
        b = L.Block()
        ok(b.open(f, n.decode()), "open of the listed block %r" % n)
        need(b.size == sizes[n.decode()], "block %r has %d rows", n, b.size)
        b.close()
    pf = bigfile.File(root + tail)
    names = sorted(blocks)
    need(pf.blocks == names and list(pf) == names and list(pf.keys()) == names and pf.list_blocks() == names, "Python lists %r, blocks are %r", pf.blocks, names)
    for n in names:
        need(n in pf, "%r not in the Python file", n)
        need(pf[n].size == sizes[n], "Python opens %r with %d rows", n, pf[n].size)
    for d in sorted(dirs - {""}):
        need(d not in pf, "group %r is contained in the Python file", d)
        want = sorted(x[len(d) + 1:] for x in blocks if x.startswith(d + "/"))
        sub = pf[d + "/"] if len(d) % 2 else pf.subfile(d)
        need(sub.blocks == want, "view of group %r lists %r, expected %r", d, sub.blocks, want)
        for n in want:
            need(sub[n].size == sizes[d + "/" + n], "view of group %r opens %r", d, n)
        g = L.File(os.path.join(root, d) + tail).must()
        need(sorted(x.decode() for x in g.list()) == want, "C listing of group %r: %r, expected %r", d, g.list(), want)
        for n in want:
            b = L.Block()
            ok(b.open(g, n), "open of %r through group %r" % (n, d + tail))
            need(b.size == sizes[d + "/" + n], "block %r of group %r has %d rows", n, d, b.size)
            b.close()
        g.close()
    f.close()
    depths = {x.count("/") for x in blocks}
    ctx.nontrivial(len(depths) > 1 and other)
    if any("header" in x.split("/") for x in blocks | dirs):
        ctx.tag("named-header")
    if len(dirs) > 1:
        ctx.tag("groups")
