"""command line tools with names of any bytes: nonzero and the name on stderr, or they work"""
import os
from .. import fmt
from .clilib import tool, need


def run(case, ctx):
    top = ctx.dir.encode()
    root = top + b"/" + case["root"].encode("latin1")
    name = case["name"].encode("latin1")
    miss = case["miss"].encode("latin1")
    d = b"0123456789abcdef" * 2
    fmt.write_block(os.fsdecode(root + b"/" + name), "<i4", 1, [5, 3], d, {b"a": ("<i4", 1, b"1234")})

    def fails(t, named, *a, **kw):
        rc, out, e = tool(t, *a, **kw)
        need(rc != 0, "%s %s exits with 0", t, list(a))
        if named:
            need(named in e.encode(errors="surrogateescape") or named.decode(errors="replace") in e, "%s %s does not name %r: %s", t, list(a), named, e)
        ctx.tag(t)
        ctx.nontrivial()

    def works(t, *a, **kw):
        rc, out, e = tool(t, *a, **kw)
        need(rc == 0, "%s %s exits with %d: %s", t, list(a), rc, e)
        return out
    other = top + b"/" + miss
    for k in case["tools"]:
        if k == "cat":
            fails("bigfile-cat", miss, root, miss)
            fails("bigfile-cat", miss, other, name)
            need(works("bigfile-cat", "-b", root, name) == d, "bigfile-cat of %r", name)
        elif k == "ls":
            fails("bigfile-ls", miss, other)
            fails("bigfile-ls", miss, root, miss)
            need(name in works("bigfile-ls", root), "bigfile-ls of %r", name)
            need(name in works("bigfile-ls", "-l", root), "bigfile-ls -l of %r", name)
        elif k == "check":
            fails("bigfile-check", miss, other)
            works("bigfile-check", root)
        elif k == "get":
            fails("bigfile-get-attr", miss, root, miss)
            need(b"a" in works("bigfile-get-attr", root, name), "bigfile-get-attr of %r", name)
        elif k == "set":
            fails("bigfile-set-attr", miss, root, miss, "x", "3", "-t", "i4")
        elif k == "create":
            pass
        elif k == "copy":
            fails("bigfile-copy", miss, root, miss, "to")
            works("bigfile-copy", root, name, b"to")
            need(works("bigfile-cat", "-b", root, b"to") == d, "the copy of %r", name)
