"""bigfile-sample-mpi against its source and against itself in other configurations"""
import os, shutil
import numpy as np
from .. import fmt
from .clilib import tool, need
from .c22 import block, bytes_of, intact


def subsequence(new, old, row, counter, dt):
    """rows of new in the order of old, every one at most once"""
    if counter:
        v = np.frombuffer(new, dt).astype("i8")
        n = len(old) // row
        v = v[::row // fmt.width(dt)]
        need(len(v) == 0 or (np.diff(v) > 0).all() and v[0] >= 0 and v[-1] < n, "the rows are not in the order of the source: %s", v[:50])
        whole = np.frombuffer(old, "V%d" % row)
        need(whole[v].tobytes() == new, "the rows are not those of the source")
        return
    j, n = 0, len(old) // row
    for i in range(0, len(new), row):
        r = new[i:i + row]
        while j < n and old[j * row:(j + 1) * row] != r:
            j += 1
        need(j < n, "row %d of the result is not a row of the source after the ones before it", i // row)
        j += 1


def run(c, ctx):
    dt, nm, n = c["dt"], c["nm"], sum(c["fs"])
    row = fmt.width(dt) * nm
    if c["counter"]:
        a = np.zeros((n, nm), dt)
        a[:, 0] = np.arange(n)
        for k in range(1, nm):
            a[:, k] = (np.arange(n) * 7 + k) % 1000
        data = a.tobytes()
    else:
        data = bytes_of(c["seed"], n * row, dt, False)
    attrs = {k.encode(): (d, m, bytes_of(c["seed"] + i, m * fmt.width(d), d, True)) for i, (k, d, m) in enumerate(c["attrs"])}
    ratio = c["ratio"]
    whole = ratio is None or float(ratio) == 1.0
    first = None
    for k, (np_, nf, fs, elsewhere, exists) in enumerate(c["runs"]):
        root, other = ctx.dir + "/r%d" % k, ctx.dir + "/o%d" % k
        sizes = fs and list(fs)
        if not sizes:
            sizes = c["fs"]
        else:
            # the same rows in other files
            cut = sorted(x % (n + 1) for x in sizes)
            sizes = [b - a for a, b in zip([0] + cut, cut + [n])]
        fmt.write_block(root + "/g/src", dt, nm, sizes, data, attrs)
        fmt.write_block(root + "/other", "<i4", 1, [2], b"12345678", {})
        to = other if elsewhere else root
        if exists:
            fmt.write_block(to + "/g/new", ">f8", 2, [3, 0, 1], b"\1" * 64, {b"old": ("<i4", 1, b"1234")})
        fault = c["fault"] if k == 0 else None
        if fault in ("short", "missing"):
            some = [i for i, x in enumerate(sizes) if x]
            if not some or not whole:
                continue
            p = fmt.datafile(root + "/g/src", some[c["seed"] % len(some)])
            if fault == "short":
                os.truncate(p, os.path.getsize(p) * (c["seed"] % 100) // 100)
            else:
                os.unlink(p)
        elif fault == "noblock":
            shutil.rmtree(root + "/g/src")
        elif fault == "destfile":
            os.makedirs(to, exist_ok=True)
            open(to + "/plain", "w").close()
        dst = {"self": ["g/src", "./g/src", "g/../g/src"][c["seed"] % 3], "destfile": "plain/new"}.get(fault, "g/new")
        if fault == "self":
            to, elsewhere = root, False
        before = fmt.snapshot(root)
        args = ["-r", ratio] if ratio is not None else []
        if fault == "ratio":
            args = ["-r", ["1.5", "-0.1", "nan", "1e9", "inf"][c["seed"] % 5]]
        args += [["-n", "-N"][k % 2], str(nf)] if nf else []
        args += ["-f", other] if elsewhere else []
        args += ["-v"] if c["seed"] % 5 == 0 else []
        what = "bigfile-sample-mpi %s on %d ranks" % (args, np_)
        rc, out, err = tool("bigfile-sample-mpi", *args, root, "g/src", dst, np=np_, timeout=80)
        intact(before, root, what, ["g/new"] if to is root else [])
        if fault:
            need(rc != 0, "%s with %s exited with 0", what, fault)
            ctx.tag("fault-" + fault)
            continue
        if np_ == 1 and rc != 0:
            ctx.tag("one-rank")
            continue
        need(rc == 0, "%s failed: %s", what, err)
        b = block(to + "/g/new")
        need((b["dt"], b["nm"]) == (dt, nm), "%s made a block of %s x %d from %s x %d", what, b["dt"], b["nm"], dt, nm)
        need(b["attrs"] == attrs, "%s made the attributes %s from %s", what, b["attrs"], attrs)
        if sizes:
            need(len(b["fs"]) == (nf or len(sizes)), "%s made %d files", what, len(b["fs"]))
        need(b["ck"] == [sum(np.frombuffer(x, "u1").tolist()) & 0xffffffff if len(x) < 1000 else int(np.frombuffer(x, "u1").sum(dtype="u8")) & 0xffffffff for x in b["raw"]], "%s stored other checksums", what)
        if whole:
            need(b["data"] == data, "%s with ratio 1 is not a copy", what)
            ctx.tag("ratio1")
        else:
            subsequence(b["data"], data, row, c["counter"], dt)
            if float(ratio) == 0:
                need(b["data"] == b"", "%s selected %d bytes", what, len(b["data"]))
            ctx.tag("sampled" if b["data"] else "empty")
            ctx.nontrivial(b["data"] and k)
        if first is None:
            first = b["data"]
        need(b["data"] == first, "%s selected %d rows, other rows than before with other ranks or files", what, len(b["data"]) // row)
        if n > 2**20:
            ctx.tag("chunks")
        shutil.rmtree(root)
        shutil.rmtree(other, ignore_errors=True)
    ctx.nontrivial(whole and n > 1 and len(c["runs"]) > 1)
