"""command line data tools against an independent reader and writer of the files"""
import ctypes as C, os, shutil
import numpy as np
from .. import fmt
from .clilib import tool, need

libc = C.CDLL(None)
CT = {"i4": C.c_int32, "u4": C.c_uint32, "i8": C.c_int64, "u8": C.c_uint64, "f4": C.c_double, "f8": C.c_double, "b1": C.c_int}
DEF = {"i4": "%d", "u4": "%u", "i8": "%ld", "u8": "%lu", "f4": "%g", "f8": "%g", "c8": "%g+%gI", "c16": "%g+%gI", "b1": "%d"}


def printf(f, *a):
    buf = C.create_string_buffer(4000)
    libc.snprintf(buf, C.c_size_t(4000), f.encode(), *a)
    return buf.value


def bytes_of(seed, n, dt, tame):
    """n bytes; tame: small numbers"""
    r = np.random.RandomState(seed % 2**32)
    if tame and dt[1] in "iufc" and fmt.width(dt) <= 8:
        w = fmt.width(dt)
        return r.randint(0, 100, n // w + 1).astype(dt).tobytes()[:n]
    return r.bytes(n)


def text(dt, nm, data, f):
    k, out = dt[1:], []
    w = fmt.width(dt)
    for i in range(0, len(data), w):
        raw = data[i:i + w]
        if k == "b1":
            a = [C.c_int(np.frombuffer(raw, "i1")[0])]
        elif k[0] == "c":
            a = [C.c_double(float(x)) for x in np.frombuffer(raw, dt[0] + {"c8": "f4", "c16": "f8"}[k])]
        else:
            v = np.frombuffer(raw, dt)[0]
            a = [CT[k](float(v) if k[0] == "f" else int(v))]
        out.append(printf(f or DEF[k], *a) + b" ")
        if (i // w) % nm == nm - 1:
            out.append(b"\n")
    return b"".join(out)


def block(path):
    try:
        return fmt.read_block(path)
    except (fmt.Bad, OSError) as e:
        need(False, "block %s: %s", path, e)


def intact(before, root, what, but=()):
    """nothing below root changed, apart from the paths listed (and what is below them)"""
    after = fmt.snapshot(root)
    skip = lambda p: any(p == b or p.startswith(b + "/") for b in but)
    a = {k: v for k, v in before.items() if not skip(k)}
    b = {k: v for k, v in after.items() if not skip(k)}
    if a != b:
        bad = sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))
        need(False, "%s changed %s", what, bad[:5])


def is_copy(src, path, nfile, what):
    b = block(path)
    need((b["dt"], b["nm"]) == (src["dt"], src["nm"]), "%s: the copy is %s x %d, the original %s x %d", what, b["dt"], b["nm"], src["dt"], src["nm"])
    need(b["data"] == src["data"] and sum(b["fs"]) == sum(src["fs"]), "%s: the rows of the copy differ", what)
    need(b["attrs"] == src["attrs"], "%s: the attributes of the copy are %s, of the original %s", what, b["attrs"], src["attrs"])
    n = len(src["fs"])
    want = nfile if nfile and n else n
    need(len(b["fs"]) == want, "%s: the copy has %d files, not %d", what, len(b["fs"]), want)
    need(b["ck"] == [sum(x) & 0xffffffff for x in b["raw"]], "%s: the checksums of the copy are not those of its files", what)


def source(root, s):
    dt, nm, fs = s["dt"], s["nm"], s["fs"]
    data = bytes_of(s["seed"], sum(fs) * nm * fmt.width(dt), dt, s.get("tame"))
    attrs = {k.encode(): (d, n, bytes_of(s["seed"] + i, n * fmt.width(d), d, True)) for i, (k, d, n) in enumerate(s["attrs"])}
    fmt.write_block(os.path.join(root, s["name"]), dt, nm, fs, data, attrs)


def run(case, ctx):
    globals()["do_" + case["op"]](case, ctx, os.path.join(ctx.dir, "r"))


def do_create(c, ctx, root):
    dt, nm = c["dt"], c["nm"]
    ndt = dt if dt[0] in "<>" else "<" + dt.lstrip("=|")
    row = fmt.width(ndt) * nm
    data = bytes_of(c["seed"], c["rows"] * row + c["extra"] % row, ndt, c["tame"])
    whole = data[:c["rows"] * row]
    if c["other"]:
        source(root, dict(c["other"], name="other"))
        if c["over"]:
            source(root, dict(c["other"], name=c["name"]))
    before = fmt.snapshot(root)
    args = ["-n", str(nm)] if nm != 1 or c["seed"] % 2 else []
    args += ["-B", str(c["buf"])] if c["buf"] else []
    rc, out, err = tool("bigfile-create", *args, root, c["name"], dt, stdin=data, fsize=c["limit"])
    need(rc == 0 or c["limit"] is not None, "bigfile-create failed: %s", err)
    intact(before, root, "bigfile-create", [c["name"]] + [c["name"].split("/")[0]])
    if rc != 0:
        ctx.tag("create-limit")
        return
    path = os.path.join(root, c["name"])
    b = block(path)
    need((b["dt"], b["nm"], sum(b["fs"])) == (ndt, nm, c["rows"]), "bigfile-create made %s x %d, %s rows, not %s x %d, %d", b["dt"], b["nm"], b["fs"], ndt, nm, c["rows"])
    need(b["data"] == whole, "bigfile-create stored other bytes")
    need(b["ck"] == [sum(x) & 0xffffffff for x in b["raw"]], "bigfile-create stored other checksums")
    need(b["attrs"] == {}, "bigfile-create stored attributes %s", b["attrs"])
    ctx.nontrivial(c["rows"] > 1)
    ctx.tag("create")
    do_cats(c["cats"], ctx, root, c["name"])


def do_cats(cats, ctx, root, name):
    b = block(os.path.join(root, name))
    row = fmt.width(b["dt"]) * b["nm"]
    size = sum(b["fs"])
    for q in cats:
        if q["o"] is not None and q["o"] > size:
            q = dict(q, o=q["o"] % (size + 1))
        args = (["-o", str(q["o"])] if q["o"] is not None else []) + (["-c", str(q["c"])] if q["c"] is not None else [])
        args += ["-B", str(q["buf"])] if q["buf"] else []
        a = q["o"] or 0
        e = size if q["c"] is None else min(size, a + q["c"])
        want = b["data"][a * row:e * row]
        if q["text"]:
            if b["dt"][1:] not in DEF:
                continue
            f = q["fmt"] and {"i": q["fmt"] + ("l" if b["dt"][2:] == "8" else "") + "d", "u": q["fmt"] + ("l" if b["dt"][2:] == "8" else "") + "u",
                              "f": q["fmt"] + "g", "b": q["fmt"] + "d", "c": "(" + q["fmt"] + "g," + q["fmt"] + "g)"}[b["dt"][1]]
            args += ["-f", f] if f else []
            want = text(b["dt"], b["nm"], want, f)
            ctx.tag("cat-text")
        else:
            args.append("-b")
            ctx.tag("cat-binary")
        before = fmt.snapshot(root)
        rc, out, err = tool("bigfile-cat", *args, root, name)
        need(rc == 0, "bigfile-cat %s: %s", args, err)
        if out != want:
            i = next((k for k in range(min(len(out), len(want))) if out[k] != want[k]), min(len(out), len(want)))
            need(False, "bigfile-cat %s printed %d bytes, expected %d, from byte %d: %r, expected %r", args, len(out), len(want), i, out[i:i + 40], want[i:i + 40])
        intact(before, root, "bigfile-cat")
        if want and q["full"]:
            rc, out, err = tool("bigfile-cat", *args, root, name, stdout="/dev/full")
            need(rc != 0, "bigfile-cat %s to a full device exited with 0", args)
            ctx.tag("cat-full")
        ctx.nontrivial(e - a > 1)


def do_cat(c, ctx, root):
    source(root, c["src"])
    do_cats(c["cats"], ctx, root, c["src"]["name"])


def do_copy(c, ctx, root):
    s = c["src"]
    source(root, s)
    source(root, {"name": "zz", "dt": "<i4", "nm": 1, "fs": [3], "seed": 1, "attrs": []})
    src = block(os.path.join(root, s["name"]))
    other = os.path.join(ctx.dir, "o")
    to = other if c["elsewhere"] else root
    if c["exists"]:
        source(to, dict(c["exists"], name=c["dst"]))
    fault = c["fault"]
    sp = os.path.join(root, s["name"])
    if fault == "short":
        # a file of the source that has rows is too short
        full = [i for i, n in enumerate(s["fs"]) if n]
        if not full:
            return
        p = fmt.datafile(sp, full[c["pick"] % len(full)])
        os.truncate(p, os.path.getsize(p) * (c["pick"] % 100) // 100)
    elif fault == "missing":
        full = [i for i, n in enumerate(s["fs"]) if n]
        if not full:
            return
        os.unlink(fmt.datafile(sp, full[c["pick"] % len(full)]))
    elif fault == "noblock":
        shutil.rmtree(sp)
    elif fault == "self":
        to, c = root, dict(c, dst=[s["name"], "./" + s["name"], "zz/../" + s["name"]][c["pick"] % 3])
    elif fault == "destfile":
        os.makedirs(to, exist_ok=True)
        c = dict(c, dst="plain/x")
        open(os.path.join(to, "plain"), "w").close()
    before = fmt.snapshot(root)
    mpi = c["np"]
    args = ["-n", str(c["n"])] if c["n"] else []
    args += ["-b" if mpi else "-B", str(c["buf"])] if c["buf"] else []
    args += ["-f", other] if to is other else []
    args += ["-v"] if c["pick"] % 3 == 0 else []
    name = "bigfile-copy-mpi" if mpi else "bigfile-copy"
    rc, out, err = tool(name, *args, root, s["name"], c["dst"], np=mpi, fsize=None if mpi else c["limit"])
    what = "%s %s %s %s" % (name, args, s["name"], c["dst"])
    dst = os.path.normpath(c["dst"])
    top = [dst] + [dst.split("/")[0]] * (dst.split("/")[0] != s["name"].split("/")[0])
    intact(before, root, what, top if to is root and fault != "self" else [])
    if fault:
        need(rc != 0, "%s with %s exited with 0", what, fault)
        ctx.tag("copy-" + fault)
        return
    ctx.nontrivial(sum(s["fs"]) > 1)
    if mpi == 1 and rc != 0:
        ctx.tag("one-rank")
        return
    if rc != 0:
        need(c["limit"] is not None and not mpi, "%s failed: %s", what, err)
        ctx.tag("copy-limit")
        return
    ctx.tag("copy-mpi" if mpi else "copy", "elsewhere" if to is other else "same-file")
    if c["exists"]:
        ctx.tag("copy-over")
    is_copy(src, os.path.join(to, dst), c["n"], what)


def spread(fs):
    return max(fs) - min(fs) if fs else 0


def do_manage(c, ctx, root):
    """a history of rename, rm, repartition and copy against a model of the tree"""
    os.makedirs(root)
    model = {}
    for s in c["blocks"]:
        n = s["name"]
        if any(k == n or k.startswith(n + "/") or n.startswith(k + "/") for k in model):
            continue
        source(root, s)
        model[n] = block(os.path.join(root, n))
        model[n]["min"] = None

    def groups():
        out = set()
        for d, ds, fs in os.walk(root):
            for x in ds:
                out.add(os.path.relpath(os.path.join(d, x), root))
        return out

    def listing():
        out = set()
        for d, ds, fs in os.walk(root):
            if "header" in fs:
                out.add(os.path.relpath(d, root))
        return out

    def verify(what):
        need(listing() == set(model), "%s: the blocks are %s, should be %s", what, sorted(listing()), sorted(model))
        for n, m in model.items():
            b = block(os.path.join(root, n))
            for k in ("dt", "nm", "fs", "data", "attrs", "ck"):
                need(b[k] == m[k], "%s: %s of block %s is %s, should be %s", what, k, n, b[k], m[k])

    def pick(i):
        ns = sorted(model)
        return ns[i % len(ns)] if ns else "none"

    done = 0
    for op in c["ops"]:
        if op[0] == "rename":
            a, b = pick(op[1]) if op[1] >= 0 else "g/no such", op[2]
            if isinstance(b, int):
                b = pick(b)
            if isinstance(b, list):  # a group
                gs = sorted(groups() - set(model))
                if not gs:
                    continue
                b = gs[b[0] % len(gs)]
            what = "bigfile-rename %s %s" % (a, b)
            possible = a in model and not os.path.exists(os.path.join(root, b)) and (os.path.isdir(os.path.join(root, os.path.dirname(b)))) \
                and not any(b.startswith(k + "/") for k in model)
            if any(b.startswith(k + "/") for k in model) and not b.startswith(a + "/"):
                continue  # a block in a block
            rc, out, err = tool("bigfile-rename", root, a, b)
            need((rc == 0) == possible, "%s exited with %d: %s", what, rc, err)
            if possible:
                model[b] = model.pop(a)
                done += 1
                ctx.tag("rename")
            else:
                ctx.tag("rename-refused")
        elif op[0] == "rm":
            names = [pick(i) if isinstance(i, int) else i for i in op[1]]
            names = list(dict.fromkeys(names))
            missing = [n for n in names if n not in model]
            what = "bigfile-rm %s" % names
            rc, out, err = tool("bigfile-rm", root, *names)
            need((rc != 0) == bool(missing), "%s exited with %d: %s", what, rc, err)
            for n in names:
                if model.pop(n, None):
                    done += 1
            ctx.tag("rm-missing" if missing else "rm")
        elif op[0] == "repart":
            names = [pick(i) if isinstance(i, int) else i for i in op[2]]
            names = list(dict.fromkeys(names))
            missing = [n for n in names if n not in model]
            todo = [n for n in (names or model) if n in model]
            nf = op[1]
            what = "bigfile-repartition %d %s" % (nf, names)
            if any(n + "-REPBAK" in model for n in todo):
                continue
            args = ["-v"] if op[3] else []
            limit = op[4] if len(op) > 4 else None
            if limit is not None:
                big = max([sum(model[n]["fs"]) * len(model[n]["data"]) // max(1, sum(model[n]["fs"])) for n in todo] + [0])
                limit = limit * (big + 120) // 100
            rc, out, err = tool("bigfile-repartition", *args, root, str(nf), *names, fsize=limit)
            if nf <= 0:
                need((rc != 0) == bool(missing or todo), "%s exited with %d: %s", what, rc, err)
                ctx.tag("repart-refused")
                verify(what)
                continue
            if limit is not None and rc != 0:
                # each block is as it was, or done
                for n in todo:
                    b = block(os.path.join(root, n))
                    if b["fs"] == model[n]["fs"]:
                        continue
                    is_copy(model[n], os.path.join(root, n), nf, what)
                    model[n] = b
                ctx.tag("repart-limit")
                done += bool(todo)
                verify(what)
                continue
            need((rc != 0) == bool(missing), "%s exited with %d: %s", what, rc, err)
            for n in todo:
                b = block(os.path.join(root, n))
                is_copy(model[n], os.path.join(root, n), nf, what)
                need(spread(b["fs"]) <= 1, "%s: rows per file %s", what, b["fs"])
                model[n] = b
                done += 1
            ctx.tag("repart-missing" if missing else "repart" if names else "repart-all")
        elif op[0] == "copy":
            a, b = pick(op[1]), op[2]
            if a not in model or any(k == b or k.startswith(b + "/") or b.startswith(k + "/") for k in model) or os.path.exists(os.path.join(root, b)):
                continue
            what = "bigfile-copy %s %s" % (a, b)
            rc, out, err = tool("bigfile-copy", root, a, b)
            need(rc == 0, "%s failed: %s", what, err)
            is_copy(model[a], os.path.join(root, b), None, what)
            model[b] = block(os.path.join(root, b))
            done += 1
        verify(what)
    ctx.nontrivial(done > 1)


def do_refuse(c, ctx, root):
    """requests that cannot be carried out"""
    source(root, {"name": "b", "dt": "<i4", "nm": 1, "fs": [3, 2], "seed": 5, "attrs": [["k", "<i8", 1]]})
    open(os.path.join(ctx.dir, "plain"), "w").close()
    args, stdin = c["args"], b"\1\0\0\0" * 5
    before = fmt.snapshot(ctx.dir)
    rc, out, err = tool(c["tool"], *[a.replace("@", ctx.dir) for a in args], stdin=stdin, cwd=ctx.dir)
    need(rc != 0, "%s %s exited with 0", c["tool"], args)
    intact(before, ctx.dir, "%s %s" % (c["tool"], args), c["may"])
    need(c["tool"] != "bigfile-cat" or out == b"", "bigfile-cat %s printed %r", args, out[:100])
    ctx.tag("refuse-" + c["tool"][8:])
    ctx.nontrivial()
