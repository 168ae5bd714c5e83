"""Python datasets against numpy structured arrays"""
import numpy as np
import bigfile
from .pylib import *


def index(x):
    k = x[0]
    if k == "slice":
        return slice(*x[1:])
    if k == "int":
        return {"py": int, "i8": np.int64, "u1": np.uint8}[x[2]](x[1])
    return Ellipsis


def run(case, ctx):
    top = ctx.dir + "/r"
    bigfile.set_buffer_size(case["buf"] or DEFAULT)
    ftop = bigfile.File(top, create=True)
    if case["sub"]:
        bigfile.File(top + "/s", create=True)
        f = ftop["s/"]
        root = top + "/s"
    else:
        f, root = ftop, top
    n = case["n"]
    M = {}
    handles = {}
    for i, (name, dt, nm, nfile) in enumerate(case["cols"]):
        m = data(case["seed"] + i, n * nm, dt).reshape((n, nm) if nm != 1 else (n,))
        c = f.create(name, (dt, (nm,)) if nm != 1 else dt, n, nfile)
        if n:
            c.write(0, m)
        c.attrs["mark"] = [i, 7]
        c.close()
        M[name] = m
    # a block that belongs to no dataset, of another length
    other = np.arange(5, dtype="i2")
    f.create_from_array("~other", other)
    all_ = [c[0] for c in case["cols"]]

    def struct(names):
        k = len(M[names[0]])
        a = np.zeros(k, [(x, M[x].dtype, M[x].shape[1:]) for x in names])
        for x in names:
            a[x] = M[x]
        return a

    def pick(mask):
        x = [c for i, c in enumerate(all_) if mask >> (i % 8) & 1] or all_
        return x

    def check(what):
        for x in all_:
            on_disk(root, x, M[x], what)
            c = f[x]
            need(same(c[:], M[x]), "%s: column %s differs", what, x)
            need(c.attrs["mark"].tolist() == [all_.index(x), 7], "%s: attributes of %s", what, x)
        need(same(f["~other"][:], other), "%s: changed another block", what)

    need(f.blocks == sorted(all_ + ["~other"]), "blocks are %r", f.blocks)
    raises(lambda: bigfile.Dataset(f), "a dataset of columns of different length") if n != 5 else None
    raises(lambda: bigfile.Dataset(f, all_ + ["~other"]), "a dataset of columns of different length") if n != 5 else None
    raises(lambda: bigfile.Dataset(f, ["~other"] + all_), "a dataset of columns of different length") if n != 5 else None
    ds = bigfile.Dataset(f, all_)
    names = all_
    k = 0
    for o in case["ops"]:
        k += 1
        what = "operation %d (%s)" % (k, str(o)[:300])
        op = o[0]
        full = struct(names)
        n = len(full)
        if op == "select":
            w = pick(o[1])
            if o[2]:
                w = w[::-1]
            if len({len(M[x]) for x in w}) > 1:
                raises(lambda: bigfile.Dataset(f, w), "%s: columns of different length" % what)
                ctx.tag("lengths")
                continue
            ds = bigfile.Dataset(f, w)
            names = w
            full = struct(names)
        elif op == "get":
            i = index(o[1])
            if isinstance(i, slice) and i.step not in (None, 1):
                raises(lambda: ds[i], what)
                continue
            if o[1][0] == "int" and not -n <= int(i) < n:
                raises(lambda: ds[i], what)
                continue
            got, want = ds[i], full[int(i) if o[1][0] == "int" else i]
            need(type(got) is type(want), "%s: a %s, numpy gives a %s", what, type(got), type(want))
            need(same(np.asarray(got), np.asarray(want)), "%s: [%r] gives %r, numpy gives %r", what, i, got, want)
            got = ds[i,]
            need(same(np.asarray(got), np.asarray(want)), "%s: [%r,] gives %r, numpy gives %r", what, i, got, want)
            ctx.nontrivial()
        elif op == "col":
            x = names[o[2] % len(names)]
            i = index(o[1])
            c = ds[x]
            need(same(c[:], full[x]), "%s: column %s differs", what, x)
            if o[1][0] == "int" and not -n <= int(i) < n:
                raises(lambda: ds[x, i], what)
                raises(lambda: ds[i, x], what)
                continue
            if isinstance(i, slice) and i.step not in (None, 1):
                raises(lambda: ds[x, i], what)
                continue
            want = full[x][int(i) if o[1][0] == "int" else i]
            for got in (ds[x, i], ds[i, x], c[i]):
                need(same(np.asarray(got), np.asarray(want)), "%s: [%r, %r] gives %r, numpy gives %r", what, x, i, got, want)
            ctx.tag("column")
        elif op == "cols":
            w = [x for j, x in enumerate(names) if o[2] >> (j % 8) & 1] or names[:1]
            if o[3]:
                w = w[::-1]
            i = index(o[1])
            d = ds[w]
            want = struct(w)
            need(d.dtype == want.dtype and d.size == n and d.shape == (n,), "%s: dtype %s size %d, expected %s %d", what, d.dtype, d.size, want.dtype, n)
            need(same(d[:], want), "%s: differs from numpy", what)
            if o[1][0] == "int" and not -n <= int(i) < n or isinstance(i, slice) and i.step not in (None, 1):
                raises(lambda: ds[w, i], what)
                continue
            want = want[int(i) if o[1][0] == "int" else i]
            for got in (ds[w, i], ds[i, w], d[i]):
                need(same(np.asarray(got), np.asarray(want)), "%s: [%r, %r] gives %r, numpy gives %r", what, w, i, got, want)
            raises(lambda: ds[w + ["missing"]], what)
            ctx.tag("columns")
        elif op == "read":
            st = o[1] % (n + 1)
            cnt = o[2]
            if st + cnt > n:
                raises(lambda: ds.read(st, cnt), what)
                continue
            out = np.zeros(cnt, full.dtype) if o[3] else None
            got = ds.read(st, cnt, out) if o[3] else ds.read(st, cnt)
            need(out is None or got is out, "%s does not return its argument", what)
            need(same(got, full[st:st + cnt]), "%s: differs", what)
        elif op in ("set", "write", "append", "beyond"):
            w = {x: M[x].dtype for x in names}

            def rows(cnt, seed, how, dtype=full.dtype):
                v = np.zeros(cnt, dtype)
                for j, x in enumerate(names):
                    nm = int(np.prod(v[x].shape[1:]))
                    v[x] = data(seed + j, cnt * nm, dtype[x].base).reshape(v[x].shape)
                if how == "step":
                    b = np.zeros(2 * cnt, dtype)
                    b[::2] = v
                    b = b[::2]
                elif how == "neg":
                    b = v[::-1].copy()[::-1]
                elif how == "readonly":
                    b = v.copy()
                    b.flags.writeable = False
                else:
                    b = v.copy()
                return v, b

            if op == "set":
                i = index(o[1])
                v, b = rows(len(full[i]) if isinstance(i, slice) or i is Ellipsis else 1, o[2], o[3])
                if isinstance(i, slice) and i.step not in (None, 1):
                    raises(lambda: ds.__setitem__(i, b), what)
                    continue
                if o[1][0] == "int" and not -n <= int(i) < n:
                    raises(lambda: ds.__setitem__(i, b), what)
                    check(what)
                    continue
                if o[4]:
                    l = max(0, len(v) + o[4])
                    if l != len(v):
                        v, b = rows(l, o[2], o[3])
                        raises(lambda: ds.__setitem__(i, b), "%s: another length" % what)
                        check(what)
                        ctx.tag("refused")
                        continue
                ds[i] = b
                need(same(np.array(b), v), "%s changed its argument", what)
                sl = slice(int(i), int(i) + 1 if int(i) != -1 else None) if o[1][0] == "int" else i
                for x in names:
                    M[x][sl] = v[x]
                ctx.nontrivial()
            elif op == "write":
                st = o[1] % (n + 1)
                v, b = rows(min(o[4], n - st), o[2], o[3])
                ds.write(st, b)
                for x in names:
                    M[x][st:st + len(v)] = v[x]
                ctx.nontrivial()
            elif op == "beyond":
                v, b = rows(o[4] + 1, o[2], o[3])
                raises(lambda: ds.write(max(0, n - o[4]), b) if n >= o[4] else ds.write(n, b), what)
                ctx.tag("refused")
            else:
                v, b = rows(o[4], o[2], o[3])
                nf = o[1]
                if nf == 0 and len(v):
                    raises(lambda: ds.append(b, 0), what)
                    raises(lambda: ds.append(b, -1), what)
                else:
                    before = [f[x].Nfile for x in names]
                    ds.append(b, nf)
                    for x in names:
                        M[x] = np.concatenate([M[x], v[x]]).astype(M[x].dtype)
                    need([f[x].Nfile - nf for x in names] == before, "%s: numbers of files", what)
                need(ds.size == len(M[names[0]]) and ds.shape == (ds.size,), "%s: size %d", what, ds.size)
                ctx.tag("append")
            check(what)
            full = struct(names)
            need(same(ds[:], full), "%s: the dataset differs from numpy's", what)
        elif op == "wrong":
            # another dtype is refused
            v = np.zeros(min(n, 2), [(x, "<i2" if M[x].dtype != "<i2" else "<i8") for x in names])
            raises(lambda: ds.__setitem__(slice(0, len(v)), v), what)
            raises(lambda: ds.append(v), what)
            raises(lambda: ds.write(0, v), what)
            v = np.zeros((1, 1), full.dtype)
            raises(lambda: ds.append(v), what)
            check(what)
        need(ds.dtype == full.dtype and ds.size == len(M[names[0]]), "%s: dtype %s size %s", what, ds.dtype, ds.size)
    check("at the end")
    bigfile.set_buffer_size(DEFAULT)
