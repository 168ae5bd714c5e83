"""Python columns against numpy arrays"""
import numpy as np
import bigfile
from .pylib import *


class Mod:
    """a column and the array it must equal"""

    def __init__(self, name, col, m):
        self.name, self.col, self.m = name, col, m


def full(dt, nm):
    return (dt, (nm,)) if nm != 1 else dt


def shape(n, nm):
    return (n, nm) if nm != 1 else (n,)


def index(x):
    k = x[0]
    if k == "slice":
        return slice(*x[1:])
    if k == "int":
        return {"py": int, "i8": np.int64, "u1": np.uint8, "i1": np.int8, "u8": np.uint64}[x[2]](x[1])
    if k == "all":
        return Ellipsis
    return {"none": None, "float": 1.5, "str": "x", "list": [0, 1], "tuple": (0, 1), "array": np.array([0, 1]), "mask": np.array([True]), "tup1": (slice(0, 1),)}[x[1]]


def run(case, ctx):
    root = ctx.dir + "/r"
    bigfile.set_buffer_size(case["buf"] or DEFAULT)
    f = bigfile.File(root, create=True)
    cols = []
    k = 0
    for o in case["ops"]:
        op = o[0]
        k += 1
        what = "operation %d (%s)" % (k, o)
        if op == "create":
            _, dt, nm, n, nfile, how, seed, tup = o
            name = "b%d" % len(cols)
            m = data(seed, n * nm, dt).reshape(shape(n, nm))
            t = full(dt, nm) if not (nm == 1 and tup) else (dt, (1,))
            c = f.create(name, t, n, nfile)
            need(c.size == n and c.Nfile == nfile and c.dtype == np.dtype(full(dt, nm)), "%s: size %d, files %d, type %s", what, c.size, c.Nfile, c.dtype)
            if n or how != "c":
                c.write(0, layout(m, how))
            cols.append(Mod(name, c, m))
        elif op == "fromarray":
            _, dt, nm, n, nfile, how, seed, lim, d2 = o
            name = "b%d" % len(cols)
            m = data(seed, n * nm, dt).reshape(shape(n, nm))
            a = m.reshape(n, nm) if d2 else m
            row = m.dtype.itemsize * nm
            limit = {"row": row, "row1": row + row // 2 + 1, "k": row * 3, "1023": row * 1023, "1024": row * 1024, "1025": row * 1025, "2100": row * 2100}.get(lim)
            kw = {} if limit is None else {"memorylimit": limit}
            c = f.create_from_array(name, layout(a, how), Nfile=nfile, **kw)
            need(c.size == n and (nfile is None or c.Nfile == nfile), "%s: size %d, files %d", what, c.size, c.Nfile)
            cols.append(Mod(name, c, m))
            ctx.tag("fromarray")
        elif op == "zeros":
            e = raises(lambda: f.create("zero", "f8", 3, 0), what)
            e = raises(lambda: f.create("neg", "f8", 3, -1), what)
            need("zero" not in f.blocks and "neg" not in f.blocks, "%s: blocks %s", what, f.blocks)
        elif op == "meta":
            c = f.create("meta%d" % k)
            need(c.size == 0, "%s: a block without type has size %d", what, c.size)
        elif not cols:
            continue
        else:
            M = cols[o[1] % len(cols)]
            c, m = M.col, M.m
            n = len(m)
            nm = m.shape[1] if m.ndim > 1 else 1
            if op == "write" and n:
                _, _, start, cnt, how, seed, dt = o
                start %= n
                cnt = min(cnt, n - start)
                if dt is None:
                    v = data(seed, cnt * nm, m.dtype).reshape(shape(cnt, nm))
                else:
                    if (m.dtype.kind + str(m.dtype.itemsize)) not in ("i4", "u4", "i8", "u8", "f4", "f8"):
                        continue
                    v = data(seed, cnt * nm, dt, True).reshape(shape(cnt, nm))
                    ctx.tag("converted")
                b = layout(v, how)
                keep = b.tobytes()
                c.write(start, b)
                need(b.tobytes() == keep, "%s changed its argument", what)
                m[start:start + cnt] = v
            elif op == "beyond":
                v = data(1, (o[2] + 1) * nm, m.dtype).reshape(shape(o[2] + 1, nm))
                raises(lambda: c.write(n - o[2], v) if o[2] <= n else c.write(n + 1, v), what)
            elif op == "append":
                _, _, cnt, nfile, how, seed = o
                v = data(seed, cnt * nm, m.dtype).reshape(shape(cnt, nm))
                if nfile == 0 and cnt:
                    raises(lambda: c.append(v, 0), what)
                    raises(lambda: c.append(v, -1), what)
                    need(c.size == n, "%s: the refused append changed the size to %d", what, c.size)
                    continue
                before = c.Nfile
                c.append(layout(v, how), nfile)
                M.m = np.concatenate([m, v]).astype(m.dtype)
                need(c.size == n + cnt and c.Nfile == before + nfile, "%s: size %d, files %d after appending %d rows in %d files to %d rows in %d files", what, c.size, c.Nfile, cnt, nfile, n, before)
                need(f.open(M.name).size == n + cnt, "%s: the appended rows are not on disk", what)
                ctx.tag("append")
            elif op == "read":
                _, _, start, cnt, how = o
                start %= n + 1
                want = m[start:start + cnt] if cnt >= 0 else m[start:]
                if how is None:
                    got = c.read(start, cnt)
                else:
                    fill = data(9, len(want) * nm, m.dtype).reshape(want.shape)
                    out = layout(fill, how if how != "readonly" else "c")
                    got = c.read(start, cnt if cnt >= 0 else -1, out) if len(want) == cnt or cnt < 0 else c.read(start, len(want), out)
                    need(got is out, "%s does not return its argument", what)
                need(same(np.asarray(got), want), "%s: read differs", what)
            elif op == "get":
                i = index(o[2])
                if o[2][0] == "bad" or isinstance(i, slice) and i.step not in (None, 1):
                    raises(lambda: c[i], "%s: indexing with %r" % (what, i))
                    ctx.tag("refused")
                    continue
                if o[2][0] == "int" and not -n <= int(i) < n:
                    raises(lambda: c[i], "%s: index out of range" % what)
                    continue
                j = int(i) if o[2][0] == "int" else i
                want = m[j]
                got = c[i]
                need(isinstance(got, type(want)) or isinstance(got, np.generic) == isinstance(want, np.generic), "%s: a %s, numpy gives a %s", what, type(got), type(want))
                need(same(np.asarray(got), np.asarray(want)), "%s: [%r] gives %r, numpy gives %r", what, i, got, want)
                ctx.nontrivial()
            elif op == "set":
                i = index(o[2])
                if o[2][0] == "bad" or isinstance(i, slice) and i.step not in (None, 1):
                    v = data(o[4], 2 * nm, m.dtype).reshape(shape(2, nm))
                    raises(lambda: c.__setitem__(i, v), "%s: assigning to %r" % (what, i))
                    need(same(c[:], m), "%s: the refused assignment changed the column", what)
                    continue
                if o[2][0] == "int":
                    v = data(o[4], nm, m.dtype).reshape(shape(1, nm))
                    if nm != 1 and o[5]:
                        v = v[0]
                    if not -n <= int(i) < n:
                        raises(lambda: c.__setitem__(i, v), "%s: index out of range" % what)
                        need(same(c[:], m), "%s: the refused assignment changed the column", what)
                        continue
                    c[i] = layout(v, o[3]) if v.ndim == 1 or nm != 1 and not o[5] else v
                    m[int(i)] = v[0] if not (nm != 1 and o[5]) else v
                else:
                    a = m[i]
                    if o[6]:
                        # other lengths are refused
                        l = len(a) + o[6]
                        if l < 0:
                            continue
                        v = data(o[4], l * nm, m.dtype).reshape(shape(l, nm))
                        raises(lambda: c.__setitem__(i, v), "%s: assigning %d rows to %d" % (what, l, len(a)))
                        need(same(c[:], m), "%s: the refused assignment changed the column", what)
                        continue
                    v = data(o[4], len(a) * nm, m.dtype).reshape(a.shape)
                    c[i] = layout(v, o[3])
                    m[i] = v
                need(same(c[:], m), "%s: the column differs from numpy's after the assignment", what)
                ctx.nontrivial()
            elif op == "reopen":
                if o[2] == 0:
                    c.flush()
                    M.col = f[M.name]
                elif o[2] == 1:
                    c.close()
                    M.col = bigfile.File(root).open(M.name)
                elif o[2] == 2:
                    with c:
                        pass
                    M.col = f.open(M.name)
                else:
                    # the same object, after a failed open
                    c.flush()
                    raises(lambda: c.open(f, "missing"), what)
                    c.open(f, M.name)
                c = M.col
                need(c.size == n and c.dtype == np.dtype(full(m.dtype, nm)), "%s: size %d, type %s", what, c.size, c.dtype)
            elif op == "other":
                # another handle reads what this one wrote
                c2 = bigfile.File(root).open(M.name)
                need(same(c2[:], m), "%s: another handle reads other rows", what)
            elif op == "closefile":
                for x in cols:
                    x.col.close()
                f.close()
                f = bigfile.File(root)
                for x in cols:
                    x.col = f[x.name]
    need(sorted(f.blocks) == sorted([x.name for x in cols] + [b for b in f.blocks if b.startswith("meta")]), "blocks: %s", f.blocks)
    for x in cols:
        need(same(x.col[:], x.m), "column %s differs from numpy's at the end", x.name)
        x.col.close()
        on_disk(root, x.name, x.m, "at the end")
    bigfile.set_buffer_size(DEFAULT)
