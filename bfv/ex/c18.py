"""Python attributes against a dictionary of what was assigned"""
import numpy as np
import bigfile
from .. import fmt
from .pylib import *


class Opaque:
    pass


def make(v):
    """-> the value to assign, what reading it gives"""
    k = v[0]
    if k == "text":
        x = np.str_(v[1]) if v[2] else v[1]
        return x, str(x)
    if k == "long":
        a = ["x" * v[1], "y"][:1 + v[2] % 2]
        if v[1] > 99999:
            return a, None
        return (np.array([s.encode() for s in a]) if v[2] == 2 else a), a
    if k == "strs":
        x = v[1]
        if v[2] == "bytes":
            a = [s.encode() for s in x]
        elif v[2] == "npbytes":
            a = np.array([s.encode() for s in x])
        elif v[2] == "array":
            a = np.array(x)
        elif v[2] == "swapped":
            a = np.array(x)
            a = a.astype(a.dtype.newbyteorder())
        elif v[2] == "2d":
            a = [x, x]
        elif v[2] == "onebytes":
            a = x[0].encode()
            x = x[:1]
        else:
            a = list(x)
        want = [s.rstrip("\0") for s in x] * (2 if v[2] == "2d" else 1)
        return a, want
    _, dt, shape, seed, form = v
    n = 1
    for s in shape:
        n *= s
    a = data(seed, n, dt).reshape(shape)
    if form == "scalar":
        a = a.ravel()[:1]
        a = a[0] if len(a) else a
    elif form == "py":
        a = data(seed, 1, np.dtype(dt), dt[1] in "iu" and int(dt[2:]) < 8).tolist()[0] if dt[2:] != "16" or dt[1] == "c" else 1.5
    elif form == "list":
        a = a.tolist() if dt[1:] != "f16" else [1.25] * n
    elif form == "tuple":
        a = tuple(data(seed, n, dt, True).tolist()) if dt[1:] != "f16" else (2, 3)
    elif form == "0d":
        a = data(seed, 1, dt)[0:1].reshape(())
    elif form == "T":
        a = np.ascontiguousarray(a.T).T
    elif form != "array":
        a = layout(a.ravel(), form)
    return a, np.array(a).ravel()


def equal(got, want):
    if isinstance(want, str):
        return type(got) is str and got == want
    if isinstance(want, list):
        return isinstance(got, list) and got == want and all(isinstance(x, str) for x in got)
    return isinstance(got, np.ndarray) and same(got, want)


def run(case, ctx):
    root = ctx.dir + "/r"
    f = bigfile.File(root, create=True)
    names = case["blocks"]
    cols, model, held = {}, {}, {}
    for b in names:
        cols[b] = f.create(b) if case["blocks"][b] is None else f.create(b, case["blocks"][b], 3, 2)
        model[b] = {}
        held[b] = cols[b].attrs
    path = {b: root + "/" + b if b != "." else root for b in names}

    def compare(at, m, what):
        need(at.keys() == sorted(m), "%s: keys are %r, expected %r", what, at.keys(), sorted(m))
        need(list(at) == sorted(m), "%s: iteration gives %r", what, list(at))
        for n in m:
            need(n in at, "%s: %r is not in the attributes", what, n)
            for i in range(2):
                got = at[n]
                need(equal(got, m[n]), "%s: attribute %r reads %r, was assigned %r", what, n, got, m[n])
        repr(at)

    def reopen(b, how):
        c = cols[b]
        if how == 0:
            c.flush()
        elif how == 1:
            c.close()
        elif how == 2:
            with c:
                pass
        else:
            cols[b] = held[b] = c = None
        d = fmt.read_attrs(path[b])
        need(sorted(d) == sorted(x.encode() for x in model[b]), "%s: attributes on disk %r", what, sorted(d))
        for n, v in model[b].items():
            dt, nm, raw = d[n.encode()]
            if isinstance(v, str):
                need(raw == v.encode() and dt[1:] in ("a1", "S1"), "%s: text %r on disk is %r", what, v, d[n.encode()])
            elif isinstance(v, list):
                w = fmt.width(dt)
                need(dt[1] == "S" and [raw[i:i + w].rstrip(b"\0").decode() for i in range(0, len(raw), w)] == v, "%s: strings %r on disk are %r", what, v, d[n.encode()])
            else:
                need(np.dtype(dt) == v.dtype and canon(np.frombuffer(raw, dt)) == canon(v), "%s: %r on disk is %r", what, v, d[n.encode()])
        cols[b] = bigfile.File(root).open(b)
        held[b] = cols[b].attrs

    k = 0
    for o in case["ops"]:
        k += 1
        what = "operation %d (%s)" % (k, str(o)[:300])
        op = o[0]
        b = sorted(names)[o[1] % len(names)]
        at = held[b] if k % 2 else cols[b].attrs
        m = model[b]
        if op == "set":
            v, want = make(o[3])
            if want is None:
                raises(lambda: at.__setitem__(o[2], v), what)
                compare(at, m, what)
                ctx.tag("refused")
                continue
            keep = v.copy() if isinstance(v, np.ndarray) else None
            at[o[2]] = v
            need(keep is None or same(keep, v), "%s changed its argument", what)
            m[o[2]] = want
            got = at[o[2]]
            need(equal(got, want), "%s: reads back %r, was assigned %r", what, got, want)
            ctx.tag(o[3][0])
            ctx.nontrivial()
        elif op == "get":
            if o[2] in m:
                got = at[o[2]]
                need(equal(got, m[o[2]]), "%s: reads %r, was assigned %r", what, got, m[o[2]])
                if isinstance(got, np.ndarray) and got.size:
                    # the array is the caller's
                    got.view("u1")[:] = 77
                    need(equal(at[o[2]], m[o[2]]), "%s: changing what was returned changed the attribute", what)
            else:
                e = raises(lambda: at[o[2]], what)
                need(isinstance(e, KeyError), "%s raised %r", what, e)
                need(o[2] not in at, "%s: missing but a member", what)
        elif op == "del":
            if o[2] in m:
                del at[o[2]]
                del m[o[2]]
                ctx.tag("delete")
            else:
                e = raises(lambda: at.__delitem__(o[2]), what)
                need(isinstance(e, KeyError), "%s raised %r", what, e)
            need(o[2] not in at, "%s: still there", what)
        elif op == "bad":
            v = {"none": None, "object": Opaque(), "dict": {"a": 1}, "list": [None, 1], "big": [2**70], "array": np.array([1, "a"], dtype=object), "ragged": [[1, 2], [3]], "set": {1}}[o[3]]
            raises(lambda: at.__setitem__(o[2], v), what)
            compare(at, m, what)
            ctx.tag("refused")
        elif op == "blank":
            v, want = make(o[3])
            raises(lambda: at.__setitem__(o[2], v), what)
            need(o[2] not in at, "%s: a member", what)
            compare(at, m, what)
            ctx.tag("refused")
        elif op == "append":
            if case["blocks"][b] is not None:
                cols[b].append(np.zeros((2,) + np.dtype(case["blocks"][b]).shape, np.dtype(case["blocks"][b]).base))
        elif op == "reopen":
            at = None
            reopen(b, o[2])
            ctx.tag("reopen")
        at = held[b]
        compare(cols[b].attrs, m, what)
    for b in names:
        what = "at the end"
        at = None
        reopen(b, case["end"])
        compare(cols[b].attrs, model[b], "after reopening " + b)
        compare(held[b], model[b], "after reopening " + b)
