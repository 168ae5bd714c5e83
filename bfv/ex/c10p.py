"""faults of the operating system under the Python binding: an exception, or everything is done"""
import os, resource
import numpy as np
import bigfile
from .. import fmt
from .pylib import *


class Fault:
    def __init__(self, root, side, kind, name, target, k):
        self.kind, self.name, self.target = kind, name, target
        if kind == "fsize":
            self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, self.old[1]))
            return
        block = root + "/" + name
        self.path = fmt.datafile(block, target) if isinstance(target, int) else block + "/" + target
        self.side = side
        self.had = os.path.lexists(self.path)
        if kind == "trunc":
            with open(self.path, "rb") as f:
                self.content = f.read()
            self.k = min(k, len(self.content))
            os.truncate(self.path, self.k)
            return
        if self.had:
            os.rename(self.path, side)
        if kind == "dir":
            os.mkdir(self.path)

    def lift(self):
        """-> the file holds what it held before"""
        if self.kind == "fsize":
            resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
            return True
        if self.kind == "trunc":
            with open(self.path, "rb") as f:
                now = f.read()
            with open(self.path, "wb") as f:
                f.write(self.content)
            return now == self.content[:self.k]
        if self.kind == "dir":
            os.rmdir(self.path)
        elif os.path.lexists(self.path):
            return False
        if self.had:
            os.rename(self.side, self.path)
        return True


class Col:
    def __init__(self, name, m, fs):
        self.name, self.m, self.fs = name, m, fs
        self.known = np.ones(len(m), bool)
        self.attrs = {}
        self.h = None
        self.rows = self.meta = False    # what a flush has to store
        self.dead = False

    def bounds(self, i):
        s = sum(self.fs[:i])
        return s, s + sum(self.fs[i:i + 1])


def run(case, ctx):
    root = ctx.dir + "/r"
    side = ctx.dir + "/side"
    bigfile.set_buffer_size(case["buf"] or DEFAULT)
    f = bigfile.File(root, create=True)
    cols = {}
    fault = None

    def header(c, what):
        h = fmt.read_header(root + "/" + c.name)
        nm = c.m.shape[1] if c.m.ndim > 1 else 1
        for i in range(len(c.fs)):
            gone = fault is not None and fault.name == c.name and fault.target == i and fault.kind in ("dir", "missing") and fault.had
            need(gone or os.path.isfile(fmt.datafile(root + "/" + c.name, i)), "%s was reported as done, file %d of %s does not exist", what, i, c.name)
        need(h["dt"] == c.m.dtype.str.replace("|", "<") and h["nm"] == nm and h["fs"] == c.fs, "%s was reported as done, the header of %s is %r, should be %s %d %r", what, c.name, h, c.m.dtype.str, nm, c.fs)

    def attrs(c, what):
        a = fmt.read_attrs(root + "/" + c.name)
        got = {k.decode(): (v[0], v[2]) for k, v in a.items()}
        want = {k: (v.dtype.str.replace("|", "<"), v.tobytes()) for k, v in c.attrs.items()}
        need(got == want, "%s was reported as done, the attributes of %s on disk are %s, should be %s", what, c.name, sorted(got), sorted(want))

    def rows(c, start, end, what):
        """the rows are in the files"""
        row = c.m.dtype.itemsize * (c.m.shape[1] if c.m.ndim > 1 else 1)
        for i in range(len(c.fs)):
            a, b = c.bounds(i)
            lo, hi = max(a, start), min(b, end)
            if lo < hi:
                try:
                    with open(fmt.datafile(root + "/" + c.name, i), "rb") as g:
                        g.seek((lo - a) * row)
                        got = g.read((hi - lo) * row)
                except OSError as e:
                    got = b""
                    need(False, "%s was reported as done, file %d of %s: %s", what, i, c.name, e)
                w = c.m[lo:hi]
                need(len(got) == w.nbytes, "%s was reported as done, file %d of %s has %d of %d bytes", what, i, c.name, len(got), w.nbytes)
                g = np.frombuffer(got, c.m.dtype).reshape(w.shape)
                k = c.known[lo:hi]
                need(canon(g[k]) == canon(w[k]), "%s was reported as done, rows %d to %d of %s are others on disk", what, lo, hi, c.name)

    def lost(c, start, end):
        """rows in the range that no read can give now"""
        if fault is None or fault.name != c.name or not isinstance(fault.target, int) or fault.kind == "fsize":
            return False
        a, b = c.bounds(fault.target)
        lo, hi = max(a, start), min(b, end)
        row = c.m.dtype.itemsize * (c.m.shape[1] if c.m.ndim > 1 else 1)
        p = fault.path
        if lo >= hi:
            return False
        if not os.path.isfile(p):
            return True
        return os.path.getsize(p) < (hi - a) * row

    def stored(c, start, v, ok):
        cnt = len(v)
        c.m[start:start + cnt] = v
        if fault is not None and fault.name == c.name and fault.kind in ("trunc", "missing") and isinstance(fault.target, int):
            a, b = c.bounds(fault.target)
            if max(a, start) < min(b, start + cnt):
                # holes before what is written to a short file
                c.known[a:b] = False
        c.known[start:start + cnt] = ok

    def attempt(fn, what, may=False):
        """-> (done, result)"""
        try:
            r = fn()
        except bigfile.Error as e:
            need(fault is not None or may, "%s raised %r with no fault in place", what, e)
            need(len(e.args) == 1 and len(e.args[0]) > 0, "%s raised %r without a message", what, e)
            ctx.nontrivial()
            ctx.tag("failed:" + what.split("(")[1].split(",")[0].strip("[')]"))
            return False, None
        return True, r

    def handle(c, what):
        if c.h is None and not c.dead:
            ok, h = attempt(lambda: f[c.name], what)
            if not ok:
                return None
            c.h = h
            need(h.size == len(c.m), "%s: opened with %d rows, should be %d", what, h.size, len(c.m))
        return None if c.dead else c.h

    def flushed(c, ok, what):
        if ok:
            if c.rows:
                header(c, what)
            if c.meta:
                attrs(c, what)
            c.rows = c.meta = False

    def lift():
        nonlocal fault
        if fault:
            same_ = fault.lift()
            c = cols.get(fault.name)
            if not same_ and c is not None and isinstance(fault.target, int):
                a, b = c.bounds(fault.target)
                c.known[a:b] = False
            fault = None

    def make(o, what):
        _, name, dt, nm, n, nfile, seed, how = o
        nfile = max(nfile, 1 if n else 0)
        m = data(seed, n * nm, dt).reshape((n, nm) if nm != 1 else (n,))
        t = (dt, (nm,)) if nm != 1 else dt
        if how == "array":
            ok, h = attempt(lambda: f.create_from_array(name, m, Nfile=nfile, memorylimit=max(m.dtype.itemsize * nm * 3, 1)), what)
        else:
            ok, h = attempt(lambda: f.create(name, t, n, nfile), what)
        if not ok:
            return
        fs = [(i + 1) * n // nfile - i * n // nfile for i in range(nfile)]
        c = Col(name, m, fs)
        need(h.size == n and h.Nfile == nfile, "%s gave %d rows in %d files", what, h.size, h.Nfile)
        header(c, what)
        for i in range(nfile):
            need(os.path.isfile(fmt.datafile(root + "/" + name, i)), "%s was reported as done, file %d is missing", what, i)
        if how == "array":
            rows(c, 0, n, what)
        else:
            c.known[:] = False
        c.h = h
        cols[name] = c

    try:
        k = 0
        ds = None
        for o in case["ops"]:
            k += 1
            what = "operation %d (%s)" % (k, o)
            op = o[0]
            if op == "create":
                if o[1] not in cols and (o[1] != "z" or fault):
                    make(o, what)
                continue
            if op == "lift":
                lift()
                continue
            if op == "fault":
                _, kind, which, target, kk = o
                lift()
                c = cols.get(which)
                if kind != "fsize" and c is None:
                    continue
                if isinstance(target, int) and kind != "fsize":
                    if not c.fs:
                        continue
                    # 5 and 6 are in the way of files to come
                    target = len(c.fs) + target - 5 if target > 4 and kind == "dir" else target % len(c.fs)
                if kind == "trunc" and not isinstance(target, int) or kind == "missing" and target == "attr-v2":
                    continue
                fault = Fault(root, side + str(k), kind, which, target, kk)
                continue
            if op in ("dsread", "dswrite", "dsappend"):
                names = sorted(x for x in cols if len(cols[x].m) == len(cols[sorted(cols)[0]].m) and not cols[x].dead) if cols else []
                # records go through blocks of their own
                if not names or any(cols[x].h is not None for x in names):
                    for x in names:
                        c = cols[x]
                        if c.h is None:
                            continue
                        ok, _ = attempt(c.h.close, what)
                        flushed(c, ok, what)
                        if not ok:
                            break
                        c.h = None
                    if not names or any(cols[x].h is not None for x in names):
                        continue
                ok, d = attempt(lambda: bigfile.Dataset(f, names), what)
                if not ok:
                    continue
                n = len(cols[names[0]].m)
                t = np.dtype([(x, cols[x].m.dtype, cols[x].m.shape[1:]) for x in names])
                if op == "dsread":
                    start = o[1] % (n + 1)
                    cnt = min(o[2], n - start)
                    ok, a = attempt(lambda: d[start:start + cnt], what, not all(cols[x].known[start:start + cnt].all() for x in names))
                    if ok:
                        for x in names:
                            c = cols[x]
                            need(not lost(c, start, start + cnt), "%s returned rows of %s that are not there", what, x)
                            s = c.known[start:start + cnt]
                            need(canon(a[x][s]) == canon(c.m[start:start + cnt][s]), "%s returned other rows of %s", what, x)
                    continue
                cnt = o[2]
                if op == "dswrite":
                    if not n:
                        continue
                    start = o[1] % n
                    cnt = min(cnt, n - start)
                else:
                    start = n
                a = np.zeros(cnt, t)
                for i, x in enumerate(names):
                    c = cols[x]
                    a[x] = data(o[3] + i, a[x].size, c.m.dtype).reshape(a[x].shape)
                if op == "dswrite":
                    ok, _ = attempt(lambda: d.write(start, a), what)
                    for x in names:
                        stored(cols[x], start, a[x], ok)
                        # the write opened and closed the blocks
                        cols[x].dead = not ok
                else:
                    nf = max(1, o[1] % 3)
                    ok, _ = attempt(lambda: d.append(a, nf), what)
                    for x in names:
                        c = cols[x]
                        if not ok:
                            c.dead = True
                            continue
                        c.m = np.concatenate([c.m, a[x]]).astype(c.m.dtype)
                        c.known = np.concatenate([c.known, np.ones(cnt, bool)])
                        c.fs = c.fs + [(i + 1) * cnt // nf - i * cnt // nf for i in range(nf)]
                if ok:
                    for x in names:
                        rows(cols[x], start, start + cnt, what)
                        header(cols[x], what)
                    ctx.tag(op)
                continue
            if o[1] not in cols:
                continue
            c = cols[o[1]]
            h = handle(c, what)
            if h is None:
                continue
            n = len(c.m)
            if op == "write" and n:
                start = o[2] % n
                cnt = min(o[3], n - start)
                v = data(o[4], int(np.prod((cnt,) + c.m.shape[1:])), c.m.dtype).reshape((cnt,) + c.m.shape[1:])
                ok, _ = attempt((lambda: h.__setitem__(slice(start, start + cnt), v)) if o[5] else (lambda: h.write(start, v)), what)
                stored(c, start, v, ok)
                if ok and cnt:
                    rows(c, start, start + cnt, what)
                    c.rows = True
            elif op == "read":
                start = o[2] % (n + 1)
                cnt = min(o[3], n - start)
                ok, a = attempt((lambda: h[start:start + cnt]) if o[4] else (lambda: h.read(start, cnt)), what, not c.known[start:start + cnt].all())
                if ok:
                    need(not lost(c, start, start + cnt), "%s returned rows that are not there", what)
                    s = c.known[start:start + cnt]
                    need(len(a) == cnt and canon(a[s]) == canon(c.m[start:start + cnt][s]), "%s returned other rows", what)
            elif op == "attr":
                v = data(o[4], o[3], "<i4")
                h.attrs[o[2]] = v
                c.attrs[o[2]] = v
                c.meta = True
            elif op == "rm" and o[2] in c.attrs:
                del h.attrs[o[2]]
                del c.attrs[o[2]]
                c.meta = True
            elif op == "append":
                cnt = o[2]
                nf = max(1, o[3])
                v = data(o[4], int(np.prod((cnt,) + c.m.shape[1:])), c.m.dtype).reshape((cnt,) + c.m.shape[1:])
                ok, _ = attempt(lambda: h.append(v, nf), what)
                if not ok:
                    c.dead = True
                    continue
                c.m = np.concatenate([c.m, v]).astype(c.m.dtype)
                c.known = np.concatenate([c.known, np.ones(cnt, bool)])
                c.fs = c.fs + [(i + 1) * cnt // nf - i * cnt // nf for i in range(nf)]
                rows(c, n, n + cnt, what)
                header(c, what)
                flushed(c, True, what)
                c.rows = cnt > 0
                ctx.tag("append")
            elif op in ("flush", "close", "with"):
                if op == "with":
                    def leave():
                        with h:
                            pass
                    ok, _ = attempt(leave, what)
                else:
                    ok, _ = attempt(h.flush if op == "flush" else h.close, what)
                flushed(c, ok, what)
                if ok and op == "close":
                    c.h = None
                    h = None
        # without faults everything can be stored
        lift()
        for name in sorted(cols):
            c = cols[name]
            if c.dead:
                c.h = None
                continue
            what = "at the end (flush, %s)" % name
            if c.h is not None:
                attempt(c.h.flush, what)
                c.h = None
            header(c, what)
            attrs(c, what)
            h = f[name]
            if c.known.all():
                need(same(h[:], c.m), "%s: other rows", what)
            else:
                for i in np.flatnonzero(c.known):
                    need(canon(h[i:i + 1]) == canon(c.m[i:i + 1]), "%s: other rows", what)
            need(sorted(h.attrs) == sorted(c.attrs) and all(same(h.attrs[x], v) for x, v in c.attrs.items()), "%s: other attributes", what)
            h = None
    finally:
        if fault is not None and fault.kind == "fsize":
            fault.lift()
