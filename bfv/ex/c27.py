"""threads on handles of their own: every operation succeeds and gives what the thread's own history says"""
import os, subprocess
import numpy as np
from .. import fmt
from ..worker import Fail

M = (1 << 64) - 1


def need(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def values(seed, n):
    with np.errstate(over="ignore"):
        z = np.uint64((seed << 20) & M) + np.arange(n, dtype=np.uint64) + np.uint64(0x9E3779B97F4A7C15)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        z = z ^ (z >> np.uint64(31))
    return (z % np.uint64(1000)).astype("i8")


def fnv(v):
    h = 1469598103934665603
    for x in v.ravel().tolist():
        h = ((h ^ (x & M)) * 1099511628211) & M
    return h


class Blk:
    def __init__(self, dt, nm, fs):
        self.dt, self.nm, self.fs = dt, nm, list(fs)
        self.v = np.zeros((sum(fs), nm), "i8")
        self.n = np.zeros(sum(fs), "i4")
        self.attrs = {}


BAD = {"badopen", "badfile", "badtype", "badseek", "badread", "badwrite", "badattr"}


def run(case, ctx):
    root = ctx.dir + "/r"
    os.makedirs(root)
    # a block that everyone reads
    sv = values(77, 40 * 2).reshape(40, 2)
    fmt.write_block(root + "/shared", "<f4", 2, [13, 0, 27], sv.astype("<f4").tobytes(), {b"s": ("<i4", 3, values(5, 3).astype("<i4").tobytes())})
    shared = Blk("<f4", 2, [13, 0, 27])
    shared.v = sv
    shared.attrs["s"] = ("<i4", values(5, 3))
    rounds = case["rounds"]
    nt = case["nt"]
    script = ["%s %d %d %d %d" % (root, nt, case["shared"], case["buf"], case["jitter"])]
    expect = []
    disk = {}
    contended = False
    for t in range(nt):
        slots, lines, exp = {}, [], []

        def emit(op, slot=0, name="-", dt="-", a=0, b=0, c=0, fs=(), want=None):
            """want: (bad?, hash or None)"""
            lines.append("%s %d %s %s %d %d %d %d %s" % (op, slot, name, dt, a, b, c, len(fs), " ".join(map(str, fs))))
            exp.append((op, name, op in BAD, want))

        for r, rd in enumerate(rounds):
            if r:
                emit("barrier")
            for o in rd["ops"][t] if t < len(rd["ops"]) else []:
                k, s = o[0], o[1]
                bl = slots.get(s)
                if k == "create":
                    name = "%s/t%d_%d" % (o[2] + str(r), t, s) if o[2] else "t%d_%d_%d" % (t, s, r)
                    if o[2]:
                        name = "/".join([o[2] + str(r)] * o[6] + ["t%d_%d" % (t, s)])
                    if bl or name in disk:
                        continue
                    dt, nm, fs = o[3], o[4], o[5]
                    emit("create", s, name, dt, nm, fs=fs)
                    bl = slots[s] = (name, Blk(dt, nm, fs))
                    disk[name] = bl[1]
                    if bl[1].v.size:
                        emit("write", s, dt=dt, a=0, b=len(bl[1].v), c=t * 100 + r)
                        bl[1].v[:] = values(t * 100 + r, bl[1].v.size).reshape(bl[1].v.shape)
                        bl[1].n += 1
                elif k == "badopen":
                    emit(k, name="no%d" % o[2])
                elif k == "badfile":
                    emit(k, name="no%d" % o[2])
                elif k == "badtype":
                    emit(k, name="bad%d_%d" % (t, len(lines)))
                elif k == "msg":
                    emit(k, name="message%d" % t)
                elif k == "shared":
                    emit("open", 3, "shared")
                    a = o[2] % 40
                    n = min(o[3], 40 - a)
                    emit("read", 3, dt=o[4], a=a, b=n, want=fnv(sv[a:a + n]))
                    emit("getattr", 3, "s", "<f8", 3, want=fnv(shared.attrs["s"][1]))
                    emit("close", 3)
                elif bl is None:
                    continue
                else:
                    name, m = bl
                    size = len(m.v)
                    if k == "write" and size:
                        a = o[2] % size
                        n = min(o[3], size - a)
                        emit("write", s, dt=o[4], a=a, b=n, c=o[5])
                        m.v[a:a + n] = values(o[5], n * m.nm).reshape(n, m.nm)
                        m.n[a:a + n] += 1
                    elif k == "read" and size:
                        a = o[2] % size
                        n = min(o[3], size - a)
                        emit("read", s, dt=o[4], a=a, b=n, want=fnv(m.v[a:a + n]))
                    elif k == "grow":
                        emit("grow", s, fs=o[2])
                        g = sum(o[2])
                        m.fs += o[2]
                        m.v = np.vstack([m.v, np.zeros((g, m.nm), "i8")])
                        m.n = np.append(m.n, np.zeros(g, "i4"))
                        if g:
                            emit("write", s, dt="<i8", a=size, b=g, c=o[3])
                            m.v[size:] = values(o[3], g * m.nm).reshape(g, m.nm)
                            m.n[size:] += 1
                    elif k == "attr":
                        emit("setattr", s, o[2], o[3], o[4], c=o[5])
                        m.attrs[o[2]] = (o[3], values(o[5], o[4]))
                    elif k == "getattr":
                        if o[2] in m.attrs:
                            v = m.attrs[o[2]][1]
                            emit("getattr", s, o[2], o[3], len(v), want=fnv(v))
                        else:
                            emit("badattr", s, o[2])
                        emit("nattr", s, want=len(m.attrs))
                    elif k == "rmattr" and o[2] in m.attrs:
                        emit("rmattr", s, o[2])
                        del m.attrs[o[2]]
                    elif k == "flush":
                        emit("flush", s)
                    elif k == "reopen":
                        emit("close", s)
                        emit("open", s, name)
                        emit("size", s, want=size)
                    elif k == "list":
                        emit("list", s, name, want=1)
                    elif k == "badseek":
                        emit("badseek", s, a=size + 1 + o[2])
                    elif k == "badread" and size:
                        emit("badread", s, dt="<S3", a=0, b=1)
                    elif k == "badwrite":
                        emit("badwrite", s, dt="<i4", a=size, b=2)
            if rd.get("crowd"):
                contended = True
        for s in slots:
            emit("close", s)
        expect.append(exp)
        script.append("%d\n%s" % (len(lines), "\n".join(lines)))
    kind = case["san"]
    e = dict(os.environ)
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_signal_unsafe=0"
    p = subprocess.Popen([os.path.join(os.environ["BFV_THREADS"], kind)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    try:
        out, err = p.communicate(("\n".join(script) + "\n").encode(), 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise Fail("the threads did not end within 60 s")
    err = err.decode(errors="replace")
    if "FATAL: ThreadSanitizer" in err and "memory mapping" in err:
        ctx.tag("no-tsan")
        return
    need("ThreadSanitizer" not in err, "threads race:\n%s", err[:5000])
    need("AddressSanitizer" not in err, "memory error in threads:\n%s", err[:5000])
    need(p.returncode == 0, "threads ended with %d\n%s", p.returncode, err[:3000])
    lines = out.decode().split("\n")
    i = 0
    nbad = 0
    for t, exp in enumerate(expect):
        for j, (op, name, bad, want) in enumerate(exp):
            f = lines[i].split()
            i += 1
            need(f[0] == str(t) and f[1] == str(j), "output %s", f)
            if op == "barrier":
                continue
            rc, h = int(f[2]), int(f[3])
            if bad:
                nbad += 1
                need(rc != 0, "thread %d: %s returns 0, it must fail", t, op)
            else:
                need(rc == 0, "thread %d: %s of %s fails (operation %d), although its handles are its own", t, op, name, j)
                need(want is None or h == want, "thread %d: %s of %s (operation %d) gives %d, alone it gives %d", t, op, name, j, h, want)
    for name, m in disk.items():
        b = fmt.read_block(root + "/" + name)
        need(b["dt"] == m.dt and b["nm"] == m.nm and b["fs"] == m.fs, "block %s is %s %d %s, should be %s %d %s", name, b["dt"], b["nm"], b["fs"], m.dt, m.nm, m.fs)
        need(b["data"] == m.v.astype(m.dt).tobytes(), "block %s does not have the contents its thread wrote", name)
        got = {k: v for k, v in b["attrs"].items()}
        want = {k.encode(): (d, len(v), v.astype(d).tobytes()) for k, (d, v) in m.attrs.items()}
        need(got == want, "block %s has attributes %s, should have %s", name, got, want)
        if (m.n <= 1).all():
            need(b["ck"] == [sum(x) & 0xffffffff for x in b["raw"]], "checksums of block %s", name)
    b = fmt.read_block(root + "/shared")
    need(b["data"] == sv.astype("<f4").tobytes(), "the shared block changed")
    ctx.tag(kind)
    if nbad:
        ctx.tag("errors")
    if contended:
        ctx.tag("contended")
    ctx.nontrivial(sum(1 for x in expect if len(x) > 1) >= 2)
