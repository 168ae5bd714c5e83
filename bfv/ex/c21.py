"""type strings, formatting and parsing against C printf and strtod and numpy's type strings"""
import ctypes as C, os, shutil
import numpy as np
from .. import fmt, lib as L
from ..lib import need, ok

libc = C.CDLL(None)
np.seterr(all="ignore")
CT = {"i4": C.c_int32, "u4": C.c_uint32, "i8": C.c_int64, "u8": C.c_uint64, "f4": C.c_double, "f8": C.c_double, "b1": C.c_int}
DEF = {"i4": "%d", "u4": "%u", "i8": "%ld", "u8": "%lu", "f4": "%g", "f8": "%g", "c8": "%g+%gI", "c16": "%g+%gI", "b1": "%d"}
MAXW = {"i4": 2**31 - 1, "u4": 2**32 - 1, "i8": 2**63 - 1, "u8": 2**64 - 1}


def printf(f, *a):
    buf = C.create_string_buffer(4000)
    libc.snprintf(buf, C.c_size_t(4000), f.encode(), *a)
    return buf.value


def parts(k, raw, e):
    """the C values of an element"""
    if k == "b1":
        return [C.c_int(np.frombuffer(raw, "i1")[0])]
    if k[0] == "c":
        v = np.frombuffer(raw, e + {"c8": "f4", "c16": "f8"}[k])
        return [C.c_double(float(x)) for x in v]
    v = np.frombuffer(raw, e + k)[0]
    return [CT[k](float(v) if k[0] == "f" else int(v))]


def do_format(dt, raw, f):
    out = L.Buf(1000).fill(0x41)
    src = L.Buf(raw)
    L.dtype_format(out.p, dt.encode(), src.p, f.encode() if f else None)
    return C.string_at(out.p)


def do_parse(text, dt, w, f=None):
    out = L.Buf(w).fill(0xA5)
    rt = L.dtype_parse(text, dt.encode(), out.p, f.encode() if f else None)
    return rt, out.bytes()


def bits(x):
    return x.replace(b"\x7f", b"")


def same(a, b, k, e):
    if a == b:
        return True
    if k[0] in "fc":
        t = {"f4": "f4", "f8": "f8", "c8": "f4", "c16": "f8"}[k]
        x, y = np.frombuffer(a, e + t), np.frombuffer(b, e + t)
        return bool(np.all((x == y) & (np.signbit(x) == np.signbit(y)) | (np.isnan(x) & np.isnan(y))))
    return False


def nearest(text, k):
    """what strtod makes of a number's text, in the type"""
    f = {"f4": "strtof", "c8": "strtof"}.get(k, "strtod")
    fn = getattr(libc, f)
    fn.restype = C.c_float if f == "strtof" else C.c_double
    return fn(C.c_char_p(text), None)


def value(c, ctx):
    dt = c["dt"]
    k, ec = dt.lstrip("<>=|"), ">" if dt[0] == ">" else "<"
    raw = bytes.fromhex(c["raw"])
    f = c["fmt"]
    got = do_format(dt, raw, f)
    a = parts(k, raw, ec)
    want = printf(f or DEF[k], *a)
    need(got == want, "%s %s formats as %r with %s, printf says %r", dt, raw.hex(), got, f, want)
    ctx.tag("format-" + k)
    if k == "b1":
        return
    if k[0] == "c" and np.isinf(a[1].value):
        return  # its text cannot be told from the letter I after it
    text = got
    if f and not c["back"]:
        return
    # and back, in every type that can hold the value
    for k2, e2 in c["to"]:
        if (k[0] == "c") != (k2[0] == "c"):
            continue
        w = int(k2[1:])
        e2c = ">" if e2 == ">" else "<"
        if k[0] in "iu" and k2[0] in "iu":
            v = int(text)
            lo = -MAXW[k2] - 1 if k2[0] == "i" else 0
            if not lo <= v <= MAXW[k2]:
                continue
            exp = int(v).to_bytes(w, "little" if e2c == "<" else "big", signed=k2[0] == "i")
        elif k2[0] in "iu":
            v = float(text)
            if not (abs(v) < 10**5 and v == int(v)) or (k2[0] == "u" and (v < 0 or np.signbit(v))):
                continue
            exp = int(v).to_bytes(w, "little" if e2c == "<" else "big", signed=k2[0] == "i")
        else:
            if k[0] == "c":
                re, im = printf(c["num"] or "%g", a[0]), printf(c["num"] or "%g", a[1])
                vals = [nearest(re, k2), nearest(im, k2)]
            else:
                vals = [nearest(text, k2)]
            exp = np.array(vals).astype(e2c + {"f4": "f4", "f8": "f8", "c8": "f4", "c16": "f8"}[k2]).tobytes()
        rt, back = do_parse(text, e2 + k2, w)
        need(rt == 0, "%r (from %s) cannot be parsed as %s", text, dt, e2 + k2)
        need(same(back, exp, k2, e2c), "%r parses as %s in %s, it is %s", text, back.hex(), e2 + k2, exp.hex())
        if k2 == k and (k[0] in "iu" or f):
            # enough digits were printed for the value itself
            orig = raw if e2c == ec else b"".join(x[::-1] for x in ([raw] if k[0] != "c" else [raw[:len(raw) // 2], raw[len(raw) // 2:]]))
            need(same(back, orig, k2, e2c), "%s %s comes back from %r as %s", dt, raw.hex(), text, back.hex())
        ctx.tag("parse-" + k2)
        ctx.nontrivial()


def junk(c, ctx):
    rt, out = do_parse(c["text"].encode(), c["dt"], 32)
    need(rt != 0, "%r was parsed as %s", c["text"], c["dt"])
    ctx.tag("not-a-number")
    ctx.nontrivial()


def digits(c, ctx):
    """correctly rounded once"""
    dt = c["dt"]
    k, e = dt.lstrip("<>="), ">" if dt[0] == ">" else "<"
    w = int(k[1:])
    text = "+".join(c["text"]).encode() + (b"I" if k[0] == "c" else b"")
    exp = np.array([nearest(x.encode(), k) for x in c["text"]]).astype(e + {"f4": "f4", "f8": "f8", "c8": "f4", "c16": "f8"}[k]).tobytes()
    rt, back = do_parse(text, dt, w)
    need(rt == 0, "%r cannot be parsed as %s", text, dt)
    need(back == exp, "%r parses as %s in %s, it is %s", text, back.hex(), dt, exp.hex())
    ctx.tag("digits-" + k)
    ctx.nontrivial()


def string(c, ctx):
    """prefixes, width and kind"""
    k, n = c["kind"], c["width"]
    base = "%s%d" % (k, n)
    raw = L.splitmix_bytes(c["seed"], 16)
    for p in ("<", ">", "=", "|", ""):
        need(L.dtype_itemsize((p + base).encode()) == n, "the width of %s is %d", p + base, L.dtype_itemsize((p + base).encode()))
        need(L.dtype_kind((p + base).encode()) == ord(k), "the kind of %s is %d", p + base, L.dtype_kind((p + base).encode()))
        try:
            t = np.dtype((p or "=") + base)
        except TypeError:
            continue
        need(t.itemsize == n and t.kind == k, "numpy: %s has width %d and kind %s", p + base, t.itemsize, t.kind)
    if n > 16:
        return
    root = ctx.dir + "/r"
    f = L.File(root, create=True).must()
    for i, p in enumerate(("<", "=", "|", "")):
        b = L.Block()
        ok(b.create(f, "b%d" % i, p + base, 1, [2]), "create with %s" % (p + base))
        need(b.dtype == "<" + base, "a block of type %s has type %s", p + base, b.dtype)
        d = L.splitmix_bytes(c["seed"], 2 * n)
        b.put(0, d, p + base, (2, 1))
        need(b.get(0, 2, "<" + base, n) == d, "rows of type %s differ from those of <%s", p + base, base)
        need(b.get(0, 2, base, n) == d, "rows of type %s differ from those of %s", p + base, base)
        ok(b.set_attr("a", L.Buf(d), p + base, 2), "set_attr")
        out = L.Buf(2 * n)
        ok(b.get_attr("a", out, "<" + base, 2), "get_attr")
        need(out.bytes() == d, "an attribute of type %s differs from <%s", p + base, base)
        b.close()
        need(fmt.read_header(root + "/b%d" % i)["dt"] == "<" + base, "header of a block of type %s", p + base)
        if base in DEF and base != "b1":
            need(do_format(p + base, raw[:n], None) == do_format("<" + base, raw[:n], None), "%s formats differently from <%s", p + base, base)
            if base[0] != "c":
                x, y = do_parse(b"17", p + base, n), do_parse(b"17", "<" + base, n)
                need(x == y and x[0] == 0, "%s parses differently from <%s", p + base, base)
    f.close()
    ctx.tag("prefixes")
    ctx.nontrivial()


def create(c, ctx):
    """accepted exactly if it can be opened again"""
    root = ctx.dir + "/r"
    f = L.File(root, create=True).must()
    for i, s in enumerate(c["types"]):
        t = s.encode()
        b = L.Block()
        rt = b.create(f, "b%d" % i, s, 1, [2])
        if rt == 0:
            dt = b.dtype
            ok(b.close(), "close")
            b = L.Block()
            need(b.open(f, "b%d" % i) == 0, "a block of type %r was created, but cannot be opened: %s", s, L.errmsg())
            need(b.dtype == dt, "created as %s, opened as %s", dt, b.dtype)
            w = L.dtype_itemsize(dt.encode())
            d = L.splitmix_bytes(3, 2 * w)
            b.put(0, d, dt, (2, 1))
            need(b.get(0, 2, dt, w) == d, "rows of a block of type %r", s)
            b.close()
            ctx.tag("accepted")
            ctx.nontrivial()
        else:
            L.free(b.h)
            if 1 < len(t) <= 7 and s[0] in "<>" and all(33 <= x < 127 for x in t):
                path = root + "/h%d" % i
                os.mkdir(path)
                with open(path + "/header", "w") as fp:
                    fp.write("DTYPE: %s\nNMEMB: 1\nNFILE: 1\n000000: 2 : 0 : 0\n" % s)
                b = L.Block()
                need(b.open(f, "h%d" % i) != 0, "type %r is refused at creation, but a block of it can be opened", s)
                L.free(b.h)
                ctx.nontrivial()
            ctx.tag("refused")
    f.close()


def run(case, ctx):
    for c in case["sub"]:
        {"value": value, "junk": junk, "digits": digits, "string": string}[c["k"]](c, ctx)
        for x in os.listdir(ctx.dir):
            shutil.rmtree(os.path.join(ctx.dir, x))
    if case["types"]:
        create(case, ctx)
