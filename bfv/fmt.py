"""Independent reader and writer of the on-disk format; shares no code with the library. Raises Bad on anything undocumented."""
import os, re, struct


class Bad(Exception):
    pass


def width(dt):
    return int(dt[2:])


def fold(s):
    r = (s & 0xffff) + ((s & 0xffffffff) >> 16)
    return (r & 0xffff) + (r >> 16)


def carry(raw):
    """the bytes raw changed such that folding their sum carries, if they are long enough for that"""
    import numpy as np
    a = np.frombuffer(raw, "u1").astype("i8")
    s, most = int(a.sum()), 255 * len(a)
    hi = max(1, s >> 16)
    if most < (hi << 16) + 0xffff:
        hi = (most - 0xffff) >> 16
        if hi < 1:
            return raw
    # any low half from 65536 - hi carries
    want = (hi << 16) + 0xffff - (len(a) + s) % hi
    d = want - s
    room = 255 - a if d > 0 else a
    c = np.cumsum(room)
    take = np.clip(abs(d) - (c - room), 0, room)
    a += take if d > 0 else -take
    s = int(a.sum())
    assert s == want and (s & 0xffff) + (s >> 16) > 0xffff
    return a.astype("u1").tobytes()


def read_header(path):
    with open(os.path.join(path, "header"), "rb") as f:
        t = f.read()
    m = re.match(rb"DTYPE: ([<>][a-z|A-Z][0-9]+)\nNMEMB: ([0-9]+)\nNFILE: ([0-9]+)\n", t)
    if not m:
        raise Bad("header does not start with the three documented lines: %r" % t[:200])
    n = int(m.group(3))
    lines = t[m.end():].split(b"\n")
    if lines[-1] != b"" or len(lines) != n + 1:
        raise Bad("header has %d file lines for NFILE %d" % (len(lines) - 1, n))
    fs, ck = [None] * n, [None] * n
    for l in lines[:-1]:
        m2 = re.match(rb"([0-9A-F]{6,}): ([0-9]+) : ([0-9]+) : ([0-9]+)$", l)
        if not m2:
            raise Bad("file line %r" % l)
        i = int(m2.group(1), 16)
        if i >= n or fs[i] is not None:
            raise Bad("file line for %d, NFILE %d" % (i, n))
        fs[i], ck[i] = int(m2.group(2)), int(m2.group(3))
        if int(m2.group(4)) != fold(ck[i]):
            raise Bad("file %d: folded sum %d for sum %d" % (i, int(m2.group(4)), ck[i]))
    return {"dt": m.group(1).decode(), "nm": int(m.group(2)), "fs": fs, "ck": ck}


def read_attrs(path):
    p = os.path.join(path, "attr-v2")
    out = {}
    if not os.path.exists(p):
        return out
    with open(p, "rb") as f:
        t = f.read()
    if t and not t.endswith(b"\n"):
        raise Bad("attr-v2 does not end with a newline")
    for l in t.split(b"\n")[:-1]:
        m = re.match(rb"([^ \t\n]+) ([<>][A-Za-z][0-9]+) ([0-9]+) ([0-9A-F]*)(?: #HUMANE \[ .*\])?$", l, re.S)
        if not m:
            raise Bad("attribute line %r" % l)
        raw = bytes.fromhex(m.group(4).decode())
        dt, nm = m.group(2).decode(), int(m.group(3))
        if len(raw) != width(dt) * nm:
            raise Bad("attribute %r: %d bytes for %d x %s" % (m.group(1), len(raw), nm, dt))
        if m.group(1) in out:
            raise Bad("attribute %r twice" % m.group(1))
        out[m.group(1)] = (dt, nm, raw)
    return out


def datafile(path, i):
    return os.path.join(path, "%06X" % i)


def read_raw(path, h, strict=True):
    """bytes of each physical file"""
    row = width(h["dt"]) * h["nm"]
    out = []
    for i, n in enumerate(h["fs"]):
        with open(datafile(path, i), "rb") as f:
            b = f.read()
        if strict and len(b) != n * row:
            raise Bad("file %06X has %d bytes, %d rows of %d recorded" % (i, len(b), n, row))
        out.append(b)
    return out


def read_block(path, strict=True):
    h = read_header(path)
    h["raw"] = read_raw(path, h, strict)
    h["data"] = b"".join(h["raw"])
    h["attrs"] = read_attrs(path)
    return h


def extra_files(path, h):
    known = {"header", "attr-v2", "attr"} | {"%06X" % i for i in range(len(h["fs"]))}
    return sorted(set(os.listdir(path)) - known)


def write_header(path, dt, nm, fs, ck, order=None, style=0):
    sep = ["\n", "\n\n", " \n", "\r\n"][style % 4]
    t = "DTYPE: %s%sNMEMB: %d%sNFILE: %d%s" % (dt, sep, nm, sep, len(fs), sep)
    for i in (order if order is not None else range(len(fs))):
        t += "%06X: %d : %d : %d\n" % (i, fs[i], ck[i], fold(ck[i]))
    with open(os.path.join(path, "header"), "w", newline="") as f:
        f.write(t)


def attr_line(name, dt, nm, raw, humane=True):
    l = name + b" " + dt.encode() + b" " + str(nm).encode() + b" " + raw.hex().upper().encode()
    if humane:
        l += b" #HUMANE [ whatever ]"
    return l + b"\n"


def write_attrs(path, attrs, humane=True):
    with open(os.path.join(path, "attr-v2"), "wb") as f:
        for name, (dt, nm, raw) in attrs.items():
            f.write(attr_line(name, dt, nm, raw, humane))


def write_attrs_v1(path, attrs):
    with open(os.path.join(path, "attr"), "wb") as f:
        for name, (dt, nm, raw) in attrs.items():
            f.write(struct.pack("=ii8s", nm, len(name), dt.encode()) + name + raw)


def write_block(path, dt, nm, fs, data, attrs=None, order=None, style=0, humane=True, v1=None, ck=None):
    """ck: checksums to store, whatever the data"""
    os.makedirs(path, exist_ok=True)
    row = width(dt) * nm
    o = 0
    given, ck = ck, []
    for i, n in enumerate(fs):
        b = data[o:o + n * row]
        o += n * row
        with open(datafile(path, i), "wb") as f:
            f.write(b)
        ck.append(sum(b) & 0xffffffff if given is None else given[i])
    write_header(path, dt, nm, fs, ck, order, style)
    if attrs is not None:
        write_attrs(path, attrs, humane)
    if v1:
        write_attrs_v1(path, v1)
    return ck


def snapshot(root):
    """path -> bytes of every file below root (directories: None)"""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out
