"""command line metadata tools against an independent reader and writer of the files"""
import os, re
import numpy as np
from .. import fmt
from .clilib import tool, need
from .c22 import printf, CT, DEF, bytes_of, intact

PARSED = {"i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16"}
JUNK = ["x", "", "e5", "+", "abc", ".", "I", "#1", "-", "--x", "_1"]


def norm(dt):
    return dt if dt[0] in "<>" else "<" + dt.lstrip("=|")


def number(dt, v, style):
    """-> a text and the bytes it stands for in type dt"""
    k = dt[1:]
    if k[0] in "iu":
        w = 8 * int(k[1])
        n = v % 2**w
        if k[0] == "i" and n >= 2**(w - 1):
            n -= 2**w
        s = str(abs(n))
        s = ("-" if n < 0 else "+" if style & 1 else "") + ("00" if style & 2 else "") + s
        return (" " if style & 4 else "") + s, np.array(n, dt).tobytes()
    f = {"f4": "f4", "f8": "f8", "c8": "f4", "c16": "f8"}[k]

    def one(v, style):
        x = [float(v), v / 2.0**20, v * 1e-30, float(v % 1000), float("inf"), v / 8.0][style % 6]
        x = np.array(x, f)
        digits = 9 if f == "f4" else 17
        return ["%.*g" % (digits, x), "%.*e" % (digits, x), "%.*E" % (digits, x)][style % 3], x.astype(dt[0] + f).tobytes()

    if k[0] == "f":
        return one(v, style)
    a, x = one(v, style)
    b, y = one(v // 7, style // 3 if (style // 3) % 6 != 4 else 0)
    return a + ["+", " + ", "+ "][style % 3] + b + ["I", " I", ""][style % 3], x + y


def shown(dt, raw):
    """pattern of the values as the tools print them"""
    w, k = fmt.width(dt), dt[1:]
    items = [raw[i:i + w] for i in range(0, len(raw), w)]
    if k[0] == "S":
        return b"".join(re.escape(x.split(b"\0")[0]) for x in items)
    out = []
    for x in items:
        if k == "b1":
            a = [CT[k](np.frombuffer(x, "i1")[0])]
        elif k[0] == "c":
            a = [CT["f8"](float(y)) for y in np.frombuffer(x, dt[0] + {"c8": "f4", "c16": "f8"}[k])]
        else:
            y = np.frombuffer(x, dt)[0]
            a = [CT[k](float(y) if k[0] == "f" else int(y))]
        out.append(re.escape(printf(DEF[k], *a)))
    return rb"\s+".join(out)


def full(name, a):
    return re.escape(name) + rb"\s+" + re.escape(a[0].encode()) + rb"\s+" + str(a[1]).encode() + rb"\s+\[\s*?" + (shown(a[0], a[2]) if a[1] else b"") + rb"\s*\]"


def run(case, ctx):
    root = os.path.join(ctx.dir, "r")
    model, v1 = {}, {}
    for s in case["blocks"]:
        n = s["name"]
        if any(k == n or k.startswith(n + "/") or n.startswith(k + "/") for k in model):
            continue
        dt, nm, fs = s["dt"], s["nm"], s["fs"]
        data = bytes_of(s["seed"], sum(fs) * nm * fmt.width(dt), dt, False)
        if s["carry"]:
            data = fmt.carry(data)
        sets = [{os.fsencode(k): (d, m, bytes_of(s["seed"] + i, m * fmt.width(d), d, True)) for i, (k, d, m) in enumerate(a)} for a in (s["attrs"], s["v1"])]
        p = os.path.join(root, n)
        cks = s.get("cks") and [s["cks"][i % len(s["cks"])] for i in range(len(fs))]
        fmt.write_block(p, dt, nm, fs, data, sets[0] if sets[0] or not sets[1] else None, v1=sets[1] or None, ck=cks)
        if cks:
            ctx.tag("checksums")
        if s.get("claim") and fs:
            # more rows than are there: the header alone counts for these tools
            fs = [s["claim"]] + fs[1:]
            fmt.write_header(p, dt, nm, fs, cks or [sum(data) & 0xffffffff] + [0] * (len(fs) - 1))
            if not cks:
                cks = [sum(data) & 0xffffffff] + [0] * (len(fs) - 1)
            ctx.tag("many-rows")
        v1[n] = sets[1]
        model[n] = {"dt": dt, "nm": nm, "fs": fs, "sum": fmt.fold(sum(cks or data) & 0xffffffff), "attrs": {**sets[1], **sets[0]}}
    os.makedirs(root, exist_ok=True)
    for i in range(case["stray"]):
        # things that are not blocks
        if i % 2:
            os.makedirs(os.path.join(root, "zz%d" % i, "empty"), exist_ok=True)
        else:
            open(os.path.join(root, "stray%d" % i), "w").close()

    def attrs_are(n, what):
        have = dict(v1[n])
        try:
            have.update(fmt.read_attrs(os.path.join(root, n)))
        except fmt.Bad as e:
            need(False, "%s: %s", what, e)
        want = model[n]["attrs"]
        for k in sorted(set(have) | set(want)):
            need(have.get(k) == want.get(k), "%s: attribute %s is %s, should be %s", what, k, have.get(k), want.get(k))

    def long_line(n):
        m = model[n]
        return [os.fsencode(n), m["dt"].encode(), str(m["nm"]).encode(), str(sum(m["fs"])).encode(), m["sum"], str(len(m["fs"])).encode()]

    def check_long(line, what):
        f = line.split(maxsplit=6)
        need(len(f) == 7, "%s printed %r", what, line)
        n = os.fsdecode(f[0])
        need(n in model, "%s lists %r", what, n)
        need(f[4].isdigit() and f[:4] + [int(f[4])] + f[5:6] == long_line(n), "%s printed %r, not %s", what, line, long_line(n))
        need(os.path.realpath(os.fsdecode(f[6])) == os.path.realpath(os.path.join(root, n)), "%s printed the path %r", what, f[6])
        return n

    names = sorted(model)
    for op in case["ops"]:
        before = fmt.snapshot(root)
        n = "none" if op["at"] < 0 or not names else names[op["at"] % len(names)]
        m = model.get(n)
        known = sorted(m["attrs"]) if m else []

        def attr(x):
            if isinstance(x, int):
                return known[x % len(known)] if known else b"k"
            return os.fsencode(x)

        rootarg = root if not op["nofile"] else os.path.join(ctx.dir, "nofile")
        if op["nofile"]:
            m = None
        if op["op"] == "ls":
            opts = ["-l"] if op["long"] else []
            args = opts + [rootarg] + ([n] if op["one"] else [])
            what = "bigfile-ls %s" % args
            rc, out, err = tool("bigfile-ls", *args)
            bad = op["nofile"] or op["one"] and not m
            need((rc != 0) == bool(bad), "%s exited with %d: %s", what, rc, err)
            lines = out.splitlines()
            need(not bad or not lines, "%s printed %r", what, out)
            if not bad:
                got = [check_long(x, what) for x in lines] if op["long"] else [os.fsdecode(x) for x in lines]
                want = [n] if op["one"] else names
                need(sorted(got) == want, "%s lists %s, should list %s", what, sorted(got), want)
                ctx.nontrivial(bool(want))
            intact(before, root, what)
            ctx.tag("ls-bad" if bad else "ls-long" if op["long"] else "ls")
        elif op["op"] == "get":
            ask = [attr(x) for x in op["attrs"]]
            args = (["-l"] if op["long"] else []) + ["--", rootarg, n] + ask
            what = "bigfile-get-attr %s" % args
            rc, out, err = tool("bigfile-get-attr", *args)
            need((rc != 0) == (m is None), "%s exited with %d: %s", what, rc, err)
            intact(before, root, what)
            if m is None:
                need(out == b"", "%s printed %r", what, out)
                ctx.tag("get-bad")
                continue
            pat = []
            if not ask:
                # any order
                rest = out
                for k in sorted(known, key=lambda k: -len(full(k, m["attrs"][k]))):
                    p = full(k, m["attrs"][k])
                    rest, c = re.subn(rb"(?<![^\n])" + p + rb"\n", b"", rest, count=1)
                    need(c == 1, "%s does not show %s %s: %r", what, k, m["attrs"][k], out)
                need(rest == b"", "%s also prints %r", what, rest)
            else:
                for k in ask:
                    a = m["attrs"].get(k)
                    if a is None:
                        pat.append(re.escape(k) + rb"[^\n]*")
                    elif len(ask) == 1 and not op["long"]:
                        pat.append(rb"\s*?" + (shown(a[0], a[2]) if a[1] else b"") + rb"\s*")
                    else:
                        pat.append(full(k, a))
                need(re.fullmatch(rb"\n".join(pat) + rb"\n", out), "%s printed %r, expected %r", what, out, b"\n".join(pat))
            ctx.nontrivial(len(known) > 1)
            ctx.tag("get-all" if not ask else "get-one" if len(ask) == 1 else "get-some")
        else:
            k = attr(op["attr"])
            old = m["attrs"].get(k) if m else None
            if op["force"]:
                old = None
            dt = op["dt"] if op["dt"] is not None else (old[0] if old else None)
            valid = dt is not None and re.fullmatch(r"[<>=|]?[Sbiufc][1-9][0-9]*", dt)
            t = norm(dt)[1:] if valid else None
            nitems, ok = op["n"] or (old[1] if old else 0), bool(valid) and m is not None
            if valid and t[0] == "S":
                if t != "S1":
                    continue
                vals = [op["text"]]
                raw = os.fsencode(op["text"]) + b"\0"
            elif t in PARSED:
                pairs = [number(norm(dt), v, s) for v, s in op["vals"]]
                vals, raw = [x[0] for x in pairs], b"".join(x[1] for x in pairs)
                if op["fit"] and nitems > 0:
                    vals, raw = vals * nitems, raw * nitems
                    vals, raw = vals[:nitems], raw[:nitems * fmt.width(norm(dt))]
                if op["bad"] is not None:
                    j = op["bad"]
                    vals[j % len(vals)] = JUNK[j % len(JUNK)] if t[0] != "c" or j % 2 else ["17", "1.5", "+4+I", "17+x"][j // 2 % 4]
                    ok = False
                    ctx.tag("set-junk")
            else:
                vals, raw = ["1"], b""
                ok = False
            count = len(raw) // (fmt.width(norm(dt)) if valid else 1)
            if nitems and nitems != count:
                ok = False
                if valid and t in PARSED | {"S1"}:
                    ctx.tag("set-count")
            args = ["-t", op["dt"]] if op["dt"] is not None else []
            args += ["-n", str(op["n"])] if op["n"] else []
            args += ["-f"] if op["force"] else []
            pos = [rootarg, n, k] + vals
            if op["dash"] or any(os.fsencode(x).startswith(b"-") for x in pos):
                args.append("--")
            args += pos
            what = "bigfile-set-attr %s" % args
            limit = op["limit"]
            rc, out, err = tool("bigfile-set-attr", *args, fsize=limit)
            need(rc != 0 or ok, "%s exited with 0", what)
            need(rc == 0 or not ok or limit is not None, "%s failed: %s", what, err)
            if rc == 0:
                m["attrs"][k] = (norm(dt), count, raw)
                ctx.nontrivial(count > 1 or len(m["attrs"]) > 1)
                ctx.tag("set-over" if old else "set-new")
                intact(before, root, what, [n + "/attr-v2"])
                attrs_are(n, what)
            elif ok:
                # the disk is full: what is left of the attributes is not claimed
                intact(before, root, what, [n + "/attr-v2"])
                ctx.tag("set-limit")
                return
            else:
                intact(before, root, what)
                ctx.tag("set-refused")
